package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

type KV func(st *State, v V)

// catching: can a run-time panic at this point be observed by the code or allowed by the contract?
func (x *Ex) catching(st *State) bool {
	if x.con != nil && x.con.strict {
		return false
	}
	if x.con != nil && x.con.panics != "never" {
		return true
	}
	for f := st.frame; f != nil; f = f.parent {
		if len(st.defers[f]) > 0 {
			return true
		}
	}
	return false
}

// check emits a run-time check: an obligation, or a fork into the panicking continuation where panics are observable.
func (x *Ex) check(st *State, cond, kind string, n ast.Node, k func(st *State)) {
	if cond == "true" && x.dry == 0 || x.noOb > 0 {
		k(st)
		return
	}
	if x.catching(st) && len(x.guard) == 0 {
		x.ite(cond, func() { k(st.clone()) }, func() { s2 := st.clone(); x.raise(s2, "Val::Other(1)") })
		return
	}
	x.assert(cond, kind, kind, n)
	k(st)
}

func (x *Ex) nilCheck(st *State, ref string, n ast.Node, k func(st *State)) {
	if (st.nonnil[ref] || st.freshR[ref]) && x.dry == 0 {
		k(st)
		return
	}
	x.check(st, ref+" != 0", "nil", n, func(st *State) {
		if len(x.guard) == 0 {
			st.nonnil[ref] = true
		}
		k(st)
	})
}

// ---- l-values ----

type LV struct {
	kind  string // var, field, sub, index, global, blank, boxvar
	v     *types.Var
	ref   string
	d     *StructSort
	f     *StructField
	base  *LV
	idx   V
	cont  types.Type // container type for index
	typ   types.Type
	gkey  string
	slice *[2]string
}

func (x *Ex) varOf(st *State, id *ast.Ident) *types.Var {
	in := x.info(st)
	if o, ok := in.Defs[id].(*types.Var); ok {
		return o
	}
	if o, ok := in.Uses[id].(*types.Var); ok {
		return o
	}
	return nil
}

func (x *Ex) evalLV(e ast.Expr, st *State, k func(st *State, lv *LV)) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.evalLV(e.X, st, k)
		return
	case *ast.Ident:
		if e.Name == "_" {
			k(st, &LV{kind: "blank"})
			return
		}
		v := x.varOf(st, e)
		if v == nil {
			x.unsup(e, "not a variable: "+e.Name)
		}
		if x.g.pr.globals[v] != nil {
			k(st, &LV{kind: "global", v: v, typ: v.Type(), gkey: globalKey(v)})
			return
		}
		if r, ok := st.boxed[v]; ok {
			k(st, &LV{kind: "boxvar", v: v, ref: r, d: x.g.so.structSort(named(v.Type())), typ: v.Type()})
			return
		}
		if x.ptrVal(v.Type()) {
			if al := st.vars[v].alias; al != nil {
				lv := *al
				lv.typ = v.Type()
				k(st, &lv)
				return
			}
		}
		k(st, &LV{kind: "var", v: v, typ: v.Type()})
		return
	case *ast.StarExpr:
		t := x.typeOf(st, e.X)
		if x.g.so.isRef(t) {
			x.eval(e.X, st, func(st *State, p V) {
				x.nilCheck(st, p.t, e, func(st *State) {
					d := x.g.so.refStruct(t)
					k(st, &LV{kind: "deref", ref: p.t, d: d, typ: t.Underlying().(*types.Pointer).Elem()})
				})
			})
			return
		}
		eval := x.evalLV
		if _, call := ast.Unparen(e.X).(*ast.CallExpr); call {
			eval = x.evalLVorTemp
		}
		eval(e.X, st, func(st *State, lv *LV) {
			n := *lv
			n.typ = t.Underlying().(*types.Pointer).Elem()
			k(st, &n)
		})
		return
	case *ast.SelectorExpr:
		in := x.info(st)
		if sel, ok := in.Selections[e]; ok && sel.Kind() == types.FieldVal {
			x.fieldPath(e.X, sel.Index(), st, e, k)
			return
		}
		if v, ok := in.Uses[e.Sel].(*types.Var); ok {
			if x.g.pr.globals[v] != nil {
				k(st, &LV{kind: "global", v: v, typ: v.Type(), gkey: globalKey(v)})
				return
			}
			if v.Pkg() != nil && !v.IsField() {
				k(st, &LV{kind: "extglobal", v: v, typ: v.Type()})
				return
			}
		}
	case *ast.IndexExpr:
		t := x.typeOf(st, e.X)
		x.evalLVorTemp(e.X, st, func(st *State, b *LV) {
			x.eval(e.Index, st, func(st *State, i V) {
				x.convertTo(st, e.Index, i, indexKeyType(t), func(st *State, i V) {
					ct := t
					if p, ok := t.Underlying().(*types.Pointer); ok {
						ct = p.Elem()
					}
					k(st, &LV{kind: "index", base: b, idx: i, cont: ct, typ: elemType(ct)})
				})
			})
		})
		return
	}
	x.unsup(e, "l-value")
}

// evalLVorTemp: like evalLV, but any expression can be used as a temporary.
func (x *Ex) evalLVorTemp(e ast.Expr, st *State, k func(st *State, lv *LV)) {
	switch y := e.(type) {
	case *ast.ParenExpr:
		x.evalLVorTemp(y.X, st, k)
		return
	case *ast.Ident:
		if x.varOf(st, y) != nil {
			x.evalLV(e, st, k)
			return
		}
	case *ast.SelectorExpr:
		if sel, ok := x.info(st).Selections[y]; ok && sel.Kind() == types.FieldVal {
			x.evalLV(e, st, k)
			return
		}
		if _, ok := x.info(st).Uses[y.Sel].(*types.Var); ok {
			x.evalLV(e, st, k)
			return
		}
	case *ast.StarExpr:
		x.evalLV(e, st, k)
		return
	case *ast.IndexExpr:
		x.evalLV(e, st, k)
		return
	}
	t := x.typeOf(st, e)
	x.eval(e, st, func(st *State, v V) {
		if v.alias != nil && x.ptrVal(t) {
			lv := *v.alias
			lv.typ = t
			k(st, &lv)
			return
		}
		k(st, &LV{kind: "temp", idx: v, typ: t})
	})
}

// ptrVal: pointers to anything that is no heap object (a string builder, a map or slice type, a number). They are
// represented by the value they point to, together with the place it is kept in.
func (x *Ex) ptrVal(t types.Type) bool {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok && !x.g.so.isRef(t) && !isWaitGroup(p.Elem()) && !isMutex(p.Elem())
}

// pointsTo gives the value of a pointer expression the place it points to.
func (x *Ex) pointsTo(lv *LV, t types.Type, v V) V {
	if x.ptrVal(t) && lv.kind != "temp" {
		v.alias = lv
	}
	return v
}

// roots reports whether the place lv is inside is the variable v.
func (lv *LV) roots(v *types.Var) bool {
	for lv.base != nil {
		lv = lv.base
	}
	return lv.kind == "var" && lv.v == v
}

// setPtr assigns a pointer variable.
func (x *Ex) setPtr(st *State, v *types.Var, val V, n ast.Node) {
	for q, o := range st.vars {
		if o.alias != nil && q != v && o.alias.roots(v) {
			x.unsup(n, "assignment of a pointer that another one shares")
		}
	}
	if old, ok := st.vars[v]; ok && (val.alias != nil || old.alias != nil) && x.logV != nil {
		x.unsup(n, "pointer assigned in a loop")
	}
	if val.alias != nil && val.alias.roots(v) {
		return
	}
	val.t = x.let(x.g.so.of(v.Type()), val.t)
	x.setVar(st, v, val)
}

// kept refuses to store a pointer in a second place, which would have to follow the writes through the first.
func (x *Ex) kept(val V, t types.Type, n ast.Node) {
	if val.alias != nil && val.alias.kind != "ro" && x.ptrVal(t) {
		x.unsup(n, "pointer to a local value kept in a structure")
	}
}

func indexKeyType(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key()
	}
	return types.Typ[types.Int]
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Int]
}

func (x *Ex) fieldPath(base ast.Expr, path []int, st *State, n ast.Node, k func(st *State, lv *LV)) {
	t := x.typeOf(st, base)
	if x.g.so.isRef(t) || x.g.so.refStruct(t) != nil {
		x.eval(base, st, func(st *State, r V) {
			x.nilCheck(st, r.t, n, func(st *State) { x.walkField(st, nil, r.t, t, path, n, k) })
		})
		return
	}
	x.evalLVorTemp(base, st, func(st *State, lv *LV) {
		if lv.kind == "boxvar" {
			x.walkField(st, nil, lv.ref, types.NewPointer(lv.typ), path, n, k)
			return
		}
		x.walkField(st, lv, "", t, path, n, k)
	})
}

func (x *Ex) walkField(st *State, base *LV, ref string, t types.Type, path []int, n ast.Node, k func(st *State, lv *LV)) {
	var stt *types.Struct
	var d *StructSort
	if base == nil {
		d = x.g.so.refStruct(t)
		if d == nil {
			x.unsup(n, "field of an opaque reference")
		}
		stt = d.st
	} else {
		nn := named(t)
		if nn == nil {
			x.unsup(n, "field of an anonymous struct")
		}
		d = x.g.so.structSort(nn)
		stt = d.st
	}
	fv := stt.Field(path[0])
	if isMutex(fv.Type()) {
		lv := &LV{kind: "mutex", ref: ref, d: d, typ: fv.Type(), gkey: lockKey(d, fv.Name())}
		if base != nil && base.kind == "var" {
			lv.ref = "0" // lock of a stack variable: not shared
		}
		k(st, lv)
		return
	}
	f := d.field(fv.Name())
	if f == nil {
		x.unsup(n, "unknown field "+fv.Name())
	}
	lv := &LV{kind: "field", ref: ref, d: d, f: f, typ: fv.Type()}
	if base != nil {
		lv = &LV{kind: "sub", base: base, d: d, f: f, typ: fv.Type()}
	}
	if len(path) == 1 {
		k(st, lv)
		return
	}
	if x.g.so.isRef(fv.Type()) {
		x.loadLV(lv, st, n, func(st *State, r V) {
			x.nilCheck(st, r.t, n, func(st *State) { x.walkField(st, nil, r.t, fv.Type(), path[1:], n, k) })
		})
		return
	}
	x.walkField(st, lv, "", fv.Type(), path[1:], n, k)
}

func lockKey(d *StructSort, f string) string {
	if len(d.locks) <= 1 {
		return "L:" + d.short
	}
	return "L:" + d.short + "_" + f
}

// lockCheck: guarded fields are touched only while holding the lock.
func (x *Ex) lockCheck(st *State, ref string, d *StructSort, f string, write bool, n ast.Node) {
	g := x.g.sp.guarded[d.short]
	if g == nil || !g.fields[f] || st.freshR[ref] {
		return
	}
	l := x.heapOf(st, g.lock)
	if write {
		x.assert(fmt.Sprintf("%s[%s] == 2", l, ref), "lock", "write of "+d.short+"."+f+" without exclusive lock", n)
	} else {
		x.assert(fmt.Sprintf("%s[%s] >= 1", l, ref), "lock", "read of "+d.short+"."+f+" without lock", n)
	}
}

func (x *Ex) loadLV(lv *LV, st *State, n ast.Node, k KV) {
	switch lv.kind {
	case "temp", "ro":
		k(st, lv.idx)
	case "lost":
		x.unsup(n, "pointer "+lv.v.Name()+" assigned in a loop")
	case "var":
		v, ok := st.vars[lv.v]
		if !ok {
			x.unsup(n, "variable without value: "+lv.v.Name())
		}
		k(st, v)
	case "boxvar", "deref":
		h := x.heapOf(st, "H:"+lv.d.short)
		k(st, V{t: x.let(lv.d.name, fmt.Sprintf("%s[%s]", h, lv.ref))})
	case "global":
		lk := x.varCheck(st, lv.v, false, n)
		v := x.global(lv.v, st)
		if lk != "" && hasRegion(lv.typ) {
			v.lockKey, v.lockRef = lk, "1int"
			_, v.lockMap = lv.typ.Underlying().(*types.Map)
		}
		k(st, v)
	case "extglobal":
		nm := "ext_" + lv.v.Pkg().Name() + "_" + lv.v.Name()
		if _, ok := x.psorts[nm]; !ok {
			so := x.g.so.of(lv.typ)
			x.psorts[nm] = so
			x.params = append(x.params, nm+": "+so)
		}
		f := x.typeFacts(lv.typ, nm, st)
		if isErrorType(lv.typ) {
			f = append(f, nm+" != 0")
		}
		x.assumeAll(f, func() { k(st, V{t: nm}) })
	case "field":
		x.lockCheck(st, lv.ref, lv.d, lv.f.goN, false, n)
		h := x.heapOf(st, "H:"+lv.d.short)
		t := x.let(lv.f.sort, fmt.Sprintf("%s[%s].%s", h, lv.ref, lv.f.name))
		v := V{t: t}
		if m, ok := st.meta[lv.ref+"|"+lv.f.goN]; ok {
			v.reg, v.cap = m.reg, m.cap
		} else if hasRegion(lv.typ) {
			v.reg = "ext:" + lv.ref + "." + lv.f.goN
		}
		if gd := x.g.sp.guarded[lv.d.short]; x.g.locks != nil && gd != nil && gd.fields[lv.f.goN] && !st.freshR[lv.ref] && hasRegion(lv.typ) {
			v.lockKey, v.lockRef = gd.lock, lv.ref
			_, v.lockMap = lv.typ.Underlying().(*types.Map)
		}
		if st.facts[t+h] == "" && len(x.guard) == 0 {
			st.facts[t+h] = "1"
			x.assumeAll(x.typeFacts(lv.typ, t, st), func() { k(st, v) })
			return
		}
		k(st, v)
	case "sub":
		x.loadLV(lv.base, st, n, func(st *State, b V) {
			t := x.let(lv.f.sort, fmt.Sprintf("%s.%s", paren(b.t), lv.f.name))
			k(st, V{t: t})
		})
	case "index":
		x.loadLV(lv.base, st, n, func(st *State, b V) { x.indexValue(st, b, lv.cont, lv.idx, n, k) })
	case "blank":
		x.unsup(n, "load of _")
	default:
		x.unsup(n, "load "+lv.kind)
	}
}

func hasRegion(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Map:
		return true
	case *types.Pointer:
		return !isStructPtr(u)
	}
	return false
}

func isStructPtr(p *types.Pointer) bool {
	_, ok := p.Elem().Underlying().(*types.Struct)
	return ok
}

func seqPart(so, t string) string {
	if so == "List" {
		return t + ".s"
	}
	return t
}

func (x *Ex) indexValue(st *State, b V, ct types.Type, i V, n ast.Node, k KV) {
	if _, ok := ct.Underlying().(*types.Map); ok {
		x.lockedUse(st, b, false, n)
		so := x.g.so.of(ct)
		_ = so
		et := elemType(ct)
		es := x.g.so.of(et)
		t := x.let(es, fmt.Sprintf("(if %s.m.dom().contains(%s) { %s.m[%s] } else { %s })", b.t, i.t, b.t, i.t, x.g.so.zero(et)))
		x.withFacts(st, et, t, func(st *State) { k(st, V{t: t}) })
		return
	}
	so := x.g.so.of(ct)
	sq := seqPart(so, b.t)
	x.check(st, fmt.Sprintf("0 <= %s < %s.len()", i.t, sq), "bounds", n, func(st *State) {
		et := elemType(ct)
		if so == seqU8 {
			k(st, V{t: x.let("int", fmt.Sprintf("(%s[%s] as int)", sq, i.t))})
			return
		}
		t := x.let(x.g.so.of(et), fmt.Sprintf("%s[%s]", sq, i.t))
		v := V{t: t}
		if hasRegion(et) {
			v.reg = "ext:" + b.t + "[" + i.t + "]"
		}
		x.withFacts(st, et, t, func(st *State) { k(st, v) })
	})
}

func (x *Ex) withFacts(st *State, t types.Type, v string, k func(st *State)) {
	if len(x.guard) > 0 {
		k(st)
		return
	}
	x.assumeAll(x.typeFacts(t, v, st), func() { k(st) })
}

func (x *Ex) setVar(st *State, v *types.Var, val V) {
	st.vars[v] = val
	st.wrote = &wroteList{v, st.wrote}
	if x.logV != nil {
		x.logV[v] = true
	}
}

// storeLV writes a value (already converted to the l-value's type).
func (x *Ex) storeLV(lv *LV, st *State, val V, n ast.Node, k func(st *State)) {
	switch lv.kind {
	case "blank":
		k(st)
	case "var":
		so := x.g.so.of(lv.v.Type())
		val.t = x.let(so, val.t)
		if x.ptrVal(lv.v.Type()) {
			val.alias = nil
		}
		x.setVar(st, lv.v, val)
		k(st)
	case "ro":
		x.unsup(n, "write through a pointer whose target is not known")
	case "boxvar", "deref":
		x.givenCheck(st, lv.ref, n)
		x.setHeap(st, "H:"+lv.d.short, fmt.Sprintf("%s.insert(%s, %s)", x.heapOf(st, "H:"+lv.d.short), lv.ref, val.t))
		k(st)
	case "global":
		x.kept(val, lv.typ, n)
		gi := x.g.pr.globals[lv.v]
		gi.mutable = true
		x.varCheck(st, lv.v, true, n)
		x.setHeap(st, "V:"+lv.gkey, val.t)
		k(st)
	case "field":
		x.kept(val, lv.typ, n)
		x.lockCheck(st, lv.ref, lv.d, lv.f.goN, true, n)
		x.givenCheck(st, lv.ref, n)
		x.escape(st, val, lv.ref, n)
		if !st.freshR[lv.ref] {
			delete(st.freshR, val.t)
		}
		h := x.heapOf(st, "H:"+lv.d.short)
		x.setHeap(st, "H:"+lv.d.short, fmt.Sprintf("%s.insert(%s, %s { %s: %s, ..%s[%s] })", h, lv.ref, lv.d.name, lv.f.name, val.t, h, lv.ref))
		// a store through one reference may change the same field seen through another
		for key := range st.meta {
			if strings.HasSuffix(key, "|"+lv.f.goN) && (key == lv.ref+"|"+lv.f.goN || !strings.HasPrefix(st.meta[key].reg, "borrow:")) {
				delete(st.meta, key)
			}
		}
		if hasRegion(lv.typ) {
			st.meta[lv.ref+"|"+lv.f.goN] = V{reg: val.reg, cap: val.cap}
		}
		k(st)
	case "sub":
		x.kept(val, lv.typ, n)
		x.loadLV(lv.base, st, n, func(st *State, b V) {
			x.storeLV(lv.base, st, V{t: fmt.Sprintf("%s { %s: %s, ..%s }", lv.d.name, lv.f.name, val.t, b.t)}, n, k)
		})
	case "index":
		x.kept(val, lv.typ, n)
		x.loadLV(lv.base, st, n, func(st *State, b V) {
			var nt string
			if _, ok := lv.cont.Underlying().(*types.Map); ok {
				x.checkMapWrite(st, lv.cont, b, n, func(st *State) {
					so := x.g.so.of(lv.cont)
					x.escape(st, val, "", n)
					nt = fmt.Sprintf("%s { nil: false, m: %s.m.insert(%s, %s) }", turbofish(so), b.t, lv.idx.t, val.t)
					x.mutate(st, lv.base, b, V{t: nt, reg: b.reg, cap: b.cap}, n, k)
				})
				return
			}
			so := x.g.so.of(lv.cont)
			sq := seqPart(so, b.t)
			if _, isArr := lv.cont.Underlying().(*types.Array); isArr && lv.base.kind == "var" && st.esc["sliced:"+lv.base.v.Name()] {
				x.unsup(n, "write into an array of which there are slices")
			}
			x.check(st, fmt.Sprintf("0 <= %s < %s.len()", lv.idx.t, sq), "bounds", n, func(st *State) {
				x.escape(st, val, "", n)
				switch so {
				case seqU8:
					nt = fmt.Sprintf("%s.update(%s, %s as u8)", b.t, lv.idx.t, paren(val.t))
				case "List":
					nt = fmt.Sprintf("List { nil: false, s: %s.s.update(%s, %s) }", b.t, lv.idx.t, val.t)
				default:
					nt = fmt.Sprintf("%s.update(%s, %s)", b.t, lv.idx.t, val.t)
				}
				x.mutate(st, lv.base, b, V{t: nt, reg: b.reg, cap: b.cap}, n, k)
			})
		})
	case "extglobal", "temp":
		k(st)
	default:
		x.unsup(n, "store "+lv.kind)
	}
}

func turbofish(so string) string {
	if i := strings.Index(so, "<"); i > 0 {
		return so[:i] + "::" + so[i:]
	}
	return so
}

func (x *Ex) checkMapWrite(st *State, ct types.Type, b V, n ast.Node, k func(st *State)) {
	x.check(st, "!"+paren(b.t)+".nil", "nil", n, k)
}

// mutate performs an in-place update of the slice or map stored at lv and of every local variable known to
// share it.
func (x *Ex) mutate(st *State, lv *LV, old V, nv V, n ast.Node, k func(st *State)) {
	x.lockedUse(st, old, true, n)
	nv.lockKey, nv.lockRef, nv.lockMap = old.lockKey, old.lockRef, old.lockMap
	reg := old.reg
	if x.arrReg[reg] {
		x.unsup(n, "write through a slice of an array")
	}
	if st.esc["consumed:"+reg] && reg != "" {
		x.assert("false", "ownership", "write to a buffer that was given away", n)
	}
	if st.esc["escaped:"+reg] && strings.HasPrefix(reg, "fresh#") && (lv.kind == "var" || lv.kind == "sub") {
		x.assert("false", "ownership", "in-place write to memory that is also referenced elsewhere", n)
	}
	if lv.kind == "var" {
		switch {
		case strings.HasPrefix(reg, "fresh#"), reg == "":
		case strings.HasPrefix(reg, "param:"):
			if !x.inoutOK(reg[6:]) {
				x.assert("false", "ownership", "in-place write to "+reg[6:]+", which belongs to the caller", n)
			}
		case strings.HasPrefix(reg, "ext:"):
			x.assert("false", "ownership", "in-place write through a copy of "+reg[4:], n)
		}
		so := x.g.so.of(lv.v.Type())
		nv.t = x.let(so, nv.t)
		// other local names of the same object
		if reg != "" {
			for v, val := range st.vars {
				if v != lv.v && val.reg == reg && x.g.so.of(v.Type()) == so {
					if val.t == old.t {
						x.setVar(st, v, nv)
					} else {
						// overlapping but not identical: contents unknown
						h := x.fresh(so, "hv")
						x.setVar(st, v, V{t: h, reg: reg})
					}
				}
			}
		}
		x.setVar(st, lv.v, nv)
		k(st)
		return
	}
	if lv.kind == "temp" {
		k(st)
		return
	}
	if lv.kind == "index" || lv.kind == "sub" {
		x.storeLV(lv, st, nv, n, k)
		return
	}
	x.storeLV(lv, st, nv, n, k)
}

func (x *Ex) inoutOK(p string) bool {
	for _, q := range x.con.inout {
		if q == p {
			return true
		}
	}
	return false
}

// escape records that a value's bytes are now reachable from the heap (into object ref, "" = unknown).
func (x *Ex) escape(st *State, val V, ref string, n ast.Node) {
	if val.reg == "" {
		// an object made here takes the bytes its fields refer to along
		if ref != "" && st.freshR[ref] {
			x.addEsc(st, "held:"+val.t)
			return
		}
		for _, key := range sortedKeys(st.meta) {
			if m := st.meta[key]; strings.HasPrefix(key, val.t+"|") && m.reg != "" {
				x.escape(st, m, "", n)
			}
		}
		return
	}
	if strings.HasPrefix(val.reg, "borrow:") {
		if ref != "" && st.freshR[ref] {
			// kept inside an object made here; the object's meta remembers the region
			return
		}
		x.assert("false", "ownership", "borrowed bytes "+val.reg[7:]+" are stored where they outlive the call", n)
	}
	if st.esc["consumed:"+val.reg] {
		x.assert("false", "ownership", "use of a buffer after it was given away", n)
	}
	if ref == "" || !st.freshR[ref] {
		x.addEsc(st, "escaped:"+val.reg)
	}
}

// givenCheck: an object that was sent on a channel belongs to the receiver.
func (x *Ex) givenCheck(st *State, ref string, n ast.Node) {
	if st.esc["given:"+ref] {
		x.assert("false", "ownership", "an object is changed after it was given away", n)
	}
}

// ---- globals ----

func (x *Ex) global(v *types.Var, st *State) V {
	gi := x.g.pr.globals[v]
	key := globalKey(v)
	if gi.mutable {
		return V{t: x.heapOf(st, "V:"+key), reg: "ext:" + key}
	}
	nm := "g_" + strings.ReplaceAll(key, ".", "_")
	if _, ok := x.psorts[nm]; !ok {
		so := x.g.so.of(v.Type())
		x.psorts[nm] = so
		x.params = append(x.params, nm+": "+so)
		x.gfacts = append(x.gfacts, x.typeFacts(v.Type(), nm, x.entryEnv.st)...)
		if isErrorType(v.Type()) && isErrorsNew(gi.init) {
			x.gfacts = append(x.gfacts, nm+" != 0")
		}
		if _, isS := named2struct(v.Type()); gi.init != nil && x.g.so.isRef(v.Type()) && isS {
			if u, ok := gi.init.(*ast.UnaryExpr); ok && u.Op == token.AND {
				x.gfacts = append(x.gfacts, nm+" != 0")
			}
		}
		if cl, ok := x.g.sp.globalinv[key]; ok && x.noGlobalInv != key {
			x.calls["init:"+key] = true
			env := &Env{vars: map[string]SV{"self": {nm, v.Type()}}, st: x.entryEnv.st, at: map[string]*Env{}}
			env.old = env
			x.gfacts = append(x.gfacts, x.substClause(cl, env))
		}
	}
	r := V{t: nm}
	if hasRegion(v.Type()) {
		r.reg = "ext:" + key
	}
	return r
}

func named2struct(t types.Type) (*types.Struct, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		return s, ok
	}
	return nil, false
}

func isErrorsNew(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	return ok && id.Name == "errors" && s.Sel.Name == "New"
}

func (x *Ex) globalByName(n string, st *State) string {
	for v := range x.g.pr.globals {
		if globalKey(v) == n {
			return x.global(v, st).t
		}
	}
	panic(specErr{"unknown package variable " + n})
}

// ---- expressions ----

func (x *Ex) evalList(es []ast.Expr, st *State, k func(st *State, vs []V)) {
	var rec func(i int, st *State, acc []V)
	rec = func(i int, st *State, acc []V) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.eval(es[i], st, func(st *State, v V) { rec(i+1, st, append(acc[:len(acc):len(acc)], v)) })
	}
	rec(0, st, nil)
}

func (x *Ex) constV(tv types.TypeAndValue, t types.Type) (V, bool) {
	if tv.Value == nil {
		return V{}, false
	}
	switch tv.Value.Kind() {
	case constant.Bool:
		return V{t: fmt.Sprint(constant.BoolVal(tv.Value))}, true
	case constant.String:
		return V{t: x.g.lit(constant.StringVal(tv.Value))}, true
	case constant.Int:
		s := tv.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			return V{t: "(" + s + "int)"}, true
		}
		return V{t: s + "int"}, true
	case constant.Float:
		if i := constant.ToInt(tv.Value); i.Kind() == constant.Int {
			return V{t: i.ExactString() + "int"}, true
		}
		return V{t: x.fresh("int", "flt")}, true
	}
	return V{}, false
}

// simple: no calls with effects, so the expression can be evaluated under a guard.
func (x *Ex) simple(e ast.Expr, st *State) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, isId := n.Fun.(*ast.Ident); isId {
				if _, b := x.info(st).Uses[id].(*types.Builtin); b && (id.Name == "len") {
					return true
				}
			}
			if tv, has := x.info(st).Types[n.Fun]; has && tv.IsType() {
				return true
			}
			ok = false
		case *ast.FuncLit, *ast.TypeAssertExpr, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW || n.Op == token.AND {
				ok = false
			}
		case *ast.BinaryExpr:
			if n.Op == token.EQL || n.Op == token.NEQ {
				// comparing a plain slice with nil draws a fresh value: fine
			}
		}
		return ok
	})
	return ok
}

// evalCond evaluates a condition and continues in the branch taken.
func (x *Ex) evalCond(e ast.Expr, st *State, kt, kf func(st *State)) {
	switch y := e.(type) {
	case *ast.ParenExpr:
		x.evalCond(y.X, st, kt, kf)
		return
	case *ast.UnaryExpr:
		if y.Op == token.NOT {
			x.evalCond(y.X, st, kf, kt)
			return
		}
	case *ast.BinaryExpr:
		if (y.Op == token.LAND || y.Op == token.LOR) && x.info(st).Types[e].Value == nil {
			if x.simple(y.Y, st) && !x.catching(st) {
				break // guarded evaluation in eval
			}
			if y.Op == token.LAND {
				x.evalCond(y.X, st, func(st *State) { x.evalCond(y.Y, st, kt, kf) }, kf)
			} else {
				x.evalCond(y.X, st, kt, func(st *State) { x.evalCond(y.Y, st, kt, kf) })
			}
			return
		}
	}
	x.eval(e, st, func(st *State, v V) {
		c := x.let("bool", v.t)
		x.ite(c, func() { kt(st.clone()) }, func() { kf(st.clone()) })
	})
}

func (x *Ex) eval(e ast.Expr, st *State, k KV) {
	x.curNode = e
	x.deep++
	if x.deep > 200000 {
		x.unsup(e, "too many steps")
	}
	in := x.info(st)
	if tv, ok := in.Types[e]; ok && tv.Value != nil {
		if v, ok := x.constV(tv, tv.Type); ok {
			k(st, v)
			return
		}
	}
	t0 := in.TypeOf(e)
	if t0 == nil {
		t0 = types.Typ[types.Invalid]
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.eval(e.X, st, k)
	case *ast.Ident:
		if e.Name == "nil" {
			k(st, V{t: "nil"})
			return
		}
		if f, ok := in.Uses[e].(*types.Func); ok {
			if fi := x.taskFunc(f); fi != nil {
				x.taskLit(e, &ast.FuncLit{Type: fi.decl.Type, Body: fi.decl.Body}, fi, st, k)
				return
			}
			k(st, V{t: x.g.fnConst(funcKey(f))})
			return
		}
		x.evalLV(e, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, v V) { x.useCheck(st, v, e); k(st, x.pointsTo(lv, t0, v)) })
		})
	case *ast.SelectorExpr:
		if f, ok := in.Uses[e.Sel].(*types.Func); ok {
			if sel, ok := in.Selections[e]; ok && sel.Kind() == types.MethodVal {
				x.eval(e.X, st, func(st *State, r V) { k(st, V{t: x.fresh("int", "mval")}) })
				return
			}
			if fi := x.taskFunc(f); fi != nil {
				x.taskLit(e, &ast.FuncLit{Type: fi.decl.Type, Body: fi.decl.Body}, fi, st, k)
				return
			}
			k(st, V{t: x.g.fnConst(funcKey(f))})
			return
		}
		x.evalLV(e, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, v V) { x.useCheck(st, v, e); k(st, x.pointsTo(lv, t0, v)) })
		})
	case *ast.StarExpr:
		x.evalLV(e, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, v V) { k(st, x.pointsTo(lv, t0, v)) })
		})
	case *ast.IndexExpr:
		x.evalLV(e, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, v V) { k(st, x.pointsTo(lv, t0, v)) })
		})
	case *ast.SliceExpr:
		x.evalSlice(e, st, k)
	case *ast.UnaryExpr:
		x.evalUnary(e, st, k)
	case *ast.BinaryExpr:
		x.evalBinary(e, st, k)
	case *ast.CallExpr:
		x.evalCall(e, st, func(st *State, vs []V) {
			if len(vs) == 0 {
				k(st, V{t: "0int"})
				return
			}
			k(st, vs[0])
		})
	case *ast.CompositeLit:
		x.evalComposite(e, st, k)
	case *ast.FuncLit:
		if x.con != nil && x.con.tasks && x.g.locks == nil {
			x.taskLit(e, e, nil, st, k)
			return
		}
		id := x.fresh("int", "closure")
		if x.g.locks != nil {
			x.escapingLit(st, e, func(st *State) {
				x.assume(id+" > 0", func() { k(st, V{t: id, lit: e, lf: st.frame}) })
			})
			return
		}
		x.assume(id+" > 0", func() { k(st, V{t: id, lit: e, lf: st.frame}) })
	case *ast.TypeAssertExpr:
		x.evalTypeAssert(e, st, false, func(st *State, v, ok V) { k(st, v) })
	default:
		x.unsup(e, fmt.Sprintf("expression %T", e))
	}
}

// useCheck: bytes that were given away must not be touched any more.
func (x *Ex) useCheck(st *State, v V, n ast.Node) {
	if v.reg != "" && st.esc["consumed:"+v.reg] {
		x.assert("false", "ownership", "use of a buffer after it was given away", n)
	}
}

func (x *Ex) evalSlice(e *ast.SliceExpr, st *State, k KV) {
	t := x.typeOf(st, e.X)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	so := x.g.so.of(t)
	ev := func(o ast.Expr, st *State, k func(st *State, v *V)) {
		if o == nil {
			k(st, nil)
			return
		}
		x.eval(o, st, func(st *State, v V) { k(st, &v) })
	}
	x.eval(e.X, st, func(st *State, b V) {
		ev(e.Low, st, func(st *State, lo *V) {
			ev(e.High, st, func(st *State, hi *V) {
				ev(e.Max, st, func(st *State, mx *V) {
					sq := seqPart(so, b.t)
					l, h := "0int", "("+sq+".len() as int)"
					if lo != nil {
						l = lo.t
					}
					if hi != nil {
						h = hi.t
					}
					// slicing up to the capacity
					if hi != nil && b.cap != "" && (h == b.cap) {
						cond := fmt.Sprintf("0 <= %s <= %s", l, h)
						x.check(st, cond, "bounds", e, func(st *State) {
							nv := x.fresh(so, "xs")
							n := seqPart(so, nv)
							x.assume(fmt.Sprintf("%s.len() == %s - %s && (forall|q: int| 0 <= q < %s.len() - %s ==> #[trigger] %s[q] == %s[q + %s])", n, h, l, sq, l, n, sq, l), func() {
								k(st, V{t: nv, reg: b.reg, cap: x.capMinus(b.cap, l)})
							})
						})
						return
					}
					cond := fmt.Sprintf("0 <= %s <= %s <= %s.len()", l, h, sq)
					if lo == nil && hi == nil {
						cond = "true"
					} else if lo == nil {
						cond = fmt.Sprintf("0 <= %s <= %s.len()", h, sq)
					} else if hi == nil {
						cond = fmt.Sprintf("0 <= %s <= %s.len()", l, sq)
					}
					top := h
					if mx != nil {
						cond += fmt.Sprintf(" && %s <= %s <= %s.len()", h, mx.t, sq)
						top = mx.t
					}
					if _, isSl := t.Underlying().(*types.Slice); isSl && (hi != nil || mx != nil) && b.cap != "full" && x.catching(st) && len(x.guard) == 0 {
						// where a failing bound is a panic: between the length and the capacity it is none
						room := x.g.maxLen(t)
						if b.cap != "" {
							room = b.cap
						}
						s2 := st.clone()
						x.assume(fmt.Sprintf("0 <= %s <= %s <= %s && %s.len() < %s <= %s", l, h, top, sq, top, room), func() {
							nv := x.fresh(so, "xs")
							n := seqPart(so, nv)
							x.assume(fmt.Sprintf("%s.len() == %s - %s && (forall|q: int| 0 <= q < %s.len() && q + %s < %s.len() ==> #[trigger] %s[q] == %s[q + %s])", n, h, l, n, l, sq, n, sq, l), func() {
								k(s2, V{t: nv, reg: b.reg})
							})
						})
					}
					x.check(st, cond, "bounds", e, func(st *State) {
						cp := ""
						if b.cap != "" {
							cp = x.capMinus(b.cap, l)
						}
						reg := b.reg
						if _, isArr := t.Underlying().(*types.Array); isArr && reg == "" {
							x.n++
							reg = fmt.Sprintf("fresh#%d", x.n)
							if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
								x.arrReg[reg] = true
								x.addEsc(st, "sliced:"+id.Name)
							}
						}
						r := V{reg: reg, cap: cp}
						if mx != nil {
							r.cap = x.let("int", fmt.Sprintf("%s - %s", mx.t, l))
							if mx.t == h {
								r.cap = "full"
							}
						}
						if lo == nil && hi == nil {
							r.t = b.t
						} else if so == "List" {
							r.t = x.let(so, fmt.Sprintf("List { nil: false, s: %s.subrange(%s, %s) }", sq, l, h))
						} else {
							r.t = x.let(so, fmt.Sprintf("%s.subrange(%s, %s)", sq, l, h))
						}
						k(st, r)
					})
				})
			})
		})
	})
}

func (x *Ex) capMinus(c, l string) string {
	if l == "0int" || c == "full" {
		return c
	}
	return x.let("int", fmt.Sprintf("%s - %s", c, l))
}

// arith applies a Go integer operator with its wrap-around or overflow obligation.
func (x *Ex) arith(st *State, op token.Token, a, b string, t types.Type, n ast.Node, k KV) {
	lo, hi, signed, bitsN, ok := intRange(t)
	if !ok {
		// floats and others: unknown
		k(st, V{t: x.fresh("int", "flt")})
		return
	}
	fin := func(st *State, expr string, canOver bool) {
		if signed {
			if canOver && !(x.con != nil && x.con.mathint && (bitsN == 64 || x.g.locks != nil)) {
				v := x.let("int", expr)
				x.assert(fmt.Sprintf("%s <= %s <= %s", lo, v, hi), "overflow", "overflow", n)
				k(st, V{t: v})
				return
			}
			if canOver && x.g.locks == nil {
				x.g.use("signed 64-bit counters and sizes in " + x.con.key + " are treated as mathematical integers: they do not overflow")
			}
			k(st, V{t: x.let("int", expr)})
			return
		}
		if canOver {
			k(st, V{t: x.let("int", fmt.Sprintf("(%s) %% %s", expr, pow2(bitsN)))})
			return
		}
		k(st, V{t: x.let("int", expr)})
	}
	switch op {
	case token.ADD:
		fin(st, fmt.Sprintf("(%s + %s)", a, b), true)
	case token.SUB:
		fin(st, fmt.Sprintf("(%s - %s)", a, b), true)
	case token.MUL:
		fin(st, fmt.Sprintf("(%s * %s)", a, b), true)
	case token.QUO:
		x.check(st, b+" != 0", "divzero", n, func(st *State) {
			if isPosLit(b) && !signed {
				fin(st, fmt.Sprintf("(%s / %s)", a, b), false)
			} else {
				fin(st, fmt.Sprintf("go_div(%s, %s)", a, b), signed && !isPosLit(b))
			}
		})
	case token.REM:
		x.check(st, b+" != 0", "divzero", n, func(st *State) {
			if isPosLit(b) && !signed {
				fin(st, fmt.Sprintf("(%s %% %s)", a, b), false)
			} else {
				fin(st, fmt.Sprintf("go_rem(%s, %s)", a, b), false)
			}
		})
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		nm := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op]
		s := "u"
		if signed {
			s = "i"
		}
		if c, err := strconv.Atoi(strings.TrimSuffix(b, "int")); err == nil && c > 0 && strings.HasSuffix(b, "int") {
			// by a constant: arithmetic the solver knows
			p := func(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() + "int" }
			f := ""
			switch {
			case op == token.SHR && c < 63 && c < bitsN:
				f = fmt.Sprintf("(%s / %s)", a, p(c))
			case op == token.SHL && c < 63 && c < bitsN && !signed:
				f = fmt.Sprintf("((%s * %s) %% %s)", a, p(c), p(bitsN))
			case op == token.SHL && c < 63 && c < bitsN:
				f = fmt.Sprintf("go_wrap_i%d(%s * %s)", bitsN, a, p(c))
			case op == token.AND && c&(c+1) == 0:
				f = fmt.Sprintf("(%s %% %dint)", a, c+1)
			}
			if f != "" {
				k(st, V{t: x.let("int", f)})
				return
			}
		}
		if op == token.SHL || op == token.SHR {
			x.check(st, b+" >= 0", "shift", n, func(st *State) {
				k(st, V{t: x.let("int", fmt.Sprintf("go_%s_%s%d(%s, %s)", nm, s, bitsN, a, b))})
			})
			return
		}
		k(st, V{t: x.let("int", fmt.Sprintf("go_%s_%s%d(%s, %s)", nm, s, bitsN, a, b))})
	default:
		x.unsup(n, "operator "+op.String())
	}
}

func pow2(n int) string {
	switch n {
	case 8:
		return "0x100int"
	case 16:
		return "0x1_0000int"
	case 32:
		return "0x1_0000_0000int"
	}
	return "0x1_0000_0000_0000_0000int"
}

func isPosLit(s string) bool {
	s = strings.TrimSuffix(s, "int")
	if s == "" || s == "0" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func (x *Ex) evalUnary(e *ast.UnaryExpr, st *State, k KV) {
	switch e.Op {
	case token.NOT:
		x.eval(e.X, st, func(st *State, v V) { k(st, V{t: "(!" + paren(v.t) + ")"}) })
	case token.SUB:
		t := x.typeOf(st, e)
		x.eval(e.X, st, func(st *State, v V) { x.arith(st, token.SUB, "0int", v.t, t, e, k) })
	case token.ADD:
		x.eval(e.X, st, k)
	case token.XOR:
		t := x.typeOf(st, e)
		_, hi, signed, _, ok := intRange(t)
		if !ok {
			x.unsup(e, "^")
		}
		x.eval(e.X, st, func(st *State, v V) {
			if signed {
				k(st, V{t: x.let("int", "(-"+paren(v.t)+" - 1)")})
			} else {
				k(st, V{t: x.let("int", "("+hi+" - "+paren(v.t)+")")})
			}
		})
	case token.AND:
		x.evalAddr(e, st, k)
	case token.ARROW:
		x.evalRecv(e, st, func(st *State, v, ok V) { k(st, v) })
	default:
		x.unsup(e, "unary "+e.Op.String())
	}
}

// alloc makes a new object of struct d with the given contents.
func (x *Ex) alloc(st *State, d *StructSort, val string, k KV) {
	r := x.fresh("int", "new_"+d.short)
	h := x.heapOf(st, "H:"+d.short)
	x.assume(fmt.Sprintf("%s != 0 && !%s.dom().contains(%s)", r, h, r), func() {
		x.setHeap(st, "H:"+d.short, fmt.Sprintf("%s.insert(%s, %s)", h, r, val))
		st.freshR[r] = true
		st.nonnil[r] = true
		if len(d.locks) > 0 {
			var fs []string
			for _, l := range d.locks {
				fs = append(fs, fmt.Sprintf("%s[%s] == 0", x.heapOf(st, lockKey(d, l)), r))
			}
			x.assumeAll(fs, func() { k(st, V{t: r}) })
			return
		}
		k(st, V{t: r})
	})
}

func (x *Ex) evalAddr(e *ast.UnaryExpr, st *State, k KV) {
	t := x.typeOf(st, e)
	inner := ast.Unparen(e.X)
	if cl, ok := inner.(*ast.CompositeLit); ok {
		if d := x.g.so.refStruct(t); d != nil {
			x.evalStructLit(cl, st, d, func(st *State, v V, metas map[string]V) {
				x.alloc(st, d, v.t, func(st *State, r V) {
					for f, m := range metas {
						st.meta[r.t+"|"+f] = m
					}
					k(st, r)
				})
			})
			return
		}
		if isWaitGroup(x.typeOf(st, cl)) && len(cl.Elts) == 0 {
			wg := x.fresh("int", "wg")
			x.assume(wg+" != 0", func() { k(st, V{t: wg}) })
			return
		}
		x.eval(cl, st, k)
		return
	}
	x.evalLV(inner, st, func(st *State, lv *LV) {
		if isWaitGroup(x.typeOf(st, inner)) {
			// a wait group is known by its identity
			if lv.kind == "field" {
				k(st, V{t: x.wgAddr(lv.d, lv.f.goN, lv.ref)})
				return
			}
			x.loadLV(lv, st, e, k)
			return
		}
		switch lv.kind {
		case "boxvar":
			k(st, V{t: lv.ref})
		case "deref":
			k(st, V{t: lv.ref})
		default:
			if !x.g.so.isRef(t) {
				x.loadLV(lv, st, e, func(st *State, v V) { k(st, x.pointsTo(lv, t, v)) })
				return
			}
			if d := x.g.so.refStruct(t); d != nil && len(d.fields) > 0 {
				if n := named(t.Underlying().(*types.Pointer).Elem()); n != nil && x.g.pr.pkgs[pkgPath(n)] != nil {
					x.unsup(e, "address of a part of an object")
				}
			}
			if lv.kind == "field" || lv.kind == "global" {
				// address of an embedded struct: opaque reference
				k(st, V{t: x.fresh("int", "addr")})
				return
			}
			x.unsup(e, "address of a variable that is not boxed")
		}
	})
}

func (x *Ex) evalComposite(e *ast.CompositeLit, st *State, k KV) {
	t := x.typeOf(st, e)
	so := x.g.so.of(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := named(t)
		if n == nil || so == "int" || so == seqU8 || so == "Val" {
			if so == seqU8 {
				k(st, V{t: "Seq::<u8>::empty()"})
				return
			}
			if so == "Val" {
				k(st, V{t: "Val::Nil"})
				return
			}
			k(st, V{t: x.fresh(so, "opq")})
			return
		}
		x.evalStructLit(e, st, x.g.so.structSort(n), func(st *State, v V, m map[string]V) { k(st, v) })
	case *types.Map:
		x.litMap(e, u, t, st, k)
	case *types.Slice, *types.Array:
		x.litSeq(e, t, st, k)
	case *types.Pointer:
		x.unsup(e, "elided pointer literal")
	default:
		x.unsup(e, "composite literal")
	}
}

func (x *Ex) evalStructLit(e *ast.CompositeLit, st *State, d *StructSort, k func(st *State, v V, metas map[string]V)) {
	vals := map[string]string{}
	metas := map[string]V{}
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(e.Elts) {
			var b strings.Builder
			b.WriteString(d.name + " { ")
			for _, f := range d.fields {
				v, ok := vals[f.goN]
				if !ok {
					v = x.g.so.zero(f.typ)
				}
				fmt.Fprintf(&b, "%s: %s, ", f.name, v)
			}
			b.WriteString("dummy_: 0int }")
			k(st, V{t: x.let(d.name, b.String())}, metas)
			return
		}
		el := e.Elts[i]
		var fn string
		var ft types.Type
		var ve ast.Expr
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			fn = kv.Key.(*ast.Ident).Name
			ve = kv.Value
		} else {
			fn = d.st.Field(i).Name()
			ve = el
		}
		for j := 0; j < d.st.NumFields(); j++ {
			if d.st.Field(j).Name() == fn {
				ft = d.st.Field(j).Type()
			}
		}
		if isMutex(ft) {
			rec(i+1, st)
			return
		}
		x.evalElem(ve, ft, st, func(st *State, v V) {
			if st.esc["consumed:"+v.reg] && v.reg != "" {
				x.assert("false", "ownership", "use of a buffer after it was given away", ve)
			}
			x.kept(v, ft, ve)
			vals[fn] = v.t
			if hasRegion(ft) {
				metas[fn] = V{reg: v.reg, cap: v.cap}
			}
			rec(i+1, st)
		})
	}
	rec(0, st)
}

// evalElem evaluates an element expression of a literal, allowing elided types, converted to type t.
func (x *Ex) evalElem(e ast.Expr, t types.Type, st *State, k KV) {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			d := x.g.so.refStruct(t)
			if d == nil {
				x.unsup(e, "elided literal")
			}
			_ = p
			x.evalStructLit(cl, st, d, func(st *State, v V, m map[string]V) { x.alloc(st, d, v.t, k) })
			return
		}
	}
	x.evalTo(e, t, st, k)
}

// evalTo evaluates e and converts it (assignability) to type t.
func (x *Ex) evalTo(e ast.Expr, t types.Type, st *State, k KV) {
	x.eval(e, st, func(st *State, v V) { x.convertTo(st, e, v, t, k) })
}

func (x *Ex) convertTo(st *State, e ast.Expr, v V, t types.Type, k KV) {
	from := x.info(st).TypeOf(e)
	x.assignConv(st, v, from, t, e, k)
}

func (x *Ex) assignConv(st *State, v V, from, to types.Type, n ast.Node, k KV) {
	if v.t == "nil" {
		k(st, V{t: x.g.so.zero(to)})
		return
	}
	if from == nil || to == nil {
		k(st, v)
		return
	}
	fs, ts := x.g.so.of(from), x.g.so.of(to)
	_, fi := from.Underlying().(*types.Interface)
	_, ti := to.Underlying().(*types.Interface)
	if ti && !fi {
		k(st, x.toIface(st, v, from, to, n))
		return
	}
	if ti && fi && !types.Identical(from, to) {
		switch {
		case ts == "Val" && fs == "Val":
			k(st, v)
		case ts == "Val":
			k(st, V{t: x.ifaceToVal(v.t, from)})
		case fs == "int" && ts == "int" && x.g.so.refStruct(from) == nil && x.g.so.refStruct(to) == nil:
			k(st, v)
		default:
			k(st, V{t: x.fresh(ts, "ifc")})
		}
		return
	}
	if fs != ts {
		x.unsup(n, fmt.Sprintf("conversion %s (%s) to %s (%s)", from, fs, to, ts))
	}
	k(st, v)
}

// toIface converts a concrete value to an interface type.
func (x *Ex) toIface(st *State, v V, from, to types.Type, n ast.Node) V {
	if isEmptyIface(to) {
		if v.reg != "" && hasRegion(from) {
			x.escape(st, v, "", n)
		}
		return V{t: x.toVal(v.t, from)}
	}
	if isErrorType(to) {
		return V{t: fmt.Sprintf("err_of_ref(%s, %s)", x.g.tag(from), firstInt(x.g.so.of(from), v.t))}
	}
	if x.g.so.refStruct(to) != nil && x.g.so.isRef(from) {
		return v
	}
	if x.g.so.isRef(from) {
		return V{t: fmt.Sprintf("err_of_ref(%s, %s)", x.g.tag(from), v.t)}
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return V{t: fmt.Sprintf("err_of_ref(%s, %s)", x.g.tag(from), v.t)}
	}
	r := x.fresh("int", "ifc")
	return V{t: r}
}

func firstInt(so, t string) string {
	if so == "int" {
		return t
	}
	return "0int"
}

func (x *Ex) ifaceToVal(t string, from types.Type) string {
	if isErrorType(from) {
		return fmt.Sprintf("(if %s == 0 { Val::Nil } else { Val::Err(%s) })", t, t)
	}
	if n := named(from); n != nil {
		if c := x.g.pr.impls[n.Obj()]; c != nil {
			return fmt.Sprintf("(if %s == 0 { Val::Nil } else { Val::Ref(%s, %s) })", t, x.g.tag(types.NewPointer(c)), t)
		}
	}
	return fmt.Sprintf("Val::Other(%s)", t)
}

func (x *Ex) toVal(t string, from types.Type) string {
	if t == "nil" {
		return "Val::Nil"
	}
	from = types.Unalias(from)
	if n := named(from); n != nil {
		switch qname(n) {
		case "misc.List":
			return "Val::List(" + t + ")"
		case "misc.Dict":
			return "Val::Dict(" + t + ")"
		}
	}
	switch u := from.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.UntypedInt, types.UntypedRune:
			return "Val::Int(" + t + ")"
		case types.String, types.UntypedString:
			return "Val::Str(" + t + ")"
		case types.Bool, types.UntypedBool:
			return "Val::Bool(" + t + ")"
		}
		if u.Info()&types.IsInteger != 0 {
			return fmt.Sprintf("Val::NInt(%s, %s)", x.g.tag(from), t)
		}
	case *types.Named:
		switch b := u.Underlying().(type) {
		case *types.Basic:
			if b.Info()&types.IsInteger != 0 {
				return fmt.Sprintf("Val::NInt(%s, %s)", x.g.tag(from), t)
			}
			if b.Info()&types.IsString != 0 {
				return fmt.Sprintf("Val::NStr(%s, %s)", x.g.tag(from), t)
			}
		case *types.Signature:
			return fmt.Sprintf("Val::Fn(%s, %s)", x.g.tag(from), t)
		}
	case *types.Pointer:
		if x.g.so.isRef(from) {
			return fmt.Sprintf("Val::Ref(%s, %s)", x.g.tag(from), t)
		}
	case *types.Signature:
		return fmt.Sprintf("Val::Fn(%s, %s)", x.g.tag(from), t)
	}
	if x.g.so.of(from) == "int" {
		return fmt.Sprintf("Val::Ref(%s, %s)", x.g.tag(from), t)
	}
	return "Val::Other(" + x.fresh("int", "oth") + ")"
}

// evalTypeAssert gives the value and the success flag of v.(T).
func (x *Ex) evalTypeAssert(e *ast.TypeAssertExpr, st *State, commaOk bool, k func(st *State, v, ok V)) {
	from := x.typeOf(st, e.X)
	to := x.typeOf(st, e.Type)
	x.eval(e.X, st, func(st *State, v V) {
		cond, val := x.typeTest(st, v.t, from, to)
		fin := func(st *State) {
			if commaOk {
				c := x.let("bool", cond)
				vt := x.let(x.g.so.of(to), fmt.Sprintf("(if %s { %s } else { %s })", c, val, x.g.so.zero(to)))
				x.withFacts(st, to, vt, func(st *State) { k(st, V{t: vt}, V{t: c}) })
				return
			}
			vt := x.let(x.g.so.of(to), val)
			x.withFacts(st, to, vt, func(st *State) { k(st, V{t: vt}, V{t: "true"}) })
		}
		if commaOk {
			fin(st)
			return
		}
		x.check(st, cond, "typeassert", e, fin)
	})
}

// typeTest: condition and extracted value for "dynamic type of v is T".
func (x *Ex) typeTest(st *State, v string, from, to types.Type) (string, string) {
	so := x.g.so.of(to)
	if x.g.so.of(from) != "Val" {
		if isErrorType(from) && x.g.so.isRef(to) {
			return fmt.Sprintf("is_err_of(%s, %s)", v, x.g.tag(to)), fmt.Sprintf("err_ref(%s)", v)
		}
		if n := named(to); isErrorType(from) && n != nil && !types.IsInterface(n) && x.g.pr.external(n) {
			return fmt.Sprintf("is_err_of(%s, %s)", v, x.g.tag(to)), x.fresh(so, "dynv")
		}
		if x.g.so.refStruct(from) != nil && x.g.so.refStruct(to) == x.g.so.refStruct(from) {
			return v + " != 0", v
		}
		c := x.fresh("bool", "dyn")
		return c, x.fresh(so, "dynv")
	}
	to = types.Unalias(to)
	if n := named(to); n != nil {
		switch qname(n) {
		case "misc.List":
			return v + " is List", v + "->List_0"
		case "misc.Dict":
			return v + " is Dict", v + "->Dict_0"
		}
		if isErrorType(to) {
			c := v + " is Err"
			val := v + "->Err_0"
			for _, t := range x.errorTypes() {
				c = fmt.Sprintf("(%s || (%s is Ref && %s->Ref_0 == %s))", c, v, v, x.g.tag(t))
				val = fmt.Sprintf("(if %s is Ref { err_of_ref(%s->Ref_0, %s->Ref_1) } else { %s })", v, v, v, val)
			}
			return c, val
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			if c := x.g.pr.impls[n.Obj()]; c != nil {
				tg := x.g.tag(types.NewPointer(c))
				return fmt.Sprintf("(%s is Ref && %s->Ref_0 == %s)", v, v, tg), v + "->Ref_1"
			}
			if so == "int" && x.g.pr.external(n) {
				return fmt.Sprintf("dyn_is(%s, %s)", v, x.g.tag(to)), fmt.Sprintf("dyn_as(%s, %s)", v, x.g.tag(to))
			}
			return x.fresh("bool", "dyn"), x.fresh(so, "dynv")
		}
	}
	switch u := to.Underlying().(type) {
	case *types.Basic:
		tg := ""
		if named(to) != nil || !(u.Kind() == types.Int || u.Kind() == types.String || u.Kind() == types.Bool) {
			tg = x.g.tag(to)
		}
		switch {
		case u.Info()&types.IsInteger != 0 && tg == "":
			return v + " is Int", v + "->Int_0"
		case u.Info()&types.IsInteger != 0:
			return fmt.Sprintf("(%s is NInt && %s->NInt_0 == %s)", v, v, tg), v + "->NInt_1"
		case u.Info()&types.IsString != 0 && tg == "":
			return v + " is Str", v + "->Str_0"
		case u.Info()&types.IsString != 0:
			return fmt.Sprintf("(%s is NStr && %s->NStr_0 == %s)", v, v, tg), v + "->NStr_1"
		case u.Info()&types.IsBoolean != 0:
			return v + " is Bool", v + "->Bool_0"
		}
	case *types.Pointer:
		if x.g.so.isRef(to) {
			return fmt.Sprintf("(%s is Ref && %s->Ref_0 == %s)", v, v, x.g.tag(to)), v + "->Ref_1"
		}
	case *types.Signature:
		return fmt.Sprintf("(%s is Fn && %s->Fn_0 == %s)", v, v, x.g.tag(to)), v + "->Fn_1"
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "!(" + v + " is Nil)", v
		}
	case *types.Chan:
		return fmt.Sprintf("(%s is Ref && %s->Ref_0 == %s)", v, v, x.g.tag(to)), v + "->Ref_1"
	}
	// other types (slices of bytes, structs ...): unknown dynamic type
	c := x.fresh("bool", "dyn")
	return fmt.Sprintf("(%s is Other && %s)", v, c), x.fresh(so, "dynv")
}

func (x *Ex) errorTypes() []types.Type {
	var r []types.Type
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for _, path := range sortedKeys(x.g.pr.pkgs) {
		sc := x.g.pr.pkgs[path].tpkg.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				p := types.NewPointer(tn.Type())
				if types.Implements(p, errT) {
					r = append(r, p)
				}
			}
		}
	}
	return r
}

func (x *Ex) litMap(e *ast.CompositeLit, u *types.Map, t types.Type, st *State, k KV) {
	so := x.g.so.of(t)
	ks, es := x.g.so.of(u.Key()), x.g.so.of(u.Elem())
	m := fmt.Sprintf("Map::<%s, %s>::empty()", ks, es)
	var rec func(i int, st *State, m string)
	rec = func(i int, st *State, m string) {
		if i == len(e.Elts) {
			x.n++
			r := V{t: x.let(so, fmt.Sprintf("%s { nil: false, m: %s }", turbofish(so), m)), reg: fmt.Sprintf("fresh#%d", x.n)}
			k(st, r)
			return
		}
		kv := e.Elts[i].(*ast.KeyValueExpr)
		x.evalElem(kv.Key, u.Key(), st, func(st *State, kk V) {
			x.evalElem(kv.Value, u.Elem(), st, func(st *State, vv V) {
				rec(i+1, st, fmt.Sprintf("%s.insert(%s, %s)", m, kk.t, vv.t))
			})
		})
	}
	rec(0, st, m)
}

func (x *Ex) litSeq(e *ast.CompositeLit, t types.Type, st *State, k KV) {
	so := x.g.so.of(t)
	et := elemType(t)
	var els []string
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(e.Elts) {
			x.n++
			reg := fmt.Sprintf("fresh#%d", x.n)
			var s string
			es := x.g.so.of(et)
			if so == seqU8 {
				es = "u8"
			}
			if len(els) == 0 {
				s = fmt.Sprintf("Seq::<%s>::empty()", es)
			} else {
				s = fmt.Sprintf("seq![%s]", strings.Join(els, ", "))
			}
			if a, ok := t.Underlying().(*types.Array); ok && int(a.Len()) > len(els) {
				s = fmt.Sprintf("(%s + Seq::new(%d, |q: int| %s))", s, int(a.Len())-len(els), x.g.so.zeroElem(et))
			}
			if so == "List" {
				s = fmt.Sprintf("List { nil: false, s: %s }", s)
			}
			k(st, V{t: x.let(so, s), reg: reg, cap: fmt.Sprintf("%dint", len(els))})
			return
		}
		el := e.Elts[i]
		if _, ok := el.(*ast.KeyValueExpr); ok {
			x.unsup(e, "keyed slice literal")
		}
		x.evalElem(el, et, st, func(st *State, v V) {
			tt := v.t
			if so == seqU8 {
				tt = fmt.Sprintf("(%s as u8)", paren(v.t))
			}
			els = append(els[:i:i], tt)
			rec(i+1, st)
		})
	}
	rec(0, st)
}

// evalBinary
func (x *Ex) evalBinary(e *ast.BinaryExpr, st *State, k KV) {
	if e.Op == token.LAND || e.Op == token.LOR {
		x.eval(e.X, st, func(st *State, a V) {
			if x.simple(e.Y, st) && (!x.catching(st) || len(x.guard) > 0) {
				c := x.let("bool", a.t)
				g := c
				if e.Op == token.LOR {
					g = "!" + paren(c)
				}
				x.guard = append(x.guard, g)
				n := len(x.guard)
				x.eval(e.Y, st, func(st *State, b V) {
					if len(x.guard) != n {
						x.unsup(e, "guard nesting")
					}
					x.guard = x.guard[:n-1]
					op := "&&"
					if e.Op == token.LOR {
						op = "||"
					}
					k(st, V{t: x.let("bool", fmt.Sprintf("(%s %s %s)", c, op, b.t))})
				})
				return
			}
			c := x.let("bool", a.t)
			if e.Op == token.LAND {
				x.ite(c, func() { x.eval(e.Y, st.clone(), k) }, func() { k(st.clone(), V{t: "false"}) })
			} else {
				x.ite(c, func() { k(st.clone(), V{t: "true"}) }, func() { x.eval(e.Y, st.clone(), k) })
			}
		})
		return
	}
	tx, ty := x.typeOf(st, e.X), x.typeOf(st, e.Y)
	x.eval(e.X, st, func(st *State, a V) {
		x.eval(e.Y, st, func(st *State, b V) {
			x.binop(e.Op, st, a, b, tx, ty, x.info(st).TypeOf(e), e, k)
		})
	})
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Ex) binop(op token.Token, st *State, a, b V, tx, ty, tr types.Type, n ast.Node, k KV) {
	switch op {
	case token.EQL, token.NEQ:
		x.equal(st, a, b, tx, ty, n, func(st *State, c string) {
			if op == token.NEQ {
				c = "(!" + paren(c) + ")"
			}
			k(st, V{t: c})
		})
		return
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.g.so.of(tx) == seqU8 {
			f := map[token.Token]string{token.LSS: "str_lt(%s, %s)", token.LEQ: "!str_lt(%[2]s, %[1]s)", token.GTR: "str_lt(%[2]s, %[1]s)", token.GEQ: "!str_lt(%s, %s)"}[op]
			k(st, V{t: "(" + fmt.Sprintf(f, a.t, b.t) + ")"})
			return
		}
		if isFloat(tx) || isFloat(ty) {
			k(st, V{t: x.fresh("bool", "fcmp")})
			return
		}
		k(st, V{t: fmt.Sprintf("(%s %s %s)", a.t, op.String(), b.t)})
		return
	}
	if x.g.so.of(tr) == seqU8 && op == token.ADD {
		x.concat(st, a.t, b.t, k)
		return
	}
	t := tr
	if op == token.SHL || op == token.SHR {
		t = tx
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		t = types.Typ[types.Int]
	}
	x.arith(st, op, a.t, b.t, t, n, k)
}

func (x *Ex) concat(st *State, a, b string, k KV) {
	if a == "Seq::<u8>::empty()" {
		k(st, V{t: b})
		return
	}
	if b == "Seq::<u8>::empty()" {
		k(st, V{t: a})
		return
	}
	t := x.cat(a, b)
	if len(x.guard) > 0 {
		k(st, V{t: t})
		return
	}
	x.assume(t+".len() <= MAXLEN()", func() { k(st, V{t: t}) })
}

// cat is one text after the other; single bytes written one by one at the end are kept together.
func (x *Ex) cat(a, b string) string {
	if !strings.HasPrefix(b, "seq![") || x.noLet > 0 {
		return x.let(seqU8, fmt.Sprintf("(%s + %s)", a, b))
	}
	base, els := a, b[5:len(b)-1]
	if t, ok := x.tails[a]; ok {
		base, els = t[0], t[1]+", "+els
	}
	v := x.let(seqU8, fmt.Sprintf("(%s + seq![%s])", base, els))
	if x.tails == nil {
		x.tails = map[string][2]string{}
	}
	x.tails[v] = [2]string{base, els}
	return v
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Ex) equal(st *State, a, b V, tx, ty types.Type, n ast.Node, k func(st *State, c string)) {
	if a.t == "nil" && b.t == "nil" {
		k(st, "true")
		return
	}
	if a.t == "nil" {
		a, b, tx, ty = b, a, ty, tx
	}
	if b.t == "nil" {
		so := x.g.so.of(tx)
		switch {
		case so == "Val":
			k(st, "("+a.t+" is Nil)")
		case so == "List" || so == "Dict" || strings.HasPrefix(so, "GoMap<"):
			k(st, paren(a.t)+".nil")
		case strings.HasPrefix(so, "Seq<"):
			if _, isP := tx.Underlying().(*types.Pointer); isP {
				k(st, "false")
				return
			}
			c := x.fresh("bool", "isnil")
			if len(x.guard) > 0 {
				k(st, fmt.Sprintf("(%s && %s.len() == 0)", c, a.t))
				return
			}
			x.assume(fmt.Sprintf("%s ==> %s.len() == 0", c, a.t), func() { k(st, c) })
		case so == "int":
			k(st, "("+a.t+" == 0)")
		default:
			k(st, "false")
		}
		return
	}
	sx, sy := x.g.so.of(tx), x.g.so.of(ty)
	if sx == "Val" && sy != "Val" {
		if _, isI := ty.Underlying().(*types.Interface); isI {
			b = V{t: x.ifaceToVal(b.t, ty)}
		} else {
			b = V{t: x.toVal(b.t, ty)}
		}
		sy = "Val"
	} else if sy == "Val" && sx != "Val" {
		if _, isI := tx.Underlying().(*types.Interface); isI {
			a = V{t: x.ifaceToVal(a.t, tx)}
		} else {
			a = V{t: x.toVal(a.t, tx)}
		}
		sx = "Val"
	}
	if sx == "Val" {
		// comparing interfaces holding slices or maps panics
		x.check(st, fmt.Sprintf("!(%s is List && %s is List || %s is Dict && %s is Dict)", a.t, b.t, a.t, b.t), "uncomparable", n, func(st *State) { k(st, fmt.Sprintf("(%s == %s)", a.t, b.t)) })
		return
	}
	if isFloat(tx) {
		k(st, x.fresh("bool", "fcmp"))
		return
	}
	if sx == seqU8 {
		k(st, fmt.Sprintf("(%s =~= %s)", a.t, b.t))
		return
	}
	k(st, fmt.Sprintf("(%s == %s)", a.t, b.t))
}
