package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

type KVs func(st *State, vs []V)

type callee struct {
	call     *ast.CallExpr
	kind     string // builtin, conv, func, lit, funcval, lock, buf, atomic
	name     string
	fn       *types.Func
	sig      *types.Signature
	args     []V
	argE     []ast.Expr
	argT     []types.Type
	lv       *LV
	lit      *ast.FuncLit
	lf       *Frame
	taskOf   *FuncInfo // the literal is this function's body
	fv       V
	fvT      types.Type
	isDefer  bool
	onPanic  func(st *State, v string)
	ellipsis bool
}

func (x *Ex) evalCall(e *ast.CallExpr, st *State, k KVs) {
	if len(x.guard) > 0 {
		if id, ok := ast.Unparen(e.Fun).(*ast.Ident); !ok || id.Name != "len" {
			if tv, has := x.info(st).Types[e.Fun]; !has || !tv.IsType() {
				x.unsup(e, "call in a guarded expression")
			}
		}
	}
	if x.unsafeCast(e, st, k) {
		return
	}
	x.prepareCall(e, st, func(st *State, c *callee) { x.doCall(c, st, k) })
}

// unsafeCast reads the header of a string or of a slice as another type: (*T)(unsafe.Pointer(&v)). The header of a string
// is its address and its length, that of a slice also has its capacity; what is read through an address that did not
// come from a header, or beyond what that header covers, is an obligation.
func (x *Ex) unsafeCast(e *ast.CallExpr, st *State, k KVs) bool {
	in := x.info(st)
	tv, ok := in.Types[e.Fun]
	if !ok || !tv.IsType() || len(e.Args) != 1 {
		return false
	}
	pt, ok := tv.Type.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	isUnsafe := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	if !isUnsafe(x.typeOf(st, e.Args[0])) {
		return false
	}
	c, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr)
	if ok {
		tv2, isT := in.Types[c.Fun]
		ok = isT && tv2.IsType() && len(c.Args) == 1
	}
	var u *ast.UnaryExpr
	if ok {
		u, ok = ast.Unparen(c.Args[0]).(*ast.UnaryExpr)
	}
	if !ok || u.Op != token.AND {
		x.unsup(e, "unsafe pointer that is not the address of a variable")
	}
	kind := func(t types.Type) (string, int64) {
		switch t := t.Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.String {
				return "string", 2
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return "bytes", 3
			}
		case *types.Array:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				return "words", t.Len()
			}
		}
		return "", 0
	}
	ft := x.typeOf(st, u.X)
	fk, fn := kind(ft)
	tk, tn := kind(pt.Elem())
	if fk == "" || tk == "" || tn > fn {
		x.unsup(e, "unsafe cast")
	}
	x.eval(u.X, st, func(st *State, v V) {
		done := func(st *State, v V) {
			v.alias = &LV{kind: "ro", idx: v, typ: tv.Type}
			k(st, []V{v})
		}
		t := paren(v.t)
		switch {
		case fk == "string" && tk == "words" && tn == 2:
			x.assumeAll([]string{fmt.Sprintf("0 <= str_at(%s) <= U64MAX()", t), fmt.Sprintf("mem_at(str_at(%s), %s.len() as int) == %s", t, t, t), fmt.Sprintf("mem_ok(str_at(%s), %s.len() as int)", t, t)}, func() {
				done(st, V{t: x.let("Seq<int>", fmt.Sprintf("seq![str_at(%s), %s.len() as int]", t, t))})
			})
		case fk == "words" && tk == "bytes":
			x.assert(fmt.Sprintf("0 <= %s[1] <= %s[2] && mem_ok(%s[0], %s[2])", t, t, t, t), "unsafe-cast", "the slice covers memory that is there", e)
			done(st, V{t: x.let("Seq<u8>", fmt.Sprintf("mem_at(%s[0], %s[1])", t, t)), reg: "ext:the bytes of a string"})
		case fk == "words" && tk == "string":
			x.assert(fmt.Sprintf("0 <= %s[1] && mem_ok(%s[0], %s[1])", t, t, t), "unsafe-cast", "the string covers memory that is there", e)
			done(st, V{t: x.let("Seq<u8>", fmt.Sprintf("mem_at(%s[0], %s[1])", t, t))})
		case fk == tk && fn == tn:
			done(st, v)
		case fk == "bytes" && tk == "string":
			done(st, V{t: v.t})
		default:
			x.unsup(e, "unsafe cast")
		}
		x.g.use("layout of the Go implementation: the header of a string is its address and length, that of a slice also its capacity")
	})
	return true
}

func (x *Ex) prepareCall(e *ast.CallExpr, st *State, k func(st *State, c *callee)) {
	in := x.info(st)
	c := &callee{call: e, ellipsis: e.Ellipsis.IsValid()}
	fun := ast.Unparen(e.Fun)
	if tv, ok := in.Types[fun]; ok && tv.IsType() {
		c.kind = "conv"
		c.fvT = tv.Type
		x.eval(e.Args[0], st, func(st *State, v V) {
			c.args, c.argE, c.argT = []V{v}, e.Args, []types.Type{x.typeOf(st, e.Args[0])}
			k(st, c)
		})
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := in.Uses[id].(*types.Builtin); ok {
			x.prepareBuiltin(c, b.Name(), e, st, k)
			return
		}
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		c.kind, c.lit, c.lf = "lit", lit, st.frame
		c.sig = x.typeOf(st, lit).(*types.Signature)
		x.evalArgs(c, e, st, k)
		return
	}
	var fn *types.Func
	var sel *types.Selection
	var se *ast.SelectorExpr
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = in.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		fn, _ = in.Uses[f.Sel].(*types.Func)
		se = f
		if s, ok := in.Selections[f]; ok && s.Kind() == types.MethodVal {
			sel = s
		} else if ok {
			fn = nil
		}
	}
	if fn == nil {
		c.kind = "funcval"
		c.fvT = x.typeOf(st, fun)
		sig, ok := c.fvT.Underlying().(*types.Signature)
		if !ok {
			x.unsup(e, "call")
		}
		c.sig = sig
		x.eval(fun, st, func(st *State, f V) {
			c.fv = f
			if f.lit != nil {
				c.kind, c.lit, c.lf = "lit", f.lit, f.lf
			}
			x.evalArgs(c, e, st, k)
		})
		return
	}
	c.fn = fn
	c.sig = fn.Type().(*types.Signature)
	c.kind = "func"
	c.name = funcKey(fn)
	if sel == nil {
		x.evalArgs(c, e, st, k)
		return
	}
	// method: find the receiver
	recv := c.sig.Recv().Type()
	rt := recv
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	if isMutex(rt) {
		c.kind = "lock"
		path := sel.Index()[:len(sel.Index())-1]
		if len(path) == 0 {
			x.evalLV(se.X, st, func(st *State, lv *LV) { c.lv = lv; k(st, c) })
		} else {
			x.fieldPath(se.X, path, st, e, func(st *State, lv *LV) { c.lv = lv; k(st, c) })
		}
		return
	}
	if n := named(rt); n != nil {
		switch qname(n) {
		case "strings.Builder", "bytes.Buffer":
			c.kind = "buf"
			x.evalLVorTemp(se.X, st, func(st *State, lv *LV) {
				c.lv = lv
				x.evalArgs(c, e, st, k)
			})
			return
		case "sync.WaitGroup":
			c.kind = "wg"
			x.evalLVorTemp(se.X, st, func(st *State, lv *LV) {
				c.lv = lv
				x.evalArgs(c, e, st, k)
			})
			return
		case "atomic.Value":
			c.kind = "atomic"
			if d := x.g.so.refStruct(x.typeOf(st, se.X)); d != nil {
				// a pointer to an atomic.Value
				f := d.field("v")
				x.eval(se.X, st, func(st *State, v V) {
					x.nilCheck(st, v.t, e, func(st *State) {
						c.lv = &LV{kind: "field", ref: v.t, d: d, f: f, typ: f.typ}
						x.evalArgs(c, e, st, k)
					})
				})
				return
			}
			x.evalLVorTemp(se.X, st, func(st *State, lv *LV) {
				c.lv = lv
				x.evalArgs(c, e, st, k)
			})
			return
		}
	}
	path := sel.Index()[:len(sel.Index())-1]
	withRecv := func(st *State, r V, from types.Type) {
		c.args = []V{r}
		c.argE = []ast.Expr{se.X}
		c.argT = []types.Type{from}
		x.evalArgs(c, e, st, k)
	}
	if len(path) > 0 {
		// a method an external type has from what it embeds
		t := x.typeOf(st, se.X)
		for i := 0; i <= len(path); i++ {
			n := structOf(deref(t))
			if n == nil || i == len(path) {
				break
			}
			if _, in := x.g.pr.pkgs[pkgPath(n)]; !in && n.Obj().Pkg() != nil {
				from := t
				c.name = n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + fn.Name()
				if i == 0 {
					x.eval(se.X, st, func(st *State, r V) { withRecv(st, r, from) })
				} else {
					x.fieldPath(se.X, path[:i], st, e, func(st *State, lv *LV) {
						x.loadLV(lv, st, e, func(st *State, v V) { withRecv(st, v, lv.typ) })
					})
				}
				return
			}
			t = n.Underlying().(*types.Struct).Field(path[i]).Type()
		}
		x.fieldPath(se.X, path, st, e, func(st *State, lv *LV) {
			if p, ok := recv.(*types.Pointer); ok && x.g.so.isRef(p) && !x.g.so.isRef(lv.typ) {
				withRecv(st, V{t: x.fresh("int", "addr")}, p)
				return
			}
			x.loadLV(lv, st, e, func(st *State, v V) { withRecv(st, v, lv.typ) })
		})
		return
	}
	xt := x.typeOf(st, se.X)
	if p, ok := recv.(*types.Pointer); ok && x.g.so.isRef(p) && !x.g.so.isRef(xt) {
		// pointer method on an addressable struct variable
		x.evalLV(se.X, st, func(st *State, lv *LV) {
			if lv.kind == "boxvar" || lv.kind == "deref" {
				withRecv(st, V{t: lv.ref}, p)
				return
			}
			withRecv(st, V{t: x.fresh("int", "addr")}, p)
		})
		return
	}
	x.eval(se.X, st, func(st *State, r V) {
		if x.g.so.isRef(xt) && !x.g.so.isRef(recv) {
			if _, isI := recv.Underlying().(*types.Interface); !isI {
				if d := x.g.so.refStruct(xt); d != nil {
					x.nilCheck(st, r.t, e, func(st *State) {
						withRecv(st, V{t: x.let(d.name, fmt.Sprintf("%s[%s]", x.heapOf(st, "H:"+d.short), r.t))}, recv)
					})
					return
				}
			}
		}
		withRecv(st, r, xt)
	})
}

// evalArgs evaluates the ordinary arguments, converted to the parameter types, variadics packed.
func (x *Ex) evalArgs(c *callee, e *ast.CallExpr, st *State, k func(st *State, c *callee)) {
	ps := c.sig.Params()
	base := len(c.args)
	var rec func(i int, st *State, args []V, es []ast.Expr, ts []types.Type)
	if len(e.Args) == 1 && ps.Len() > 1 {
		if tup, ok := x.typeOf(st, e.Args[0]).(*types.Tuple); ok {
			x.evalCall(ast.Unparen(e.Args[0]).(*ast.CallExpr), st, func(st *State, vs []V) {
				c2 := *c
				for i, v := range vs {
					c2.args = append(c2.args[:base+i:base+i], v)
					c2.argE = append(c2.argE[:base+i:base+i], nil)
					c2.argT = append(c2.argT[:base+i:base+i], tup.At(i).Type())
				}
				k(st, &c2)
			})
			return
		}
	}
	n := ps.Len()
	rec = func(i int, st *State, args []V, es []ast.Expr, ts []types.Type) {
		if i == n {
			c2 := *c
			c2.args, c2.argE, c2.argT = args, es, ts
			k(st, &c2)
			return
		}
		pt := ps.At(i).Type()
		if c.sig.Variadic() && i == n-1 && !c.ellipsis {
			et := pt.(*types.Slice).Elem()
			var vs []V
			var va func(j int, st *State)
			va = func(j int, st *State) {
				if j == len(e.Args) {
					so := x.g.so.of(pt)
					var t string
					if len(vs) == 0 {
						t = x.g.so.zero(pt)
					} else {
						var el []string
						for _, v := range vs {
							if so == seqU8 {
								el = append(el, "("+paren(v.t)+" as u8)")
							} else {
								el = append(el, v.t)
							}
						}
						t = "seq![" + strings.Join(el, ", ") + "]"
						if so == "List" {
							t = "List { nil: false, s: " + t + " }"
						}
					}
					x.n++
					v := V{t: x.let(so, t), reg: fmt.Sprintf("fresh#%d", x.n), cap: "full"}
					rec(i+1, st, append(args[:len(args):len(args)], v), append(es[:len(es):len(es)], nil), append(ts[:len(ts):len(ts)], pt))
					return
				}
				x.evalTo(e.Args[j], et, st, func(st *State, v V) {
					vs = append(vs[:j-i:j-i], v)
					va(j+1, st)
				})
			}
			va(i, st)
			return
		}
		x.evalTo(e.Args[i], pt, st, func(st *State, v V) {
			rec(i+1, st, append(args[:len(args):len(args)], v), append(es[:len(es):len(es)], e.Args[i]), append(ts[:len(ts):len(ts)], pt))
		})
	}
	rec(0, st, c.args, c.argE, c.argT)
}

func (x *Ex) prepareBuiltin(c *callee, name string, e *ast.CallExpr, st *State, k func(st *State, c *callee)) {
	c.kind, c.name = "builtin", name
	switch name {
	case "make", "new":
		x.evalList(e.Args[1:], st, func(st *State, vs []V) { c2 := *c; c2.args = vs; k(st, &c2) })
	case "append":
		t := x.typeOf(st, e)
		x.eval(e.Args[0], st, func(st *State, a V) {
			if a.t == "nil" {
				a = V{t: x.g.so.zero(t)}
			}
			if c.ellipsis {
				x.eval(e.Args[1], st, func(st *State, b V) {
					if b.t == "nil" {
						b = V{t: x.g.so.zero(t)}
					}
					c2 := *c
					c2.args = []V{a, b}
					k(st, &c2)
				})
				return
			}
			et := elemType(t)
			var rec func(i int, st *State, acc []V)
			rec = func(i int, st *State, acc []V) {
				if i == len(e.Args) {
					c2 := *c
					c2.args = acc
					k(st, &c2)
					return
				}
				x.evalTo(e.Args[i], et, st, func(st *State, v V) { rec(i+1, st, append(acc[:len(acc):len(acc)], v)) })
			}
			rec(1, st, []V{a})
		})
	case "copy", "delete", "cap", "len", "close", "panic", "print", "println", "recover", "min", "max":
		x.evalList(e.Args, st, func(st *State, vs []V) { c2 := *c; c2.args = vs; k(st, &c2) })
	default:
		x.unsup(e, "builtin "+name)
	}
}

func (x *Ex) doCall(c *callee, st *State, k KVs) {
	switch c.kind {
	case "conv":
		x.doConv(c, st, k)
	case "builtin":
		x.doBuiltin(c, st, k)
	case "lock":
		x.doLock(c, st, k)
	case "wg":
		x.doWG(c, st, k)
	case "buf":
		x.doBuf(c, st, k)
	case "atomic":
		x.doAtomic(c, st, k)
	case "lit":
		x.inline(c, nil, c.lit.Type, c.lit.Body, c.sig, c.lf, st, k)
	case "funcval":
		x.doFuncVal(c, st, k)
	case "func":
		x.doFunc(c, st, k)
	}
}

func one(k KVs, st *State, v V) { k(st, []V{v}) }

func (x *Ex) doConv(c *callee, st *State, k KVs) {
	v, from, to := c.args[0], c.argT[0], c.fvT
	if v.t == "nil" {
		one(k, st, V{t: x.g.so.zero(to)})
		return
	}
	_, ti := to.Underlying().(*types.Interface)
	if ti {
		x.assignConv(st, v, from, to, c.call, func(st *State, v V) { one(k, st, v) })
		return
	}
	fs, ts := x.g.so.of(from), x.g.so.of(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 {
		if fb.Info()&types.IsInteger != 0 {
			one(k, st, V{t: x.let("int", wrapInt(v.t, fb, tb))})
			return
		}
		one(k, st, V{t: x.fresh("int", "cv")})
		return
	}
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		one(k, st, V{t: x.fresh("int", "flt")})
		return
	}
	if tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0 {
		x.unsup(c.call, "string from rune")
	}
	if fs == ts {
		fStr := fb != nil && fb.Info()&types.IsString != 0
		tStr := tb != nil && tb.Info()&types.IsString != 0
		if fStr && tStr {
			one(k, st, V{t: v.t})
			return
		}
		if fStr != tStr {
			x.n++
			r := V{t: v.t}
			if !tStr {
				r.reg = fmt.Sprintf("fresh#%d", x.n)
			}
			one(k, st, r)
			return
		}
		one(k, st, v)
		return
	}
	x.unsup(c.call, fmt.Sprintf("conversion %s to %s", from, to))
}

func wrapInt(v string, f, t *types.Basic) string {
	_, _, fsg, fb, _ := intRange(f)
	_, _, tsg, tb, _ := intRange(t)
	if f.Info()&types.IsUntyped != 0 {
		fsg, fb = true, 64
	}
	if fsg == tsg && fb <= tb || !fsg && tsg && fb < tb {
		return v
	}
	if !tsg {
		return fmt.Sprintf("(%s %% %s)", v, pow2(tb))
	}
	return fmt.Sprintf("go_wrap_i%d(%s)", tb, v)
}

func (x *Ex) lenOf(so, t string) string {
	switch {
	case so == "List":
		return "(" + paren(t) + ".s.len() as int)"
	case so == "Dict" || strings.HasPrefix(so, "GoMap<"):
		return "(" + paren(t) + ".m.dom().len() as int)"
	}
	return "(" + paren(t) + ".len() as int)"
}

func (x *Ex) doBuiltin(c *callee, st *State, k KVs) {
	e := c.call
	switch c.name {
	case "len":
		t := x.typeOf(st, e.Args[0])
		so := x.g.so.of(t)
		if so == "int" {
			n := x.fresh("int", "chlen")
			x.assume("0 <= "+n, func() { one(k, st, V{t: n}) })
			return
		}
		x.lockedUse(st, c.args[0], false, e)
		n := x.let("int", x.lenOf(so, c.args[0].t))
		if m, ok := t.Underlying().(*types.Map); ok {
			x.assume(fmt.Sprintf("%s.m.dom().finite() && %s <= %s", paren(c.args[0].t), n, maxEntries(m)), func() { one(k, st, V{t: n}) })
			return
		}
		one(k, st, V{t: n})
	case "cap":
		so := x.g.so.of(x.typeOf(st, e.Args[0]))
		v := c.args[0]
		if so == "int" {
			n := x.fresh("int", "chcap")
			x.assume("0 <= "+n, func() { one(k, st, V{t: n}) })
			return
		}
		if v.cap == "full" {
			one(k, st, V{t: x.let("int", x.lenOf(so, v.t))})
			return
		}
		if v.cap != "" {
			one(k, st, V{t: v.cap})
			return
		}
		n := x.fresh("int", "cap")
		if id, ok := ast.Unparen(e.Args[0]).(*ast.Ident); ok {
			if lv := x.varOf(st, id); lv != nil {
				if cur, ok := st.vars[lv]; ok {
					cur.cap = n
					st.vars[lv] = cur
				}
			}
		}
		x.assume(fmt.Sprintf("%s <= %s <= %s", x.lenOf(so, v.t), n, x.g.maxLen(x.typeOf(st, e.Args[0]))), func() { one(k, st, V{t: n}) })
	case "panic":
		v := c.args[0]
		from := x.info(st).TypeOf(e.Args[0])
		var val string
		if _, isI := from.Underlying().(*types.Interface); isI && x.g.so.of(from) == "Val" {
			val = v.t
		} else if isI {
			val = x.ifaceToVal(v.t, from)
		} else {
			val = x.toVal(v.t, from)
		}
		x.raise(st, x.let("Val", val))
	case "recover":
		n := len(st.pan)
		if !st.frame.isDefer || n == 0 {
			one(k, st, V{t: "Val::Nil"})
			return
		}
		top := st.pan[n-1]
		if top.val == "" || top.recovered {
			one(k, st, V{t: "Val::Nil"})
			return
		}
		st.pan = append([]panEntry(nil), st.pan...)
		st.pan[n-1].recovered = true
		// panicking with a nil value is not distinguished here
		x.assume("!("+top.val+" is Nil)", func() { one(k, st, V{t: top.val}) })
	case "make":
		x.doMake(c, st, k)
	case "new":
		t := x.typeOf(st, e.Args[0])
		if d := x.g.so.refStruct(types.NewPointer(t)); d != nil && x.g.so.isRef(types.NewPointer(t)) {
			x.alloc(st, d, x.g.so.zeroStruct(d), func(st *State, r V) { one(k, st, r) })
			return
		}
		if isWaitGroup(t) {
			wg := x.fresh("int", "wg")
			x.assume(wg+" != 0", func() { one(k, st, V{t: wg}) })
			return
		}
		one(k, st, V{t: x.g.so.zero(t)})
	case "append":
		x.doAppend(c, st, k)
	case "copy":
		x.doCopy(c, st, k)
	case "delete":
		x.evalLVorTemp(e.Args[0], st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, m V) {
				mt := x.typeOf(st, e.Args[0]).Underlying().(*types.Map)
				x.assignConv(st, c.args[1], x.info(st).TypeOf(e.Args[1]), mt.Key(), e, func(st *State, key V) {
					so := x.g.so.of(x.typeOf(st, e.Args[0]))
					nv := V{t: x.let(so, fmt.Sprintf("%s { nil: %s.nil, m: %s.m.remove(%s) }", turbofish(so), m.t, m.t, key.t)), reg: m.reg}
					x.mutate(st, lv, m, nv, e, func(st *State) { k(st, nil) })
				})
			})
		})
	case "close", "print", "println":
		if c.name == "close" {
			if x.g.sp.chaninv[chanKey(elemType(x.typeOf(st, e.Args[0])))] != nil {
				x.assert("false", "chaninv", "a channel with an invariant is closed", e)
			}
			x.doClose(e, c.args[0].t, st, func(st *State) { k(st, nil) })
			return
		}
		k(st, nil)
	default:
		x.unsup(e, "builtin "+c.name)
	}
}

func (x *Ex) doMake(c *callee, st *State, k KVs) {
	e := c.call
	t := x.typeOf(st, e)
	so := x.g.so.of(t)
	x.n++
	reg := fmt.Sprintf("fresh#%d", x.n)
	switch t.Underlying().(type) {
	case *types.Chan:
		r := x.fresh("int", "chan")
		cp := "0int"
		if len(c.args) > 0 {
			cp = c.args[0].t
		}
		f := fmt.Sprintf("%s != 0 && chan_kind(%s) == %dint && chan_cap(%s) == %s", r, r, fnv(chanKey(elemType(t))), r, cp)
		if _, ok := x.g.sp.ghosts["WIDTH"]; ok {
			// a new channel is not registered yet
			f += fmt.Sprintf(" && !%s.dom().contains(%s)", x.heapOf(st, "G:WIDTH"), r)
		}
		if len(c.args) > 0 {
			x.check(st, "0 <= "+c.args[0].t, "makelen", e, func(st *State) {
				x.assume(f, func() { one(k, st, V{t: r}) })
			})
			return
		}
		x.assume(f, func() { one(k, st, V{t: r}) })
	case *types.Map:
		if so == "Dict" {
			one(k, st, V{t: x.let(so, "Dict { nil: false, m: Map::<Seq<u8>, Val>::empty() }"), reg: reg})
			return
		}
		one(k, st, V{t: x.let(so, turbofish(so)+" { nil: false, m: Map::empty() }"), reg: reg})
	case *types.Slice:
		n := c.args[0].t
		cp := n
		// make panics beyond the address space; below that there is memory or the process ends
		lim := x.g.makeLimit(t)
		cond := fmt.Sprintf("0 <= %s <= %s", n, lim)
		if len(c.args) > 1 {
			cp = c.args[1].t
			cond = fmt.Sprintf("0 <= %s <= %s <= %s", n, cp, lim)
		}
		if isPosLit(n) || n == "0int" {
			if isPosLit(cp) || cp == "0int" {
				cond = "true"
			} else {
				cond = fmt.Sprintf("%s <= %s <= %s", n, cp, lim)
			}
		}
		x.check(st, cond, "makelen", e, func(st *State) {
			if x.con != nil && x.con.maxbuf != "" {
				x.assert(cp+" <= "+x.subst(x.con.maxbuf, x.entryEnv), "maxbuf", "size of a buffer", e)
			}
			et := elemType(t)
			z := x.g.so.zeroElem(et)
			zs := x.g.so.of(et)
			if so == seqU8 {
				z = "0u8"
				zs = "u8"
			} else {
				z = x.g.so.zero(et)
			}
			s := fmt.Sprintf("Seq::<%s>::new(%s as nat, |q: int| %s)", zs, paren(n), z)
			if n == "0int" {
				s = fmt.Sprintf("Seq::<%s>::empty()", zs)
			}
			if so == "List" {
				s = "List { nil: false, s: " + s + " }"
			}
			mk := func() { one(k, st, V{t: x.let(so, s), reg: reg, cap: cp}) }
			if cond == "true" {
				mk()
				return
			}
			x.assume(fmt.Sprintf("%s <= %s", cp, x.g.maxLen(t)), mk)
		})
	default:
		x.unsup(e, "make")
	}
}

func (x *Ex) doAppend(c *callee, st *State, k KVs) {
	e := c.call
	t := x.typeOf(st, e)
	so := x.g.so.of(t)
	a := c.args[0]
	var add string
	if c.ellipsis {
		add = seqPart(so, c.args[1].t)
	} else {
		if len(c.args) == 1 {
			one(k, st, a)
			return
		}
		var el []string
		for _, v := range c.args[1:] {
			x.escape(st, v, "", e)
			if so == seqU8 {
				el = append(el, "("+paren(v.t)+" as u8)")
			} else {
				el = append(el, v.t)
			}
		}
		add = "seq![" + strings.Join(el, ", ") + "]"
	}
	r := V{}
	back := x.appendBack[e]
	switch {
	case a.reg == "" || a.cap == "full":
		x.n++
		r.reg = fmt.Sprintf("fresh#%d", x.n)
	case strings.HasPrefix(a.reg, "fresh#"):
		r.reg = a.reg
		if !back {
			if st.esc["appended:"+a.reg] {
				x.assert("false", "ownership", "two appends to the same slice share memory", e)
			}
			x.addEsc(st, "appended:"+a.reg)
		}
		if st.esc["consumed:"+a.reg] {
			x.assert("false", "ownership", "append to a buffer that was given away", e)
		}
	default:
		_, isVar := ast.Unparen(e.Args[0]).(*ast.Ident)
		if !(back && !isVar) && !x.noOwn {
			x.assert("false", "ownership", "append may write into memory of "+a.reg, e)
		}
		r.reg = a.reg
	}
	if st.esc["escaped:"+a.reg] && a.reg != "" && !strings.HasPrefix(a.reg, "ext:") && !back {
		x.assert("false", "ownership", "append to a slice that is also referenced elsewhere", e)
	}
	if x.arrReg[a.reg] {
		x.unsup(e, "append to a part of an array")
	}
	var facts []string
	if a.reg != "" && a.cap != "full" {
		// the new elements may land in memory other slices of the same array reach
		var own *types.Var
		if id, ok := ast.Unparen(e.Args[0]).(*ast.Ident); ok && back {
			own = x.varOf(st, id)
		}
		var sib []*types.Var
		for v, val := range st.vars {
			if _, isSl := v.Type().Underlying().(*types.Slice); isSl && v != own && val.reg == a.reg && val.t != a.t && x.g.so.of(v.Type()) == so {
				sib = append(sib, v)
			}
		}
		sortVars(sib)
		for _, v := range sib {
			old := st.vars[v]
			h := x.fresh(so, "sib")
			hs, os, as := seqPart(so, h), seqPart(so, old.t), seqPart(so, a.t)
			facts = append(facts, x.typeFacts(v.Type(), h, st)...)
			facts = append(facts, fmt.Sprintf("%s.len() == %s.len()", hs, os), fmt.Sprintf("(%s.len() <= %s.len() && %s == %s.subrange(0, %s.len() as int) ==> %s == %s)", os, as, os, as, os, h, old.t))
			x.setVar(st, v, V{t: h, reg: old.reg, cap: old.cap})
		}
	}
	var tt string
	if so == "List" {
		tt = fmt.Sprintf("List { nil: false, s: %s.s + %s }", a.t, add)
		if len(c.args) == 2 && !c.ellipsis {
			tt = fmt.Sprintf("List { nil: false, s: %s.s.push(%s) }", a.t, c.args[1].t)
		}
	} else if len(c.args) == 2 && !c.ellipsis && so != seqU8 {
		tt = fmt.Sprintf("%s.push(%s)", paren(a.t), c.args[1].t)
	} else {
		tt = fmt.Sprintf("(%s + %s)", a.t, add)
	}
	if so == seqU8 {
		r.t = x.cat(a.t, add)
	} else {
		r.t = x.let(so, tt)
	}
	x.assumeAll(append(facts, x.lenOf(so, r.t)+" <= "+x.g.maxLen(t)), func() { one(k, st, r) })
}

// storeInto writes new contents into the memory denoted by a slice-valued argument expression.
func (x *Ex) storeInto(e ast.Expr, old V, nv string, st *State, k func(st *State)) {
	e = ast.Unparen(e)
	if se, ok := e.(*ast.SliceExpr); ok {
		t := x.typeOf(st, se.X)
		_, isSl := t.Underlying().(*types.Slice)
		if _, isArr := t.Underlying().(*types.Array); !isSl && !isArr {
			x.unsup(e, "write into a part of an array")
		}
		x.evalLVorTemp(se.X, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, e, func(st *State, b V) {
				lo := "0int"
				so := x.g.so.of(t)
				if !strings.HasPrefix(so, "Seq<") {
					x.unsup(e, "write into a part of a list")
				}
				if id, ok := ast.Unparen(se.X).(*ast.Ident); ok && !isSl {
					delete(st.esc, "sliced:"+id.Name)
				}
				fin := func(st *State, lo string) {
					hi := fmt.Sprintf("%s + %s.len()", lo, old.t)
					n := x.let(so, fmt.Sprintf("(if %s <= %s.len() { %s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int) } else { %s })", hi, b.t, b.t, lo, nv, b.t, hi, b.t, b.t))
					x.mutate(st, lv, b, V{t: n, reg: b.reg, cap: b.cap}, e, k)
				}
				if se.Low != nil {
					x.eval(se.Low, st, func(st *State, l V) { fin(st, l.t) })
					return
				}
				fin(st, lo)
			})
		})
		return
	}
	if id, ok := e.(*ast.Ident); ok {
		if _, isNil := x.info(st).Uses[id].(*types.Nil); isNil {
			k(st)
			return
		}
	}
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
		x.evalLV(e, st, func(st *State, lv *LV) { x.mutate(st, lv, old, V{t: nv, reg: old.reg, cap: old.cap}, e, k) })
	default:
		if old.reg != "" && !strings.HasPrefix(old.reg, "fresh#") {
			x.unsup(e, "write into a slice that is no variable, field or element")
		}
		k(st)
	}
}

func (x *Ex) doCopy(c *callee, st *State, k KVs) {
	e := c.call
	so := x.g.so.of(x.typeOf(st, e.Args[0]))
	d, s := c.args[0], c.args[1]
	if so == "List" {
		// a list is a slice that may be nil
		n := x.let("int", fmt.Sprintf("(if %s.s.len() < %s.s.len() { %s.s.len() as int } else { %s.s.len() as int })", paren(d.t), paren(s.t), paren(d.t), paren(s.t)))
		nv := x.let(so, fmt.Sprintf("List { nil: %s.nil, s: %s.s.subrange(0, %s) + %s.s.subrange(%s, %s.s.len() as int) }", paren(d.t), paren(s.t), n, paren(d.t), n, paren(d.t)))
		x.storeInto(e.Args[0], d, nv, st, func(st *State) { one(k, st, V{t: n}) })
		return
	}
	if so != x.g.so.of(x.typeOf(st, e.Args[1])) || !strings.HasPrefix(so, "Seq<") {
		x.unsup(e, "copy")
	}
	n := x.let("int", fmt.Sprintf("(if %s.len() < %s.len() { %s.len() as int } else { %s.len() as int })", paren(d.t), paren(s.t), paren(d.t), paren(s.t)))
	nv := x.let(so, fmt.Sprintf("(%s.subrange(0, %s) + %s.subrange(%s, %s.len() as int))", paren(s.t), n, paren(d.t), n, paren(d.t)))
	x.storeInto(e.Args[0], d, nv, st, func(st *State) { one(k, st, V{t: n}) })
}

// ---- locks, buffers, atomics ----

func (x *Ex) doLock(c *callee, st *State, k KVs) {
	lv := c.lv
	op := c.fn.Name()
	if lv.kind == "global" && x.g.locks != nil && x.g.sp.guarded["g_"+ident(strings.ReplaceAll(lv.gkey, ".", "_"))] != nil {
		// a lock of a package variable
		n := *lv
		n.kind, n.ref, n.gkey = "mutex", "1int", x.g.sp.guarded["g_"+ident(strings.ReplaceAll(lv.gkey, ".", "_"))].lock
		c.lv = &n
		x.doLockOp(c, st, n.gkey, op, k)
		return
	}
	if lv.kind != "mutex" || lv.ref == "" || lv.ref == "0" {
		k(st, nil)
		return
	}
	key := lv.gkey
	if (op == "Lock" || op == "RLock") && x.g.locks == nil {
		x.acquire(st, key, lv.ref, func(st *State) { x.doLockOp(c, st, key, op, k) })
		return
	}
	x.doLockOp(c, st, key, op, k)
}

var lockReq = regexp.MustCompile(`\$L_(\w+)\[(\w+)\] == 0`)

// acquire: between two critical sections of one operation other operations may have run.
func (x *Ex) acquire(st *State, key, ref string, k func(st *State)) {
	short := key[2:]
	inv := x.g.sp.interfered[short]
	if inv == nil || x.top == nil || x.top.fn == nil || x.top.sig.Recv() == nil || st.freshR[ref] {
		k(st)
		return
	}
	n := structOf(x.top.sig.Recv().Type())
	if n == nil || shortOf(n) != short {
		k(st)
		return
	}
	id := "acquired:" + key + "|" + ref
	if !st.esc[id] {
		x.addEsc(st, id)
		k(st)
		return
	}
	d := x.g.so.structs["S_"+short]
	h := x.heapOf(st, "H:"+short)
	var facts, fs []string
	for _, f := range d.fields {
		if x.g.sp.guarded[short].fields[f.goN] {
			v := x.fresh(f.sort, "seen_"+f.name)
			facts = append(facts, x.typeFacts(f.typ, v, st)...)
			fs = append(fs, f.name+": "+v)
		}
	}
	obj := x.let(d.name, fmt.Sprintf("%s { %s, ..%s[%s] }", d.name, strings.Join(fs, ", "), h, ref))
	x.setHeap(st, "H:"+short, fmt.Sprintf("%s.insert(%s, %s)", h, ref, obj))
	// what the operation promises is relative to the state its last critical section found
	b := st.base["H:"+short]
	if b == "" {
		b = x.heapOf(x.entrySt0(), "H:"+short)
	}
	st.base["H:"+short] = x.let(x.heapSort("H:"+short), fmt.Sprintf("%s.insert(%s, %s)", b, ref, obj))
	facts = append(facts, x.invOf(inv, obj, n, st))
	for m := range st.meta {
		if strings.HasPrefix(m, ref+"|") {
			delete(st.meta, m)
		}
	}
	x.assumeAll(facts, func() { k(st) })
}

func (x *Ex) invOf(c *Clause, obj string, n *types.Named, st *State) string {
	env := &Env{vars: map[string]SV{"self": {obj, n}}, st: st, at: map[string]*Env{}}
	env.old = env
	return x.substClause(*c, env)
}

func (x *Ex) doLockOp(c *callee, st *State, key, op string, k KVs) {
	lv := c.lv
	cur := fmt.Sprintf("%s[%s]", x.heapOf(st, key), lv.ref)
	set := func(v string) { x.setHeap(st, key, fmt.Sprintf("%s.insert(%s, %sint)", x.heapOf(st, key), lv.ref, v)) }
	switch op {
	case "Lock":
		x.assert(cur+" == 0", "lock", "acquires a lock that is already held", c.call)
		set("2")
	case "RLock":
		x.assert(cur+" == 0", "lock", "acquires a lock that is already held", c.call)
		set("1")
	case "Unlock":
		x.assert(cur+" == 2", "lock", "releases a lock that is not held exclusively", c.call)
		if inv := x.g.sp.interfered[key[2:]]; inv != nil && x.g.locks == nil && inv.text != "true" {
			obj := fmt.Sprintf("%s[%s]", x.heapOf(st, "H:"+key[2:]), lv.ref)
			x.assert(x.invOf(inv, obj, nil, st), "lock-invariant", "the invariant of "+key[2:]+" holds when its lock is released", c.call)
		}
		set("0")
	case "RUnlock":
		x.assert(cur+" == 1", "lock", "releases a read lock that is not held", c.call)
		set("0")
	default:
		x.unsup(c.call, "lock operation "+op)
	}
	k(st, nil)
}

func (x *Ex) doBuf(c *callee, st *State, k KVs) {
	x.loadLV(c.lv, st, c.call, func(st *State, b V) {
		app := func(add string, res func(st *State)) {
			t := x.cat(b.t, add)
			x.assume(t+".len() <= MAXLEN()", func() {
				x.storeLV(c.lv, st, V{t: t}, c.call, res)
			})
		}
		switch c.fn.Name() {
		case "WriteString", "Write":
			a := c.args[0].t
			app(a, func(st *State) { k(st, []V{{t: x.lenOf(seqU8, a)}, {t: "0int"}}) })
		case "WriteByte":
			app(fmt.Sprintf("seq![%s as u8]", paren(c.args[0].t)), func(st *State) { k(st, []V{{t: "0int"}}) })
		case "String":
			one(k, st, V{t: b.t})
		case "Bytes":
			x.n++
			one(k, st, V{t: b.t, reg: fmt.Sprintf("fresh#%d", x.n)})
		case "Len":
			one(k, st, V{t: x.lenOf(seqU8, b.t)})
		case "Grow":
			x.check(st, c.args[0].t+" >= 0", "grow", c.call, func(st *State) { k(st, nil) })
		case "Reset":
			x.storeLV(c.lv, st, V{t: "Seq::<u8>::empty()"}, c.call, func(st *State) { k(st, nil) })
		default:
			x.unsup(c.call, "buffer method "+c.fn.Name())
		}
	})
}

func (x *Ex) doAtomic(c *callee, st *State, k KVs) {
	switch c.fn.Name() {
	case "Load":
		x.interfere(c.lv, st, func(st *State) {
			x.loadLV(c.lv, st, c.call, func(st *State, v V) { one(k, st, v) })
		})
	case "Store":
		x.check(st, "!("+c.args[0].t+" is Nil)", "atomic-nil", c.call, func(st *State) {
			x.interfere(c.lv, st, func(st *State) {
				x.atomicStore(c.lv, st, c.args[0], c.call, func(st *State) { k(st, nil) })
			})
		})
	case "CompareAndSwap":
		x.check(st, "!("+c.args[0].t+" is Nil) && !("+c.args[1].t+" is Nil)", "atomic-nil", c.call, func(st *State) {
			x.interfere(c.lv, st, func(st *State) {
				x.loadLV(c.lv, st, c.call, func(st *State, v V) {
					x.ite(v.t+" == "+c.args[0].t, func() {
						st := st.clone()
						x.atomicStore(c.lv, st, c.args[1], c.call, func(st *State) { one(k, st, V{t: "true"}) })
					}, func() { one(k, st.clone(), V{t: "false"}) })
				})
			})
		})
	default:
		x.unsup(c.call, "atomic "+c.fn.Name())
	}
}

// ---- function values ----

func (x *Ex) doFuncVal(c *callee, st *State, k KVs) {
	nm := ""
	if n := named(c.fvT); n != nil {
		nm = qname(n)
	}
	con := x.g.sp.funcval[nm]
	if con == nil {
		con = x.g.sp.funcval[strings.ReplaceAll(chanKey(c.fvT), " ", "")]
	}
	x.check(st, c.fv.t+" != 0", "nilfunc", c.call, func(st *State) {
		if x.g.locks != nil {
			x.g.use("a function value called while a lock is held does not take that lock again")
			x.lockCall(c, st, k)
			return
		}
		if con == nil {
			x.unsup(c.call, "call of a function value of type "+chanKey(c.fvT)+", which has no contract")
		}
		x.g.use("function values of type " + nm + " satisfy their stated contract")
		c2 := *c
		c2.args = append([]V{c.fv}, c.args...)
		c2.argE = append([]ast.Expr{nil}, c.argE...)
		c2.argT = append([]types.Type{c.fvT}, c.argT...)
		x.callContract(&c2, con, nil, st, k)
	})
}

func (x *Ex) havocResults(c *callee, st *State, k KVs) {
	rs := c.sig.Results()
	var vs []V
	var facts []string
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		so := x.g.so.of(t)
		v := V{t: x.fresh(so, "ext")}
		if hasRegion(t) {
			x.n++
			v.reg = fmt.Sprintf("fresh#%d", x.n)
		}
		facts = append(facts, x.typeFacts(t, v.t, st)...)
		vs = append(vs, v)
	}
	x.assumeAll(facts, func() { k(st, vs) })
}

// ---- named functions and methods ----

func (x *Ex) doFunc(c *callee, st *State, k KVs) {
	fn := c.fn
	key := c.name
	if x.g.locks != nil {
		x.lockCall(c, st, k)
		return
	}
	recv := c.sig.Recv()
	if recv != nil {
		if _, isI := recv.Type().Underlying().(*types.Interface); isI {
			// contract on the interface method?
			if con := x.g.sp.contracts[key]; con != nil {
				x.nilCheckIf(con, st, c.args[0].t, c.call, func(st *State) { x.callContract(c, con, nil, st, k) })
				return
			}
			var impl *types.Named
			rt := c.argT[0]
			if n := named(rt); n != nil {
				impl = x.g.pr.impls[n.Obj()]
			}
			if impl == nil {
				if n := named(recv.Type()); n != nil {
					impl = x.g.pr.impls[n.Obj()]
				}
			}
			if impl != nil {
				obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(impl), true, fn.Pkg(), fn.Name())
				if m, ok := obj.(*types.Func); ok && x.g.pr.funcs[m] != nil {
					x.nilCheck(st, c.args[0].t, c.call, func(st *State) {
						c2 := *c
						c2.fn, c2.name = m, funcKey(m)
						c2.sig = m.Type().(*types.Signature)
						c2.argT = append([]types.Type{types.NewPointer(impl)}, c.argT[1:]...)
						x.doFunc(&c2, st, k)
					})
					return
				}
			}
			if key == "fmt.Stringer.String" || strings.HasPrefix(key, "?.") || impl == nil {
				x.unmodelled(c, key, st, k)
				return
			}
		}
	}
	switch key {
	case "misc.Str2Bytes":
		x.calls[key] = true
		one(k, st, V{t: c.args[0].t, reg: "ext:the bytes of a string"})
		return
	case "fmt.Sprintf":
		if f, ok := x.sprintf(c, st); ok {
			x.callContract(c, x.g.sp.contracts[key], nil, st, func(st *State, rs []V) {
				x.assume(rs[0].t+" =~= "+f, func() { k(st, rs) })
			})
			return
		}
	case "misc.Bytes2Str":
		x.calls[key] = true
		one(k, st, V{t: c.args[0].t})
		return
	}
	con := x.g.sp.contracts[key]
	fi := x.g.pr.funcs[fn]
	if con != nil && !con.inline {
		x.callContract(c, con, fi, st, k)
		return
	}
	if fi != nil {
		d := 0
		for f := st.frame; f != nil; f = f.parent {
			d++
			if f.fn == fi {
				x.unsup(c.call, "recursive function "+key+" has no contract")
			}
		}
		if d > 14 {
			x.unsup(c.call, "inlining too deep")
		}
		x.calls[key] = true
		x.inline(c, fi, fi.decl.Type, fi.decl.Body, c.sig, nil, st, k)
		return
	}
	x.unmodelled(c, key, st, k)
}

// sprintf is the text that a constant format of plain %s, %d and %v verbs describes.
func (x *Ex) sprintf(c *callee, st *State) (string, bool) {
	if len(c.args) != 2 || len(c.argE) == 0 || c.call == nil || c.ellipsis || x.g.locks != nil || x.g.sp.contracts["fmt.Sprintf"] == nil {
		return "", false
	}
	tv, ok := x.info(st).Types[c.argE[0]]
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	f := constant.StringVal(tv.Value)
	var parts []string
	n, text := 0, ""
	flush := func() {
		if text != "" {
			parts = append(parts, x.g.lit(text))
		}
		text = ""
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			text += f[i : i+1]
			continue
		}
		i++
		if i == len(f) {
			return "", false
		}
		switch f[i] {
		case '%':
			text += "%"
		case 's', 'd', 'v':
			flush()
			parts = append(parts, fmt.Sprintf("verb_%c(%s.s[%d])", f[i], paren(c.args[1].t), n))
			n++
		case 'x', '0':
			// bytes in hexadecimal digits, a number of two bytes as four of them
			flush()
			if n+1 >= len(c.call.Args) || !x.g.hasTheory("net") {
				return "", false
			}
			t := x.typeOf(st, c.call.Args[n+1])
			a := fmt.Sprintf("%s.s[%d]", paren(c.args[1].t), n)
			b, basic := t.(*types.Basic)
			switch {
			case f[i] == '0':
				if !strings.HasPrefix(f[i:], "04x") || !basic || b.Kind() != types.Uint16 {
					return "", false
				}
				i += 2
				parts = append(parts, "hex_text(be16("+a+"->NInt_1))")
			case basic && b.Info()&types.IsString != 0:
				parts = append(parts, "hex_text("+a+"->Str_0)")
			default:
				return "", false
			}
			n++
		default:
			return "", false
		}
	}
	flush()
	if n != len(c.call.Args)-1 || len(parts) == 0 {
		return "", false
	}
	x.g.use("fmt.Sprintf: %s and %v write a string as it is, %d and %v a decimal number, %x a string in hexadecimal digits, %04x a uint16 as four of them")
	return strings.Join(parts, " + "), true
}

// readers are the packages whose functions write to nothing their arguments refer to.
var readers = map[string]bool{"bytes": true, "strings": true, "strconv": true, "errors": true, "unicode": true, "utf8": true, "filepath": true, "path": true,
	"math": true, "bits": true, "crc32": true, "sha1": true, "sha256": true, "md5": true, "time": true}

// readerFuncs are further functions of this kind.
var readerFuncs = map[string]bool{"hex.EncodeToString": true, "hex.Dump": true, "json.Marshal": true, "json.MarshalIndent": true, "json.Valid": true,
	"base64.Encoding.EncodeToString": true, "base32.Encoding.EncodeToString": true, "reflect.TypeOf": true, "reflect.DeepEqual": true, "sort.SearchInts": true, "sort.SearchStrings": true}

func readsOnly(fn *types.Func, key string) bool {
	if readerFuncs[key] || fn.Pkg() == nil {
		return true
	}
	method := fn.Type().(*types.Signature).Recv() != nil
	switch fn.Pkg().Path() {
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || strings.HasPrefix(fn.Name(), "Print") || strings.HasPrefix(fn.Name(), "Fprint") || fn.Name() == "Errorf"
	case "net":
		if !method {
			return true
		}
		n := named(fn.Type().(*types.Signature).Recv().Type())
		return n != nil && (n.Obj().Name() == "IP" || n.Obj().Name() == "IPMask" || strings.HasSuffix(n.Obj().Name(), "Addr"))
	case "encoding/binary":
		return !strings.HasPrefix(fn.Name(), "Put") && fn.Name() != "Read" && fn.Name() != "Decode" && fn.Name() != "Encode"
	}
	return readers[fn.Pkg().Name()] && !(method && fn.Pkg().Name() != "time")
}

// opaqueStruct: nothing of the structure can be seen outside its package.
func (g *Gen) opaqueStruct(n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || g.pr.pkgs[n.Obj().Pkg().Path()] != nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	return true
}

// unmodelled is a call of a function outside the repository that has no contract: it returns anything and may write
// to what its arguments refer to.
func (x *Ex) unmodelled(c *callee, key string, st *State, k KVs) {
	if c.fn == nil || readsOnly(c.fn, key) {
		x.g.use("unmodelled call " + key + " returns any value and touches no modelled state")
		x.havocResults(c, st, k)
		return
	}
	x.g.use("unmodelled call " + key + " returns any value, may write anything to the slices it is given and touches no other modelled state")
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(c.args) {
			x.havocResults(c, st, k)
			return
		}
		t := c.argT[i]
		var e ast.Expr
		if i < len(c.argE) {
			e = c.argE[i]
		}
		if e != nil {
			if et := x.info(st).TypeOf(e); et != nil {
				t = et
			}
		}
		if t == nil || c.args[i].t == "nil" {
			rec(i+1, st)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Array, *types.Struct, *types.Tuple:
		case *types.Interface:
			if x.g.so.refStruct(t) != nil {
				x.unsup(c.call, "unmodelled call "+key+" may change an object it is given")
			}
		case *types.Slice:
			if e == nil {
				// variadic: a new slice; what its elements refer to
				if et, ok := u.Elem().Underlying().(*types.Interface); ok && !(et.NumMethods() == 0) {
					break
				}
				for _, a := range c.call.Args {
					at := x.info(st).TypeOf(a)
					if at == nil {
						continue
					}
					switch at.Underlying().(type) {
					case *types.Slice, *types.Map, *types.Signature:
						x.unsup(c.call, "unmodelled call "+key+" may change what it is given")
					case *types.Pointer:
						x.unsup(c.call, "unmodelled call "+key+" may change an object it is given")
					}
				}
				break
			}
			so := x.g.so.of(t)
			if !strings.HasPrefix(so, "Seq<") {
				x.unsup(c.call, "unmodelled call "+key+" may change a slice it is given")
			}
			nv := x.fresh(so, "written")
			facts := append(x.typeFacts(t, nv, st), fmt.Sprintf("%s.len() == %s.len()", nv, paren(c.args[i].t)))
			x.assumeAll(facts, func() {
				x.storeInto(e, c.args[i], nv, st, func(st *State) { rec(i+1, st) })
			})
			return
		case *types.Pointer:
			n := named(u.Elem())
			if n == nil || !x.g.opaqueStruct(n) {
				x.unsup(c.call, "unmodelled call "+key+" may change an object it is given")
			}
		default:
			x.unsup(c.call, "unmodelled call "+key+" may change what it is given or call it")
		}
		rec(i+1, st)
	}
	rec(0, st)
}

func (x *Ex) nilCheckIf(con *Contract, st *State, ref string, n ast.Node, k func(st *State)) {
	k(st)
}

// inline executes a function body in place.
func (x *Ex) inline(c *callee, fi *FuncInfo, ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature, lf *Frame, st *State, k KVs) {
	caller := st.frame
	pkg := caller.pkg
	if fi != nil {
		pkg = fi.pkg
	} else if lf != nil {
		pkg = lf.pkg
	}
	f := &Frame{parent: caller, fn: fi, pkg: pkg, sig: sig, isDefer: c.isDefer}
	if fi == nil && lf != nil {
		f.fn = lf.fn
	}
	for i := 0; i < sig.Results().Len(); i++ {
		f.results = append(f.results, sig.Results().At(i))
	}
	onp := c.onPanic
	f.ret = func(st *State, rs []V) {
		st.frame = caller
		for i, r := range rs {
			for a := r.alias; a != nil; a = a.base {
				if a.kind == "var" && a.v.Pos() >= body.Pos() && a.v.Pos() < body.End() {
					rs = append([]V(nil), rs...)
					rs[i].alias = nil
					if r.alias.kind != "var" {
						x.unsup(c.call, "pointer into a local value returned")
					}
				}
			}
		}
		k(st, rs)
	}
	f.onPanic = func(st *State, v string) {
		st.frame = caller
		if onp != nil {
			onp(st, v)
			return
		}
		x.raise(st, v)
	}
	st.frame = f
	var ps []*types.Var
	if fi != nil && sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(ps) != len(c.args) {
		x.unsup(c.call, "argument count")
	}
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(ps) {
			for _, r := range f.results {
				st.vars[r] = V{t: x.g.so.zero(r.Type())}
				if x.logV != nil {
					x.logV[r] = true
				}
			}
			x.execList(body.List, st, nil, func(st *State) { x.leave(st) })
			return
		}
		x.declare(st, ps[i], c.args[i], func(st *State) { rec(i+1, st) })
	}
	rec(0, st)
}

// callContract replaces a call by the callee's contract.
func (x *Ex) callContract(c *callee, con *Contract, fi *FuncInfo, st *State, k KVs) {
	for _, r := range con.requires {
		for _, m := range lockReq.FindAllStringSubmatch(r.text, -1) {
			for i, p := range con.params {
				if p == m[2] && i < len(c.args) && !con.acqDone {
					con2 := *con
					con2.acqDone = true
					x.acquire(st, "L:"+m[1], c.args[i].t, func(st *State) { x.callContract(c, &con2, fi, st, k) })
					return
				}
			}
		}
	}
	x.calls[con.key] = true
	if con.extern {
		x.g.use("assumed contract of dependency " + con.key)
	}
	if con.trusted {
		x.g.use("contract of " + con.key + " is assumed, its body is not verified")
	}
	if len(con.params) != len(c.args) {
		x.unsup(c.call, fmt.Sprintf("contract of %s names %d parameters, call has %d", con.key, len(con.params), len(c.args)))
	}
	pre := &Env{vars: map[string]SV{}, st: st, at: map[string]*Env{}}
	for i, p := range con.params {
		if c.args[i].lit != nil && x.g.locks == nil {
			x.unsup(c.call, "function literal given to "+con.key)
		}
		pre.vars[p] = SV{c.args[i].t, c.argT[i]}
		if inList(con.capacity, p) {
			n := c.args[i].cap
			switch n {
			case "full":
				n = x.lenOf(x.g.so.of(c.argT[i]), c.args[i].t)
			case "":
				n = x.fresh("int", "cap")
			}
			pre.vars[p+"_cap"] = SV{n, types.Typ[types.Int]}
		}
	}
	pre.old = pre
	for _, h := range x.con.before[con.key] {
		x.hint(h, x.hintEnv(st, c, con, nil))
	}
	if len(x.onClauses(st, con.key)) > 0 {
		as := map[string]SV{}
		for i := range c.args {
			as[fmt.Sprintf("arg%d", i)] = SV{c.args[i].t, c.argT[i]}
		}
		x.event(st, con.key, as, c.call)
	}
	for _, r := range con.requires {
		x.assert(x.substClause(r, pre), "precondition", con.key+"."+r.name, c.call)
	}
	if x.con.maxbuf != "" && con.maxbuf != "" {
		x.assert(x.subst(con.maxbuf, pre)+" <= "+x.subst(x.con.maxbuf, x.entryEnv), "maxbuf", "size of a buffer made by "+con.key, c.call)
	}
	if fi != nil && x.g.sameSCC(fi.key, x.fi.key) {
		if len(con.decreases) == 0 || len(x.con.decreases) == 0 {
			if !con.diverges && !x.con.diverges {
				x.assert("false", "termination", "recursive call of "+con.key+" without a measure", c.call)
			}
		} else {
			var a, b []string
			for _, d := range con.decreases {
				a = append(a, measureTerm(x.subst(d, pre)))
			}
			for _, d := range x.con.decreases {
				b = append(b, measureTerm(x.subst(d, x.entryEnv)))
			}
			x.assert(fmt.Sprintf("decreases_to!(%s => %s)", strings.Join(b, ", "), strings.Join(a, ", ")), "termination", con.key, c.call)
		}
	}
	// ownership of the arguments
	for i, p := range con.params {
		v := c.args[i]
		if v.reg == "" {
			continue
		}
		switch {
		case inList(con.consumes, p):
			x.giveAway(st, v, c.call)
		case inList(con.borrows, p), inList(con.inout, p), con.aliased(p):
			x.useCheck(st, v, c.call)
		case con.extern:
			x.useCheck(st, v, c.call)
		default:
			x.escape(st, v, "", c.call)
		}
	}
	if st.goN == 0 && x.con.nonblock && !con.nonblock && !con.extern && !con.trusted {
		x.assert("false", "blocking", "calls "+con.key+", which may block", c.call)
	}
	preSt := st.clone()
	old := &Env{vars: pre.vars, st: preSt, at: map[string]*Env{}}
	old.old = old
	normal := func(st *State) {
		x.applyEffects(c, con, st, old, func(st *State, facts []string) {
			post := &Env{vars: map[string]SV{}, st: st, old: old, at: map[string]*Env{}}
			for n, v := range pre.vars {
				post.vars[n] = v
			}
			rs := c.sig.Results()
			var vs []V
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				v := V{t: x.fresh(x.g.so.of(t), "r_"+strings.Map(identRune, lastPart(con.key)))}
				nm := ""
				if i < len(con.results) {
					nm = con.results[i]
					post.vars[nm] = SV{v.t, t}
				}
				if hasRegion(t) {
					if inList(con.fresh, nm) || con.extern {
						x.n++
						v.reg = fmt.Sprintf("fresh#%d", x.n)
					} else {
						v.reg = "ext:result of " + con.key
					}
				}
				facts = append(facts, x.typeFacts(t, v.t, st)...)
				if d := x.g.so.refStruct(t); d != nil && inList(con.fresh, nm) {
					facts = append(facts, fmt.Sprintf("%s != 0 && !%s.dom().contains(%s) && %s.dom().contains(%s)", v.t, x.heapOf(preSt, "H:"+d.short), v.t, x.heapOf(st, "H:"+d.short), v.t))
					st.freshR[v.t] = true
					st.nonnil[v.t] = true
					for a, p := range con.aliases {
						q := strings.SplitN(a, "->", 2)
						for j, n := range con.params {
							if q[0] == nm && n == p && j < len(c.args) {
								st.meta[v.t+"|"+q[1]] = V{reg: c.args[j].reg, cap: c.args[j].cap}
							}
						}
					}
				}
				vs = append(vs, v)
			}
			x.bindOuts(c, con, st, post, &facts, func(st *State) {
				post.st = st
				for _, e := range con.ensures {
					facts = append(facts, x.substClause(e, post))
				}
				if con.panics == "iff" {
					facts = append(facts, "!("+x.subst(con.panicsE, old)+")")
				}
				x.assumeAll(facts, func() {
					for _, h := range x.con.after[con.key] {
						x.hint(h, x.hintEnv(st, c, con, vs))
					}
					k(st, vs)
				})
			})
		})
	}
	if con.panics == "never" {
		normal(st)
		return
	}
	panicB := func(st *State) {
		x.applyEffects(c, con, st, old, func(st *State, facts []string) {
			pv := x.fresh("Val", "pv")
			post := &Env{vars: map[string]SV{"pv": {pv, nil}}, st: st, old: old, at: map[string]*Env{}}
			for n, v := range pre.vars {
				post.vars[n] = v
			}
			facts = append(facts, "val_wf("+pv+")", "!("+pv+" is Nil)")
			if con.panics == "only" {
				facts = append(facts, x.subst(con.panicsE, post))
			}
			x.bindOuts(c, con, st, post, &facts, func(st *State) {
				post.st = st
				for _, e := range con.xensures {
					facts = append(facts, x.substClause(e, post))
				}
				x.assumeAll(facts, func() {
					if c.onPanic != nil {
						c.onPanic(st, pv)
						return
					}
					x.raise(st, pv)
				})
			})
		})
	}
	cond := ""
	if con.panics == "iff" {
		cond = x.let("bool", x.subst(con.panicsE, pre))
	} else {
		cond = x.fresh("bool", "panics")
	}
	x.ite(cond, func() { panicB(st.clone()) }, func() { normal(st.clone()) })
}

func measureTerm(s string) string {
	s = strings.TrimSpace(s)
	if isPosLit(s) || s == "0" {
		return s + "int"
	}
	return s
}

func lastPart(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func inList(l []string, s string) bool {
	for _, q := range l {
		if q == s && s != "" {
			return true
		}
	}
	return false
}

// bindOuts gives parameters written in place a new value named <p>_out.
func (x *Ex) bindOuts(c *callee, con *Contract, st *State, post *Env, facts *[]string, k func(st *State)) {
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(con.inout) {
			k(st)
			return
		}
		for j, p := range con.params {
			if p != con.inout[i] {
				continue
			}
			so := x.g.so.of(c.argT[j])
			nv := x.fresh(so, "out_"+p)
			post.vars[p+"_out"] = SV{nv, c.argT[j]}
			*facts = append(*facts, x.typeFacts(c.argT[j], nv, st)...)
			if so == seqU8 || strings.HasPrefix(so, "Seq<") {
				*facts = append(*facts, fmt.Sprintf("%s.len() == %s.len()", nv, paren(c.args[j].t)))
			}
			if al := c.args[j].alias; al != nil {
				x.storeLV(al, st, V{t: nv}, c.call, func(st *State) { rec(i+1, st) })
				return
			}
			if c.argE[j] == nil {
				rec(i+1, st)
				return
			}
			x.storeInto(c.argE[j], c.args[j], nv, st, func(st *State) { rec(i+1, st) })
			return
		}
		rec(i+1, st)
	}
	rec(0, st)
}

// applyEffects havocs what the callee may modify and gives the frame facts.
func (x *Ex) applyEffects(c *callee, con *Contract, st *State, old *Env, k func(st *State, facts []string)) {
	var facts []string
	type eff struct {
		refs  []string
		preds []string
		all   bool
		alloc bool
	}
	effs := map[string]*eff{}
	get := func(key string) *eff {
		if effs[key] == nil {
			effs[key] = &eff{}
		}
		return effs[key]
	}
	for _, m := range con.modifies {
		key, kind, ex := x.parseMod(m)
		switch kind {
		case "ref":
			get(key).refs = append(get(key).refs, x.subst(ex, old))
		case "pred":
			get(key).preds = append(get(key).preds, x.subst(ex, old))
		default:
			get(key).all = true
		}
	}
	for _, a := range con.allocates {
		get("H:" + x.g.structShort(a)).alloc = true
	}
	for _, key := range sortedKeys(effs) {
		e := effs[key]
		cur := x.heapOf(st, key)
		so := x.heapSort(key)
		if key[:2] != "H:" {
			n := x.fresh(so, "ef_"+strings.Map(identRune, key[2:]))
			st.heap[key] = n
			if x.log != nil {
				x.log[key] = true
			}
			if key[:2] == "V:" {
				for v := range x.g.pr.globals {
					if globalKey(v) == key[2:] {
						facts = append(facts, x.typeFacts(v.Type(), n, st)...)
					}
				}
			}
			continue
		}
		for m := range st.meta {
			ref := m[:strings.Index(m, "|")]
			if strings.HasPrefix(st.meta[m].reg, "borrow:") {
				continue
			}
			if !e.alloc || len(e.refs) > 0 || e.all || len(e.preds) > 0 {
				_ = ref
				delete(st.meta, m)
			}
		}
		if !e.alloc && !e.all && len(e.preds) == 0 {
			n := cur
			for _, r := range e.refs {
				n = fmt.Sprintf("%s.insert(%s, %s)", n, r, x.fresh("S_"+key[2:], "ef_"+key[2:]))
			}
			x.setHeap(st, key, n)
			continue
		}
		n := x.fresh(so, "ef_"+key[2:])
		if x.log != nil {
			x.log[key] = true
		}
		st.heap[key] = n
		facts = append(facts, domLe(cur, n))
		if !e.alloc && !e.all {
			facts = append(facts, domLe(n, cur))
		}
		if !e.all {
			ex := ""
			for _, r := range e.refs {
				ex += fmt.Sprintf(" && r != %s", r)
			}
			for _, p := range e.preds {
				ex += fmt.Sprintf(" && !(%s)", p)
			}
			facts = append(facts, fmt.Sprintf("(forall|r: int| %s.dom().contains(r)%s ==> #[trigger] %s[r] == %s[r])", cur, ex, n, cur))
		}
	}
	k(st, facts)
}

// parseMod: Bucket[e] | Bucket{pred over r} | Bucket* | GHOST | g.pkg.var
func (x *Ex) parseMod(m string) (key, kind, ex string) {
	m = strings.TrimSpace(m)
	if strings.HasPrefix(m, "g.") {
		return "V:" + m[2:], "all", ""
	}
	if _, ok := x.g.sp.ghosts[m]; ok {
		return "G:" + m, "all", ""
	}
	if i := strings.IndexAny(m, "[{"); i > 0 {
		k := "H:" + x.g.structShort(m[:i])
		if m[i] == '[' {
			return k, "ref", m[i+1 : len(m)-1]
		}
		return k, "pred", m[i+1 : len(m)-1]
	}
	return "H:" + x.g.structShort(strings.TrimSuffix(m, "*")), "all", ""
}

func (x *Ex) hintEnv(st *State, c *callee, con *Contract, vs []V) *Env {
	env := x.entryEnvAt(st)
	for i := range c.args {
		env.vars[fmt.Sprintf("arg%d", i)] = SV{c.args[i].t, c.argT[i]}
	}
	for i := range vs {
		env.vars[fmt.Sprintf("res%d", i)] = SV{vs[i].t, c.sig.Results().At(i).Type()}
	}
	if x.hintLocals {
		for v, val := range st.vars {
			if x.frameOwns(st, v) {
				if _, ok := env.vars["loc_"+v.Name()]; !ok {
					env.vars["loc_"+v.Name()] = SV{val.t, v.Type()}
				}
			}
		}
	}
	return env
}

var _ = token.ADD

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}
