package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type Ctx struct {
	brk, cont func(st *State)
	label     string
	up        *Ctx
}

// ---- panics and deferred calls ----

// raise starts panicking with value v in the current frame.
func (x *Ex) raise(st *State, v string) {
	if len(x.guard) > 0 {
		panic(unsupported{token.NoPos, "panic inside a guarded expression"})
	}
	f := st.frame
	st.pan = append(st.pan, panEntry{val: v})
	x.unwind(st, f)
}

// leave returns normally from the current frame; results are already in the result variables.
func (x *Ex) leave(st *State) {
	st.pan = append(st.pan, panEntry{})
	x.unwind(st, st.frame)
}

func (x *Ex) unwind(st *State, f *Frame) {
	if x.cut[f] > 0 {
		// the path leaves the loop whose iterations are being explored
		return
	}
	ds := st.defers[f]
	if len(ds) > 0 {
		d := ds[len(ds)-1]
		st.defers[f] = append([]*deferred(nil), ds[:len(ds)-1]...)
		st.frame = f
		d.run(st, func(st *State) { st.frame = f; x.unwind(st, f) },
			func(st *State, v string) {
				// a deferred call panicked: its value replaces the current one
				st.pan[len(st.pan)-1] = panEntry{val: v}
				st.frame = f
				x.unwind(st, f)
			})
		return
	}
	top := st.pan[len(st.pan)-1]
	st.pan = st.pan[: len(st.pan)-1 : len(st.pan)-1]
	if top.val == "" || top.recovered {
		var rs []V
		for _, r := range f.results {
			rs = append(rs, x.varValue(st, r))
		}
		f.ret(st, rs)
		return
	}
	f.onPanic(st, top.val)
}

func (x *Ex) varValue(st *State, v *types.Var) V {
	if r, ok := st.boxed[v]; ok {
		d := x.g.so.structSort(named(v.Type()))
		return V{t: x.let(d.name, fmt.Sprintf("%s[%s]", x.heapOf(st, "H:"+d.short), r))}
	}
	return st.vars[v]
}

// ---- statements ----

func (x *Ex) execList(ss []ast.Stmt, st *State, c *Ctx, k func(st *State)) {
	if len(ss) == 0 {
		k(st)
		return
	}
	x.exec(ss[0], st, c, func(st *State) { x.execList(ss[1:], st, c, k) })
}

func (x *Ex) exec(s ast.Stmt, st *State, c *Ctx, k func(st *State)) {
	if s == nil {
		k(st)
		return
	}
	x.curNode = s
	switch s := s.(type) {
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.execList(s.List, st, c, k)
	case *ast.ExprStmt:
		if u, ok := ast.Unparen(s.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.evalRecv(u, st, func(st *State, _, _ V) { k(st) })
			return
		}
		if call, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			x.evalCall(call, st, func(st *State, _ []V) { k(st) })
			return
		}
		x.eval(s.X, st, func(st *State, _ V) { k(st) })
	case *ast.AssignStmt:
		x.execAssign(s, st, k)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.evalLV(s.X, st, func(st *State, lv *LV) {
			x.loadLV(lv, st, s, func(st *State, v V) {
				x.arith(st, op, v.t, "1int", lv.typ, s, func(st *State, r V) { x.storeLV(lv, st, r, s, k) })
			})
		})
	case *ast.DeclStmt:
		x.execDecl(s, st, k)
	case *ast.IfStmt:
		x.exec(s.Init, st, c, func(st *State) {
			x.evalCond(s.Cond, st,
				func(st *State) { x.exec(s.Body, st, c, k) },
				func(st *State) {
					if s.Else == nil {
						k(st)
					} else {
						x.exec(s.Else, st, c, k)
					}
				})
		})
	case *ast.ReturnStmt:
		x.execReturn(s, st)
	case *ast.ForStmt:
		x.exec(s.Init, st, c, func(st *State) { x.execFor(s, st, c, k, "") })
	case *ast.RangeStmt:
		x.execRange(s, st, c, k, "")
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt:
			x.exec(b.Init, st, c, func(st *State) { x.execFor(b, st, c, k, s.Label.Name) })
		case *ast.RangeStmt:
			x.execRange(b, st, c, k, s.Label.Name)
		default:
			x.exec(s.Stmt, st, &Ctx{brk: k, label: s.Label.Name, up: c}, k)
		}
	case *ast.BranchStmt:
		x.execBranch(s, st, c)
	case *ast.SwitchStmt:
		x.exec(s.Init, st, c, func(st *State) { x.execSwitch(s, st, c, k) })
	case *ast.TypeSwitchStmt:
		x.exec(s.Init, st, c, func(st *State) { x.execTypeSwitch(s, st, c, k) })
	case *ast.DeferStmt:
		x.prepareCall(s.Call, st, func(st *State, cl *callee) {
			cl.isDefer = true
			d := &deferred{run: func(st *State, k func(st *State), onp func(st *State, v string)) {
				cl.onPanic = onp
				x.doCall(cl, st, func(st *State, _ []V) { k(st) })
			}}
			st.defers[st.frame] = append(append([]*deferred(nil), st.defers[st.frame]...), d)
			k(st)
		})
	case *ast.GoStmt:
		x.prepareCall(s.Call, st, func(st *State, cl *callee) {
			if x.g.locks != nil {
				x.goCall(cl, st, k)
				return
			}
			x.execGo(s, cl, st, k)
		})
	case *ast.SendStmt:
		ct := x.typeOf(st, s.Chan)
		x.eval(s.Chan, st, func(st *State, ch V) {
			x.evalTo(s.Value, elemType(ct), st, func(st *State, v V) {
				x.blocks(st, nil, s)
				x.doSend(st, ch, v, elemType(ct), s, k)
			})
		})
	case *ast.SelectStmt:
		x.execSelect(s, st, c, k)
	default:
		x.unsup(s, fmt.Sprintf("statement %T", s))
	}
}

func (x *Ex) execBranch(s *ast.BranchStmt, st *State, c *Ctx) {
	for q := c; q != nil; q = q.up {
		if s.Label != nil && q.label != s.Label.Name {
			continue
		}
		switch s.Tok {
		case token.BREAK:
			if q.brk != nil {
				q.brk(st)
				return
			}
		case token.CONTINUE:
			if q.cont != nil {
				q.cont(st)
				return
			}
		}
	}
	x.unsup(s, "branch "+s.Tok.String())
}

func (x *Ex) execReturn(s *ast.ReturnStmt, st *State) {
	f := st.frame
	set := func(st *State, vs []V) {
		for i, r := range f.results {
			x.storeVarBoxed(st, r, vs[i])
		}
		x.leave(st)
	}
	if len(s.Results) == 0 {
		x.leave(st)
		return
	}
	if len(s.Results) == 1 && len(f.results) > 1 {
		call, ok := ast.Unparen(s.Results[0]).(*ast.CallExpr)
		if !ok {
			x.unsup(s, "return")
		}
		tup, _ := x.typeOf(st, call).(*types.Tuple)
		x.evalCall(call, st, func(st *State, vs []V) {
			var rec func(i int, st *State, acc []V)
			rec = func(i int, st *State, acc []V) {
				if i == len(vs) {
					set(st, acc)
					return
				}
				x.assignConv(st, vs[i], tup.At(i).Type(), f.results[i].Type(), s, func(st *State, v V) { rec(i+1, st, append(acc[:i:i], v)) })
			}
			rec(0, st, nil)
		})
		return
	}
	var rec func(i int, st *State, acc []V)
	rec = func(i int, st *State, acc []V) {
		if i == len(s.Results) {
			set(st, acc)
			return
		}
		x.markAppendBack(nil, s.Results[i])
		x.evalTo(s.Results[i], f.results[i].Type(), st, func(st *State, v V) { rec(i+1, st, append(acc[:i:i], v)) })
	}
	rec(0, st, nil)
}

func (x *Ex) storeVarBoxed(st *State, v *types.Var, val V) {
	if r, ok := st.boxed[v]; ok {
		d := x.g.so.structSort(named(v.Type()))
		x.setHeap(st, "H:"+d.short, fmt.Sprintf("%s.insert(%s, %s)", x.heapOf(st, "H:"+d.short), r, val.t))
		return
	}
	val.t = x.let(x.g.so.of(v.Type()), val.t)
	x.setVar(st, v, val)
}

// declare introduces a new local variable.
func (x *Ex) declare(st *State, v *types.Var, val V, k func(st *State)) {
	if v == nil || v.Name() == "_" {
		k(st)
		return
	}
	if x.g.boxedVar(v) {
		d := x.g.so.structSort(named(v.Type()))
		x.alloc(st, d, val.t, func(st *State, r V) {
			st.boxed[v] = r.t
			k(st)
		})
		return
	}
	if x.logV != nil {
		x.logV[v] = true
	}
	val.t = x.let(x.g.so.of(v.Type()), val.t)
	st.vars[v] = val
	st.wrote = &wroteList{v, st.wrote}
	k(st)
}

func (x *Ex) execDecl(s *ast.DeclStmt, st *State, k func(st *State)) {
	gd := s.Decl.(*ast.GenDecl)
	if gd.Tok != token.VAR {
		k(st)
		return
	}
	var recS func(i int, st *State)
	recS = func(i int, st *State) {
		if i == len(gd.Specs) {
			k(st)
			return
		}
		vs := gd.Specs[i].(*ast.ValueSpec)
		var vars []*types.Var
		for _, n := range vs.Names {
			v, _ := x.info(st).Defs[n].(*types.Var)
			vars = append(vars, v)
		}
		if len(vs.Values) == 1 && len(vars) > 1 {
			x.evalTuple(vs.Values[0], st, func(st *State, rs []V, ts []types.Type) {
				x.declAll(st, vars, rs, 0, func(st *State) { recS(i+1, st) })
			})
			return
		}
		var rec func(j int, st *State)
		rec = func(j int, st *State) {
			if j == len(vars) {
				recS(i+1, st)
				return
			}
			if vars[j] == nil {
				rec(j+1, st)
				return
			}
			if len(vs.Values) == 0 && isWaitGroup(vars[j].Type()) {
				x.declare(st, vars[j], V{t: x.fresh("int", "wg")}, func(st *State) { rec(j+1, st) })
				return
			}
			if len(vs.Values) == 0 {
				z := V{t: x.g.so.zero(vars[j].Type())}
				if x.ptrVal(vars[j].Type()) {
					z.alias = &LV{kind: "ro", idx: z}
				}
				x.declare(st, vars[j], z, func(st *State) { rec(j+1, st) })
				return
			}
			x.markAppendBack(nil, vs.Values[j])
			x.evalTo(vs.Values[j], vars[j].Type(), st, func(st *State, v V) {
				x.declare(st, vars[j], v, func(st *State) { rec(j+1, st) })
			})
		}
		rec(0, st)
	}
	recS(0, st)
}

func (x *Ex) declAll(st *State, vars []*types.Var, rs []V, i int, k func(st *State)) {
	if i == len(vars) {
		k(st)
		return
	}
	if vars[i] == nil {
		x.declAll(st, vars, rs, i+1, k)
		return
	}
	x.declare(st, vars[i], rs[i], func(st *State) { x.declAll(st, vars, rs, i+1, k) })
}

// evalTuple evaluates a multi-valued expression.
func (x *Ex) evalTuple(e ast.Expr, st *State, k func(st *State, rs []V, ts []types.Type)) {
	switch y := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		tup, ok := x.typeOf(st, y).(*types.Tuple)
		if !ok {
			x.unsup(e, "tuple")
		}
		var ts []types.Type
		for i := 0; i < tup.Len(); i++ {
			ts = append(ts, tup.At(i).Type())
		}
		x.evalCall(y, st, func(st *State, rs []V) { k(st, rs, ts) })
	case *ast.IndexExpr:
		mt, ok := x.typeOf(st, y.X).Underlying().(*types.Map)
		if !ok {
			x.unsup(e, "tuple index")
		}
		x.eval(y.X, st, func(st *State, m V) {
			x.evalTo(y.Index, mt.Key(), st, func(st *State, i V) {
				x.indexValue(st, m, x.typeOf(st, y.X), i, y, func(st *State, v V) {
					c := x.let("bool", fmt.Sprintf("%s.m.dom().contains(%s)", m.t, i.t))
					k(st, []V{v, {t: c}}, []types.Type{mt.Elem(), types.Typ[types.Bool]})
				})
			})
		})
	case *ast.TypeAssertExpr:
		x.evalTypeAssert(y, st, true, func(st *State, v, ok V) {
			k(st, []V{v, ok}, []types.Type{x.typeOf(st, y.Type), types.Typ[types.Bool]})
		})
	case *ast.UnaryExpr:
		if y.Op == token.ARROW {
			x.evalRecv(y, st, func(st *State, v, ok V) {
				k(st, []V{v, ok}, []types.Type{elemType(x.typeOf(st, y.X)), types.Typ[types.Bool]})
			})
			return
		}
		x.unsup(e, "tuple")
	default:
		x.unsup(e, "tuple")
	}
}

func (x *Ex) markAppendBack(lhs, rhs ast.Expr) {
	call, ok := ast.Unparen(rhs).(*ast.CallExpr)
	if !ok || len(call.Args) == 0 {
		return
	}
	if id, ok := ast.Unparen(call.Fun).(*ast.Ident); !ok || id.Name != "append" {
		return
	}
	if lhs == nil {
		return
	}
	if x.g.pr.text(lhs) == x.g.pr.text(call.Args[0]) {
		x.appendBack[call] = true
	}
}

func (x *Ex) execAssign(s *ast.AssignStmt, st *State, k func(st *State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
			token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		x.evalLV(s.Lhs[0], st, func(st *State, lv *LV) {
			x.loadLV(lv, st, s, func(st *State, a V) {
				x.eval(s.Rhs[0], st, func(st *State, b V) {
					x.binop(op, st, a, b, lv.typ, x.typeOf(st, s.Rhs[0]), lv.typ, s, func(st *State, r V) { x.storeLV(lv, st, r, s, k) })
				})
			})
		})
		return
	}
	assignOne := func(st *State, l ast.Expr, v V, from types.Type, k func(st *State)) {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				k(st)
				return
			}
			if dv, ok := x.info(st).Defs[id].(*types.Var); ok && s.Tok == token.DEFINE {
				x.assignConv(st, v, from, dv.Type(), l, func(st *State, v V) { x.declare(st, dv, v, k) })
				return
			}
			if dv := x.varOf(st, id); dv != nil && x.g.pr.globals[dv] == nil && x.ptrVal(dv.Type()) {
				x.assignConv(st, v, from, dv.Type(), l, func(st *State, v V) { x.setPtr(st, dv, v, s); k(st) })
				return
			}
		}
		x.evalLV(l, st, func(st *State, lv *LV) {
			x.assignConv(st, v, from, lv.typ, l, func(st *State, v V) { x.storeLV(lv, st, v, s, k) })
		})
	}
	if len(s.Lhs) > 1 && len(s.Rhs) == 1 {
		x.evalTuple(s.Rhs[0], st, func(st *State, rs []V, ts []types.Type) {
			var rec func(i int, st *State)
			rec = func(i int, st *State) {
				if i == len(s.Lhs) {
					k(st)
					return
				}
				assignOne(st, s.Lhs[i], rs[i], ts[i], func(st *State) { rec(i+1, st) })
			}
			rec(0, st)
		})
		return
	}
	for i := range s.Lhs {
		x.markAppendBack(s.Lhs[i], s.Rhs[i])
	}
	x.evalList(s.Rhs, st, func(st *State, vs []V) {
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(s.Lhs) {
				k(st)
				return
			}
			assignOne(st, s.Lhs[i], vs[i], x.info(st).TypeOf(s.Rhs[i]), func(st *State) { rec(i+1, st) })
		}
		rec(0, st)
	})
}

func (x *Ex) execSwitch(s *ast.SwitchStmt, st *State, c *Ctx, k func(st *State)) {
	nc := &Ctx{brk: k, up: c}
	var clauses []*ast.CaseClause
	for _, b := range s.Body.List {
		clauses = append(clauses, b.(*ast.CaseClause))
	}
	for _, cl := range clauses {
		for _, b := range cl.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				x.unsup(br, "fallthrough")
			}
		}
	}
	run := func(st *State, tag V, tagT types.Type) {
		var rec func(i, j int, st *State)
		rec = func(i, j int, st *State) {
			if i == len(clauses) {
				for _, cl := range clauses {
					if cl.List == nil {
						x.execList(cl.Body, st, nc, k)
						return
					}
				}
				k(st)
				return
			}
			cl := clauses[i]
			if j >= len(cl.List) {
				rec(i+1, 0, st)
				return
			}
			hit := func(st *State) { x.execList(cl.Body, st, nc, k) }
			miss := func(st *State) { rec(i, j+1, st) }
			if tagT == nil {
				x.evalCond(cl.List[j], st, hit, miss)
				return
			}
			x.eval(cl.List[j], st, func(st *State, v V) {
				x.equal(st, tag, v, tagT, x.typeOf(st, cl.List[j]), cl.List[j], func(st *State, cond string) {
					cc := x.let("bool", cond)
					x.ite(cc, func() { hit(st.clone()) }, func() { miss(st.clone()) })
				})
			})
		}
		rec(0, 0, st)
	}
	if s.Tag == nil {
		run(st, V{}, nil)
		return
	}
	x.eval(s.Tag, st, func(st *State, v V) { run(st, v, x.typeOf(st, s.Tag)) })
}

func (x *Ex) execTypeSwitch(s *ast.TypeSwitchStmt, st *State, c *Ctx, k func(st *State)) {
	nc := &Ctx{brk: k, up: c}
	var xe ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		xe = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		xe = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	from := x.typeOf(st, xe)
	x.eval(xe, st, func(st *State, v V) {
		var clauses []*ast.CaseClause
		for _, b := range s.Body.List {
			clauses = append(clauses, b.(*ast.CaseClause))
		}
		body := func(st *State, cl *ast.CaseClause, val V, k2 func(st *State)) {
			iv, _ := x.info(st).Implicits[cl].(*types.Var)
			x.declare(st, iv, val, func(st *State) { x.execList(cl.Body, st, nc, k2) })
		}
		var rec func(i, j int, st *State)
		rec = func(i, j int, st *State) {
			if i == len(clauses) {
				for _, cl := range clauses {
					if cl.List == nil {
						body(st, cl, v, k)
						return
					}
				}
				k(st)
				return
			}
			cl := clauses[i]
			if j >= len(cl.List) {
				rec(i+1, 0, st)
				return
			}
			var cond, val string
			if id, ok := cl.List[j].(*ast.Ident); ok && id.Name == "nil" {
				cond, val = v.t+" is Nil", v.t
				if x.g.so.of(from) != "Val" {
					cond = v.t + " == 0"
				}
			} else {
				cond, val = x.typeTest(st, v.t, from, x.typeOf(st, cl.List[j]))
			}
			if len(cl.List) > 1 {
				val = v.t
			}
			cc := x.let("bool", cond)
			x.ite(cc, func() {
				st2 := st.clone()
				t := from
				if len(cl.List) == 1 && !strings.HasSuffix(cond, " is Nil") {
					t = x.typeOf(st2, cl.List[0])
				}
				vt := x.let(x.g.so.of(t), val)
				x.withFacts(st2, t, vt, func(st *State) { body(st, cl, V{t: vt}, k) })
			}, func() { rec(i, j+1, st.clone()) })
		}
		rec(0, 0, st)
	})
}

// ---- channels ----

func chanKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (x *Ex) doSend(st *State, ch, v V, et types.Type, n ast.Node, k func(st *State)) {
	if ci := x.g.sp.chaninv[chanKey(et)]; ci != nil {
		env := &Env{vars: map[string]SV{"c": {ch.t, nil}, "v": {v.t, et}}, st: st}
		x.assert(x.subst(ci.text, env), "chaninv", "value sent on the channel", n)
	}
	x.event(st, "send", map[string]SV{"c": {ch.t, nil}, "v": {v.t, et}}, n)
	for _, s := range x.con.sends {
		env := &Env{vars: map[string]SV{}, st: st}
		for k, v := range x.entryEnv.vars {
			env.vars[k] = v
		}
		env.old = x.entryEnv
		env.vars["c"], env.vars["v"] = SV{ch.t, nil}, SV{v.t, et}
		x.assert(x.subst(s.text, env), "sends", s.name, n)
	}
	if isByteSlice(et) {
		// the receiver owns the bytes from now on
		x.giveAway(st, v, n)
	} else if v.reg != "" {
		x.escape(st, v, "", n)
	} else if x.g.so.refStruct(et) != nil {
		// the receiver owns an object made here, and the bytes it refers to
		for _, key := range sortedKeys(st.meta) {
			if m := st.meta[key]; strings.HasPrefix(key, v.t+"|") {
				x.giveAway(st, m, n)
			}
		}
		if st.freshR[v.t] {
			x.addEsc(st, "given:"+v.t)
		}
	}
	if nm := "CH_" + strings.ReplaceAll(strings.TrimPrefix(chanKey(et), "*"), ".", "_"); x.g.sp.ghosts[nm] != "" {
		// the values sent, by type, in order
		x.setHeap(st, "G:"+nm, fmt.Sprintf("%s.push((%s, %s))", x.heapOf(st, "G:"+nm), ch.t, v.t))
	}
	k(st)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (x *Ex) giveAway(st *State, v V, n ast.Node) {
	if v.reg == "" {
		return
	}
	if strings.HasPrefix(v.reg, "param:") && !x.consumesOK(v.reg[6:]) || strings.HasPrefix(v.reg, "borrow:") || strings.HasPrefix(v.reg, "ext:") && !x.consumesOK(v.reg[4:]) {
		x.assert("false", "ownership", "bytes of the caller are given away", n)
	}
	if st.esc["consumed:"+v.reg] {
		x.assert("false", "ownership", "buffer given away twice", n)
	}
	if st.esc["escaped:"+v.reg] {
		x.assert("false", "ownership", "buffer given away while still referenced", n)
	}
	x.addEsc(st, "consumed:"+v.reg)
}

func (x *Ex) consumesOK(p string) bool {
	if x.con == nil {
		return false
	}
	for _, q := range x.con.consumes {
		if q == p || strings.HasPrefix(p, q+".") || strings.HasPrefix(p, "p_"+q+".") {
			return true
		}
	}
	return false
}

func (x *Ex) addEsc(st *State, key string) {
	st.esc[key] = true
	if x.logE != nil {
		x.logE[key] = true
	}
}

func (x *Ex) evalRecv(e *ast.UnaryExpr, st *State, k func(st *State, v, ok V)) {
	ct := x.typeOf(st, e.X)
	if ch, ok := x.recvPre[e]; ok {
		delete(x.recvPre, e)
		x.recvFrom(st, ch, elemType(ct), k)
		return
	}
	x.eval(e.X, st, func(st *State, ch V) {
		x.blocks(st, []string{ch.t}, e)
		x.recvFrom(st, ch, elemType(ct), k)
	})
}

func (x *Ex) recvFrom(st *State, ch V, et types.Type, k func(st *State, v, ok V)) {
	so := x.g.so.of(et)
	v := x.fresh(so, "rcv")
	ok := x.fresh("bool", "rok")
	facts := x.typeFacts(et, v, st)
	if ci := x.g.sp.chaninv[chanKey(et)]; ci != nil {
		env := &Env{vars: map[string]SV{"c": {ch.t, nil}, "v": {v, et}}, st: st}
		facts = append(facts, x.subst(ci.text, env))
	}
	r := V{t: v}
	if hasRegion(et) {
		x.n++
		r.reg = fmt.Sprintf("fresh#%d", x.n)
	}
	x.received(st, ch.t, v, et)
	x.assumeAll(facts, func() { k(st, r, V{t: ok}) })
}

// execSelect: the channel operands and the values to send are evaluated once, in order, before one case is chosen.
func (x *Ex) execSelect(s *ast.SelectStmt, st *State, c *Ctx, k func(st *State)) {
	nc := &Ctx{brk: k, up: c}
	type ent struct {
		cl    *ast.CommClause
		ch, v V
		et    types.Type
		recv  *ast.UnaryExpr
	}
	var cs []*ent
	hasDefault := false
	for _, b := range s.Body.List {
		cl := b.(*ast.CommClause)
		cs = append(cs, &ent{cl: cl})
		if cl.Comm == nil {
			hasDefault = true
		}
	}
	if len(cs) == 0 {
		x.blocks(st, nil, s)
		x.leaf()
		return
	}
	run := func(e *ent, st *State) {
		body := func(st *State) { x.execList(e.cl.Body, st, nc, k) }
		switch cm := e.cl.Comm.(type) {
		case nil:
			// no channel was ready
			for _, o := range cs {
				if o.recv != nil {
					x.record(st, "EMPTY", ".insert(%s)", o.ch.t)
				}
			}
			body(st)
		case *ast.SendStmt:
			x.doSend(st, e.ch, e.v, e.et, cm, body)
		default:
			x.recvPre[e.recv] = e.ch
			x.exec(cm, st, nc, body)
		}
	}
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(cs)-1 {
			run(cs[i], st)
			return
		}
		ch := x.fresh("bool", "sel")
		x.ite(ch, func() { run(cs[i], st.clone()) }, func() { rec(i+1, st.clone()) })
	}
	var pre func(i int, st *State)
	pre = func(i int, st *State) {
		if i == len(cs) {
			if !hasDefault {
				var arms []string
				for _, o := range cs {
					if o.recv != nil {
						arms = append(arms, o.ch.t)
					}
				}
				x.blocks(st, arms, s)
			}
			rec(0, st)
			return
		}
		e := cs[i]
		var rx ast.Expr
		switch cm := e.cl.Comm.(type) {
		case nil:
			pre(i+1, st)
			return
		case *ast.SendStmt:
			e.et = elemType(x.typeOf(st, cm.Chan))
			x.eval(cm.Chan, st, func(st *State, ch V) {
				x.evalTo(cm.Value, e.et, st, func(st *State, v V) {
					e.ch, e.v = ch, v
					pre(i+1, st)
				})
			})
			return
		case *ast.ExprStmt:
			rx = cm.X
		case *ast.AssignStmt:
			rx = cm.Rhs[0]
		}
		u, ok := ast.Unparen(rx).(*ast.UnaryExpr)
		if !ok || u.Op != token.ARROW {
			x.unsup(e.cl, "select case")
		}
		e.recv = u
		x.eval(u.X, st, func(st *State, ch V) {
			e.ch = ch
			pre(i+1, st)
		})
	}
	pre(0, st)
}

// ---- loops ----

type loopInfo struct {
	node  ast.Node
	spec  *LoopSpec
	idx   string            // hidden index variable term
	acc   map[string]string // value of an accumulating local before the loop
	accV  map[string]*types.Var
	flags []loopFlag
	cond  ast.Expr
	idxV  *types.Var // the variable that counts the iterations of a for loop
	round bool       // idx counts the rounds of a for loop, no local does
	seq   string     // sequence ranged over
	keys  string     // enumeration of the map's keys
	label string
}

func (x *Ex) loopSpec(n ast.Node) *LoopSpec {
	ord, ok := x.loopOrd[n]
	if !ok {
		ord = len(x.loopOrd) + 1
		x.loopOrd[n] = ord
	}
	if x.con == nil {
		return nil
	}
	return x.con.loops[ord]
}

// dryRun finds out what a loop iteration may modify.
func (x *Ex) dryRun(run func()) (map[string]bool, map[*types.Var]bool, map[string]bool) {
	sl, slv, sle := x.log, x.logV, x.logE
	x.log, x.logV, x.logE = map[string]bool{}, map[*types.Var]bool{}, map[string]bool{}
	x.dry++
	sg := x.guard
	x.guard = nil
	run()
	x.guard = sg
	x.dry--
	l, lv, le := x.log, x.logV, x.logE
	x.log, x.logV, x.logE = sl, slv, sle
	if sl != nil {
		for k := range l {
			sl[k] = true
		}
		for k := range lv {
			slv[k] = true
		}
		for k := range le {
			sle[k] = true
		}
	}
	return l, lv, le
}

// havoc replaces everything in the given sets by unknown values and continues.
func (x *Ex) havoc(st *State, keys map[string]bool, vars map[*types.Var]bool, esc map[string]bool, k func(st *State)) {
	var facts []string
	for _, key := range sortedKeys(keys) {
		old := x.heapOf(st, key)
		so := x.heapSort(key)
		nv := x.fresh(so, "hv_"+strings.Map(identRune, key[2:]))
		st.heap[key] = nv
		if key[:2] == "H:" {
			facts = append(facts, domLe(old, nv))
		}
		if key[:2] == "V:" {
			for v := range x.g.pr.globals {
				if globalKey(v) == key[2:] {
					facts = append(facts, x.typeFacts(v.Type(), nv, st)...)
				}
			}
		}
		if x.log != nil {
			x.log[key] = true
		}
		if key[:2] == "H:" {
			for m := range st.meta {
				delete(st.meta, m)
			}
		}
	}
	var vs []*types.Var
	for v := range vars {
		if _, ok := st.vars[v]; ok {
			vs = append(vs, v)
		}
	}
	sortVars(vs)
	for _, v := range vs {
		old := st.vars[v]
		nv := x.fresh(x.g.so.of(v.Type()), "lv_"+strings.Map(identRune, v.Name()))
		n := V{t: nv}
		if old.alias != nil {
			n.alias = &LV{kind: "lost", v: v}
		}
		if hasRegion(v.Type()) {
			if old.reg == "" || strings.HasPrefix(old.reg, "fresh#") {
				x.n++
				n.reg = fmt.Sprintf("fresh#%d", x.n)
			} else {
				n.reg = old.reg
			}
		}
		x.setVar(st, v, n)
		facts = append(facts, x.typeFacts(v.Type(), nv, st)...)
	}
	for e := range esc {
		st.esc[e] = true
	}
	x.assumeAll(facts, func() { k(st) })
}

func identRune(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
		return r
	}
	return '_'
}

func domLe(old, nv string) string {
	return fmt.Sprintf("(forall|r: int| #[trigger] %s.dom().contains(r) ==> %s.dom().contains(r))", old, nv)
}

func isEmptySeq(t string) bool {
	return t == "Seq::<u8>::empty()" || t == "Seq::<int>::empty()"
}

func sortVars(vs []*types.Var) {
	for i := range vs {
		for j := i; j > 0 && vs[j].Pos() < vs[j-1].Pos(); j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}

func (x *Ex) loopEnv(st *State, li *loopInfo, mod map[*types.Var]bool) *Env {
	env := x.entryEnvAt(st)
	if li.spec == nil {
		return env
	}
	used := map[*types.Var]bool{}
	bind := func(m Meta, v *types.Var) {
		used[v] = true
		t := x.varValue(st, v).t
		if m.acc {
			if _, ok := li.acc[m.name]; !ok {
				if li.acc == nil {
					li.acc, li.accV = map[string]string{}, map[string]*types.Var{}
				}
				li.acc[m.name], li.accV[m.name] = t, v
			}
			if a := li.acc[m.name]; !isEmptySeq(a) {
				t = fmt.Sprintf("%s.skip(%s.len() as int)", paren(t), paren(a))
			}
		}
		env.vars[m.name] = SV{t, v.Type()}
	}
	var cand []*types.Var
	seen := map[*types.Var]bool{}
	for v := range st.vars {
		if x.frameOwns(st, v) {
			cand = append(cand, v)
			seen[v] = true
		}
	}
	for v := range st.boxed {
		if !seen[v] && x.frameOwns(st, v) {
			cand = append(cand, v)
		}
	}
	// a local of the body is none of the loop's
	var body *ast.BlockStmt
	switch n := li.node.(type) {
	case *ast.ForStmt:
		body = n.Body
	case *ast.RangeStmt:
		body = n.Body
	}
	if body != nil {
		outer := cand[:0]
		for _, v := range cand {
			if v.Pos() < body.Pos() || v.Pos() > body.End() {
				outer = append(outer, v)
			}
		}
		cand = outer
	}
	sortVars(cand)
	var open []Meta
	for _, m := range li.spec.metas {
		if m.idx {
			v := li.idxV
			if li.round {
				for _, c := range cand {
					if c.Name() == m.name && mod[c] && x.g.so.of(c.Type()) == "int" {
						v = c
					}
				}
			}
			if v != nil {
				env.vars[m.name] = SV{x.varValue(st, v).t, v.Type()}
			} else {
				env.vars[m.name] = SV{li.idx, nil}
			}
			continue
		}
		if m.cond {
			env.vars[m.name] = SV{x.flagCond(li.node, st), nil}
			continue
		}
		if m.keys {
			env.vars[m.name] = SV{li.keys, nil}
			continue
		}
		if m.seq {
			if li.seq == "" {
				x.unsup(li.node, "cannot tell what the loop goes over")
			}
			env.vars[m.name] = SV{li.seq, nil}
			continue
		}
		if m.obj {
			env.vars[m.name] = x.objInScope(st, m.sort, cand)
			continue
		}
		var hit *types.Var
		for _, v := range cand {
			if v.Name() == m.name && (m.sort == "" || x.ofSort(v, m.sort)) {
				hit = v
			}
		}
		if r, ok := li.node.(*ast.RangeStmt); ok && hit != nil && li.idx != "" && !li.round {
			if id, ok := r.Key.(*ast.Ident); ok && x.varOf(st, id) == hit {
				hit = nil
			}
		}
		switch {
		case hit != nil:
			bind(m, hit)
		case li.idx != "" && !li.round && (m.sort == "" || m.sort == "int"):
			// the loop counts with a hidden index instead
			env.vars[m.name] = SV{li.idx, nil}
		default:
			open = append(open, m)
		}
	}
	for _, f := range li.flags {
		used[f.v] = true
	}
	if r, ok := li.node.(*ast.RangeStmt); ok {
		for _, v := range cand {
			if v.Pos() > r.Pos() && v.Pos() < r.End() {
				used[v] = true
			}
		}
	}
	for _, m := range open {
		var c1, c2 []*types.Var
		for _, v := range cand {
			if used[v] || m.sort != "" && !x.ofSort(v, m.sort) {
				continue
			}
			c2 = append(c2, v)
			if mod[v] {
				c1 = append(c1, v)
			}
		}
		switch {
		case m.sort == "bool" && len(c1) != 1 && li.idx != "" && !li.round:
			// no flag for the first round: the hidden index tells
			env.vars[m.name] = SV{"(" + li.idx + " == 0)", nil}
		case len(c1) == 1:
			bind(m, c1[0])
		case len(c1) == 0 && len(c2) == 1:
			bind(m, c2[0])
		default:
			x.unsup(li.node, "cannot tell which local plays the role of "+m.name+" in the loop invariant")
		}
	}
	return env
}

// ofSort: the local has this sort, or the (pointer to the) named type pkg_Type.
func (x *Ex) ofSort(v *types.Var, sort string) bool {
	if x.g.so.of(v.Type()) == sort {
		return true
	}
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := named(t)
	return n != nil && strings.ReplaceAll(qname(n), ".", "_") == sort
}

// flagCond is the condition of a loop that tests nothing but a local flag.
func (x *Ex) flagCond(n ast.Node, st *State) string {
	f, ok := n.(*ast.ForStmt)
	if !ok {
		return "true"
	}
	e, neg := ast.Unparen(f.Cond), false
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		e, neg = ast.Unparen(u.X), true
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return "true"
	}
	v := x.varOf(st, id)
	if v == nil || !x.frameOwns(st, v) {
		return "true"
	}
	t := x.varValue(st, v).t
	if neg {
		return "(!" + t + ")"
	}
	return t
}

// objInScope finds the object of a type that the locals refer to.
func (x *Ex) objInScope(st *State, short string, cand []*types.Var) SV {
	var all []*types.Var
	for v := range st.vars {
		all = append(all, v)
	}
	for v := range st.boxed {
		all = append(all, v)
	}
	sortVars(all)
	for _, vs := range [][]*types.Var{cand, all} {
		var r []SV
		for _, v := range vs {
			var sv SV
			if ref, ok := st.boxed[v]; ok {
				sv = SV{ref, types.NewPointer(v.Type())}
			} else if x.g.so.isRef(v.Type()) {
				sv = SV{st.vars[v].t, v.Type()}
			} else {
				continue
			}
			if d := x.g.so.refStruct(sv.typ); d == nil || d.short != short {
				continue
			}
			if len(r) == 0 || r[0].t != sv.t {
				r = append(r, sv)
			}
		}
		if len(r) == 1 {
			return r[0]
		}
	}
	panic(specErr{"no single " + short + " in scope"})
}

func (x *Ex) frameOwns(st *State, v *types.Var) bool {
	f := st.frame
	if f.fn == nil {
		return true
	}
	d := f.fn.decl
	return v.Pos() >= d.Pos() && v.Pos() <= d.End()
}

// runLoop is the common part: invariants around an iteration.
//
//	head(st, enter, exit): evaluates the condition
//	step(st, k): the post statement
func (x *Ex) runLoop(li *loopInfo, st *State, c *Ctx, k func(st *State), auto func(st *State) []string,
	head func(st *State, enter, exit func(st *State)), body func(st *State, c *Ctx, k func(st *State)), step func(st *State, k func(st *State)), measure func(st *State) string) {
	spec := li.spec
	startIdx := li.idx
	// what an iteration may change: explored from a state in which everything it assigns is
	// arbitrary; again should it change a local that was taken to be fixed
	mod, modV, modE := map[string]bool{}, map[*types.Var]bool{}, map[string]bool{}
	loose := map[*types.Var]bool{}
	// what became of the bytes a local refers to at the end of an iteration
	fate := map[*types.Var]map[string]bool{}
	for v := range x.assignedIn(li.node, st) {
		// a pointer to a known place stays the same: what it points to is another variable
		if old, ok := st.vars[v]; ok && old.alias == nil {
			loose[v] = true
		}
	}
	for again := true; again; {
		m, _, e := x.dryRun(func() {
			if x.cut == nil {
				x.cut = map[*Frame]int{}
			}
			f := st.frame
			x.cut[f]++
			defer func() { x.cut[f]-- }()
			li2 := *li
			x.havoc(st.clone(), mod, loose, modE, func(s2 *State) {
				s2.wrote = nil
				head(s2, func(s3 *State) {
					end := func(s4 *State) {
						step(s4, func(s5 *State) {
							for w := s5.wrote; w != nil; w = w.next {
								modV[w.v] = true
							}
							for v := range modV {
								for _, f := range []string{"consumed:", "escaped:"} {
									if r := s5.vars[v].reg; r != "" && s5.esc[f+r] {
										if fate[v] == nil {
											fate[v] = map[string]bool{}
										}
										fate[v][f] = true
									}
								}
							}
						})
					}
					body(s3, &Ctx{brk: func(*State) {}, cont: end, label: li2.label, up: c.dead()}, end)
				}, func(*State) {})
			})
		})
		for k := range m {
			mod[k] = true
		}
		for k := range e {
			modE[k] = true
		}
		again = false
		for v := range modV {
			if _, ok := st.vars[v]; ok && !loose[v] {
				loose[v], again = true, true
			}
		}
	}
	li.idx = startIdx
	// entry
	var e0 *Env
	envOf := func(st *State) *Env {
		env := x.loopEnv(st, li, modV)
		if e0 == nil {
			e0 = env
		}
		if env.at == nil {
			env.at = map[string]*Env{}
		}
		env.at["at_entry"] = e0
		return env
	}
	envOf(st.clone())
	// an accumulating local starts with what it was before the loop
	grown := func(st *State) (fs []string) {
		for _, n := range sortedKeys(li.acc) {
			if a := paren(li.acc[n]); !isEmptySeq(li.acc[n]) {
				t := paren(x.varValue(st, li.accV[n]).t)
				fs = append(fs, fmt.Sprintf("%s == %s + %s.skip(%s.len() as int)", t, a, t, a))
			}
		}
		return
	}
	for _, n := range sortedKeys(li.acc) {
		if !isEmptySeq(li.acc[n]) {
			x.emit(fmt.Sprintf("lemma_acc(%s);", li.acc[n]))
		}
	}
	lf := x.loopFrame(st, mod)
	for _, f := range grown(st) {
		x.assert(f, "invariant-entry", "the accumulated text only grows", li.node)
	}
	for _, f := range lf(st) {
		x.assert(f, "loop-frame", "objects not named by modifies are unchanged", li.node)
	}
	if spec != nil {
		for _, h := range spec.entry {
			x.hint(h, e0)
		}
		for _, inv := range spec.inv {
			x.assert(x.substClause(inv, e0), "invariant-entry", inv.name, li.node)
		}
	}
	x.havoc(st, mod, modV, modE, func(st *State) {
		for v, fs := range fate {
			if r := st.vars[v].reg; r != "" {
				for f := range fs {
					st.esc[f+r] = true
				}
			}
		}
		if li.idx != "" {
			li.idx = x.fresh("int", "ix")
		}
		savedIdx := li.idx
		exitHints := func(st *State) {
			if spec != nil && len(spec.exit) > 0 {
				eEnv := envOf(st)
				for _, h := range spec.exit {
					x.hint(h, eEnv)
				}
			}
		}
		env := envOf(st)
		var facts []string
		facts = append(facts, auto(st)...)
		facts = append(facts, grown(st)...)
		facts = append(facts, lf(st)...)
		for _, f := range li.flags {
			t := st.vars[f.v].t
			if !f.want {
				t = "!" + t
			}
			facts = append(facts, "("+t+")")
		}
		if spec != nil {
			for _, inv := range spec.inv {
				facts = append(facts, x.substClause(inv, env))
			}
		}
		x.assumeAll(facts, func() {
			var m0 []string
			if spec != nil {
				for _, d := range spec.decreases {
					m0 = append(m0, x.let("int", x.subst(d, env)))
				}
			}
			auto0 := ""
			if len(m0) == 0 && measure != nil {
				if a := measure(st); a != "" {
					auto0 = x.let("int", a)
				}
			}
			regs := map[*types.Var]string{}
			for v := range modV {
				if val, ok := st.vars[v]; ok {
					regs[v] = val.reg
				}
			}
			head(st, func(st *State) {
				bEnv := envOf(st)
				if spec != nil {
					for _, h := range spec.begin {
						x.hint(h, bEnv)
					}
				}
				beginSt := st.clone()
				next := func(st *State) {
					step(st, func(st *State) {
						for v, r := range regs {
							if strings.HasPrefix(r, "fresh#") {
								if cur, ok := st.vars[v]; ok && cur.reg != "" && !strings.HasPrefix(cur.reg, "fresh#") {
									x.assert("false", "ownership", v.Name()+" may share memory with "+cur.reg+" in the next iteration", li.node)
								}
							}
						}
						li.idx = x.nextIdx(savedIdx)
						env2 := envOf(st)
						li.idx = savedIdx
						be := envOf(beginSt)
						env2.at["at_begin"] = be
						for _, f := range grown(st) {
							x.assert(f, "invariant-preserved", "the accumulated text only grows", li.node)
						}
						for _, f := range lf(st) {
							x.assert(f, "loop-frame", "objects not named by modifies are unchanged, locks are as before", li.node)
						}
						if spec != nil {
							for _, h := range spec.end {
								x.hint(h, env2)
							}
							for _, inv := range spec.inv {
								x.assert(x.substClause(inv, env2), "invariant-preserved", inv.name, li.node)
							}
							if len(m0) > 0 {
								var m1 []string
								for _, d := range spec.decreases {
									m1 = append(m1, x.let("int", x.subst(d, env2)))
								}
								x.assert(lexLess(m1, m0), "termination", "loop", li.node)
							}
						}
						if len(m0) == 0 && !(spec != nil && spec.nodec) && !x.rangeLoop(li.node) {
							if auto0 == "" {
								if !x.con.diverges {
									x.assert("false", "termination", "no measure for the loop", li.node)
								}
							} else {
								li.idx = x.nextIdx(savedIdx)
								a1 := measure(st)
								li.idx = savedIdx
								x.assert(fmt.Sprintf("0 <= %s && %s < %s", auto0, a1, auto0), "termination", "loop", li.node)
							}
						}
						x.leaf()
					})
				}
				end := func(st *State) {
					x.byFlags(li.flags, st, next, func(st *State) {
						li.idx = savedIdx
						exitHints(st)
						step(st, func(st *State) { x.condOver(li, st, k) })
					})
				}
				brk := func(st *State) {
					li.idx = savedIdx
					exitHints(st)
					k(st)
				}
				body(st, &Ctx{brk: brk, cont: end, label: li.label, up: c}, end)
			}, func(st *State) {
				li.idx = savedIdx
				exitHints(st)
				k(st)
			})
		})
	})
}

func (c *Ctx) dead() *Ctx {
	if c == nil {
		return nil
	}
	n := &Ctx{label: c.label, up: c.up.dead()}
	if c.brk != nil {
		n.brk = func(*State) {}
	}
	if c.cont != nil {
		n.cont = func(*State) {}
	}
	return n
}

func (x *Ex) nextIdx(i string) string {
	if i == "" {
		return ""
	}
	return "(" + i + " + 1)"
}

func (x *Ex) rangeLoop(n ast.Node) bool {
	_, ok := n.(*ast.RangeStmt)
	return ok
}

// loopFlag: the loop goes on only while the local has this value, `for ...; i < n && !found; i++`. Only the body
// assigns it, so a round that ends with the other value is the last one: it is taken to leave the loop.
type loopFlag struct {
	v    *types.Var
	want bool
}

func (x *Ex) loopFlags(s *ast.ForStmt, st *State, spec *LoopSpec) (fs []loopFlag) {
	if s.Cond == nil {
		return nil
	}
	if spec != nil {
		for _, m := range spec.metas {
			if m.cond {
				return nil
			}
		}
	}
	inBody, inPost := x.assignedIn(s.Body, st), map[*types.Var]bool{}
	if s.Post != nil {
		inPost = x.assignedIn(s.Post, st)
	}
	var walk func(e ast.Expr)
	walk = func(e ast.Expr) {
		want := true
		e = ast.Unparen(e)
		if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
			walk(b.X)
			walk(b.Y)
			return
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
			want, e = false, ast.Unparen(u.X)
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return
		}
		v := x.varOf(st, id)
		if v == nil || !inBody[v] || inPost[v] || !x.frameOwns(st, v) || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return
		}
		if _, boxed := st.boxed[v]; boxed {
			return
		}
		if cur, ok := st.vars[v]; !ok || cur.alias != nil {
			return
		}
		fs = append(fs, loopFlag{v, want})
	}
	walk(s.Cond)
	return fs
}

// byFlags: on with all the flags as the loop wants them, out otherwise.
func (x *Ex) byFlags(fs []loopFlag, st *State, on, out func(st *State)) {
	if len(fs) == 0 {
		on(st)
		return
	}
	rest := func(st *State) { x.byFlags(fs[1:], st, on, out) }
	yes, no := rest, out
	if !fs[0].want {
		yes, no = out, rest
	}
	switch t := st.vars[fs[0].v].t; t {
	case "true":
		yes(st)
	case "false":
		no(st)
	default:
		x.ite(t, func() { yes(st.clone()) }, func() { no(st.clone()) })
	}
}

// condOver: the condition, of which a part is known to be false, is evaluated once more.
func (x *Ex) condOver(li *loopInfo, st *State, k func(st *State)) {
	x.evalCond(li.cond, st, func(*State) { x.leaf() }, k)
}

func lexLess(a, b []string) string {
	if len(a) == 0 {
		return "false"
	}
	s := fmt.Sprintf("0 <= %s && %s < %s", b[0], a[0], b[0])
	if len(a) > 1 {
		s = fmt.Sprintf("(%s) || (%s == %s && (%s))", s, a[0], b[0], lexLess(a[1:], b[1:]))
	}
	return s
}

func (x *Ex) execFor(s *ast.ForStmt, st *State, c *Ctx, k func(st *State), label string) {
	li := &loopInfo{node: s, spec: x.loopSpec(s), label: label}
	head := func(st *State, enter, exit func(st *State)) {
		if s.Cond == nil {
			enter(st)
			return
		}
		x.evalCond(s.Cond, st, enter, exit)
	}
	body := func(st *State, c *Ctx, k func(st *State)) { x.exec(s.Body, st, c, k) }
	step := func(st *State, k func(st *State)) { x.exec(s.Post, st, c, k) }
	// for v := E; v < N; v++
	measure := func(st *State) string { return "" }
	be, ok := ast.Unparen(condFirst(s.Cond)).(*ast.BinaryExpr)
	if ok && (be.Op == token.LSS || be.Op == token.LEQ || be.Op == token.GTR || be.Op == token.GEQ || be.Op == token.NEQ) {
		measure = func(st *State) string {
			if !(x.pure(be.X, st) || x.readOnly(be.X, st)) || !(x.pure(be.Y, st) || x.readOnly(be.Y, st)) {
				return ""
			}
			var a, b string
			x.quiet(func() {
				x.eval(be.X, st.clone(), func(_ *State, v V) { a = v.t })
				x.eval(be.Y, st.clone(), func(_ *State, v V) { b = v.t })
			})
			if a == "" || b == "" {
				return ""
			}
			if be.Op == token.GTR || be.Op == token.GEQ {
				a, b = b, a
			}
			r := fmt.Sprintf("(%s - %s)", b, a)
			if be.Op == token.LEQ || be.Op == token.GEQ {
				r = fmt.Sprintf("(%s - %s + 1)", b, a)
			}
			return r
		}
	}
	auto := x.counting(li, s, st)
	if li.idxV == nil {
		auto = x.rounds(li, s, st)
	}
	li.cond, li.flags = s.Cond, x.loopFlags(s, st, li.spec)
	x.byFlags(li.flags, st, func(st *State) {
		x.runLoop(li, st, c, k, auto, head, body, step, measure)
	}, func(st *State) { x.condOver(li, st, k) })
}

// rounds: no local counts the iterations of the loop up, a hidden number does. Of a local that counts them down to 0
// (`for v := E; v > 0; v--`, nothing else assigns v) it gives what v has to do with it.
func (x *Ex) rounds(li *loopInfo, s *ast.ForStmt, st *State) func(*State) []string {
	li.idx, li.round = "0int", true
	always := func(*State) []string { return []string{"0 <= " + li.idx} }
	p, ok := s.Post.(*ast.IncDecStmt)
	be, ok2 := ast.Unparen(condFirst(s.Cond)).(*ast.BinaryExpr)
	if !ok || !ok2 || p.Tok != token.DEC {
		return always
	}
	id, ok := ast.Unparen(p.X).(*ast.Ident)
	if !ok {
		return always
	}
	v := x.varOf(st, id)
	if v == nil || x.g.so.of(v.Type()) != "int" {
		return always
	}
	c, ok := ast.Unparen(be.X).(*ast.Ident)
	l, ok2 := ast.Unparen(be.Y).(*ast.BasicLit)
	if !ok || !ok2 || x.varOf(st, c) != v || !(be.Op == token.GTR && l.Value == "0" || be.Op == token.GEQ && l.Value == "1") {
		return always
	}
	if _, boxed := st.boxed[v]; boxed || !x.frameOwns(st, v) || v.Parent() == v.Pkg().Scope() || x.assignedIn(s.Body, st)[v] {
		return always
	}
	v0 := x.varValue(st, v).t
	return func(st *State) []string {
		t := x.varValue(st, v).t
		return []string{"0 <= " + li.idx, fmt.Sprintf("%s + %s == %s", t, li.idx, paren(v0)), fmt.Sprintf("(%s == 0 || 0 <= %s)", li.idx, t)}
	}
}

// counting recognises `for v := 0; v < N; v++` where nothing else assigns v: v counts the iterations, and the
// slice that is indexed with v plays the role of the sequence ranged over. The bounds of v it returns are facts
// of such a loop: v starts at 0, grows by one, and was below N before.
func (x *Ex) counting(li *loopInfo, s *ast.ForStmt, st *State) func(*State) []string {
	none := func(*State) []string { return nil }
	be, ok := ast.Unparen(condFirst(s.Cond)).(*ast.BinaryExpr)
	if !ok {
		return none
	}
	ve, ne := be.X, be.Y
	switch be.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		ve, ne = be.Y, be.X
	default:
		return none
	}
	id, ok := ast.Unparen(ve).(*ast.Ident)
	if !ok {
		return none
	}
	v := x.varOf(st, id)
	if v == nil {
		return none
	}
	if _, boxed := st.boxed[v]; boxed || !x.frameOwns(st, v) || v.Parent() == v.Pkg().Scope() {
		return none
	}
	isV := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && x.varOf(st, id) == v
	}
	inc := false
	switch p := s.Post.(type) {
	case *ast.IncDecStmt:
		inc = p.Tok == token.INC && isV(p.X)
	case *ast.AssignStmt:
		if bl, ok := p.Rhs[0].(*ast.BasicLit); ok && p.Tok == token.ADD_ASSIGN && len(p.Lhs) == 1 {
			inc = isV(p.Lhs[0]) && bl.Value == "1"
		}
	}
	if !inc || x.g.so.of(v.Type()) != "int" {
		return none
	}
	assigned := x.assignedIn(s.Body, st)
	if assigned[v] {
		return none
	}
	li.idxV = v
	// terms that are the same at the head of every iteration do not change
	term := func(st *State, e ast.Expr) (t string, ty types.Type) {
		if !x.readOnly(e, st) {
			return
		}
		x.quiet(func() { x.eval(e, st.clone(), func(_ *State, v V) { t, ty = v.t, x.typeOf(st, e) }) })
		return
	}
	pick := func(e ast.Expr) {
		if li.seq != "" {
			return
		}
		if t, ty := term(st, e); t != "" {
			if _, ok := ty.Underlying().(*types.Slice); ok {
				li.seq = t
			}
		}
	}
	if c, ok := ast.Unparen(ne).(*ast.CallExpr); ok && len(c.Args) == 1 {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" {
			pick(c.Args[0])
		}
	}
	ast.Inspect(s.Body, func(n ast.Node) bool {
		if ix, ok := n.(*ast.IndexExpr); ok && isV(ix.Index) {
			pick(ix.X)
		}
		return true
	})
	zero := false
	if a, ok := s.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && isV(a.Lhs[0]) {
		bl, ok := ast.Unparen(a.Rhs[0]).(*ast.BasicLit)
		zero = ok && bl.Value == "0"
	}
	if be.Op == token.NEQ || !zero {
		return none
	}
	bound, _ := term(st, ne)
	return func(st *State) []string {
		now, _ := term(st, ne)
		if bound == "" || now != bound {
			return nil
		}
		t := x.varValue(st, v).t
		return []string{fmt.Sprintf("0 <= %s && (%s <= %s || %s == 0)", t, t, bound, t)}
	}
}

// readOnly: a path of variables, fields and len, all of which exist now.
func (x *Ex) readOnly(e ast.Expr, st *State) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		v := x.varOf(st, e)
		if v == nil {
			_, isConst := x.info(st).Uses[e].(*types.Const)
			return isConst
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		_, known := st.vars[v]
		if !known {
			_, known = st.boxed[v]
		}
		return known
	case *ast.SelectorExpr:
		if sel := x.info(st).Selections[e]; sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		return x.readOnly(e.X, st)
	case *ast.StarExpr:
		return x.readOnly(e.X, st)
	case *ast.BinaryExpr:
		return e.Op != token.LAND && e.Op != token.LOR && x.readOnly(e.X, st) && x.readOnly(e.Y, st)
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		return ok && id.Name == "len" && len(e.Args) == 1 && x.readOnly(e.Args[0], st)
	}
	return false
}

// assignedIn: the variables a statement may assign, or whose address it takes.
func (x *Ex) assignedIn(s ast.Node, st *State) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	add := func(e ast.Expr) {
		for {
			switch y := ast.Unparen(e).(type) {
			case *ast.IndexExpr:
				e = y.X
				continue
			case *ast.SelectorExpr:
				e = y.X
				continue
			case *ast.SliceExpr:
				e = y.X
				continue
			case *ast.Ident:
				if v := x.varOf(st, y); v != nil {
					r[v] = true
				}
			}
			return
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(n.X)
		case *ast.RangeStmt:
			if n.Key != nil {
				add(n.Key)
			}
			if n.Value != nil {
				add(n.Value)
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				add(n.X)
			}
		case *ast.CallExpr:
			// perhaps a method with a pointer receiver
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				add(se.X)
			}
		}
		return true
	})
	return r
}

// condFirst: the leftmost comparison of a conjunction.
func condFirst(e ast.Expr) ast.Expr {
	for {
		if e == nil {
			return &ast.BadExpr{}
		}
		b, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND {
			return e
		}
		e = b.X
	}
}

// pure: evaluation emits nothing but lets.
func (x *Ex) pure(e ast.Expr, st *State) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, isId := n.Fun.(*ast.Ident); isId && id.Name == "len" {
				return true
			}
			ok = false
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// quiet evaluates with obligations suppressed but terms inlined.
func (x *Ex) quiet(f func()) {
	x.noLet++
	x.noOb++
	f()
	x.noLet--
	x.noOb--
}

// rangeLit: a range over a few values that are written out is those iterations, one after the other.
func (x *Ex) rangeLit(s *ast.RangeStmt, st *State, c *Ctx, k func(st *State), label string) bool {
	cl, ok := ast.Unparen(s.X).(*ast.CompositeLit)
	if !ok || len(cl.Elts) > 4 || s.Tok != token.DEFINE {
		return false
	}
	t := x.typeOf(st, cl)
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
	default:
		return false
	}
	if a, ok := t.Underlying().(*types.Array); ok && int(a.Len()) != len(cl.Elts) {
		return false
	}
	plain := true
	for _, el := range cl.Elts {
		if _, ok := el.(*ast.KeyValueExpr); ok {
			plain = false
		}
	}
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.GoStmt:
			plain = false
		}
		return plain
	})
	if !plain {
		return false
	}
	et := elemType(t)
	vals := make([]V, len(cl.Elts))
	var turn func(i int, st *State)
	turn = func(i int, st *State) {
		if i == len(vals) {
			k(st)
			return
		}
		next := func(st *State) { turn(i+1, st) }
		run := func(st *State) {
			x.exec(s.Body, st, &Ctx{brk: k, cont: next, label: label, up: c}, next)
		}
		set := func(st *State, e ast.Expr, v V, then func(st *State)) {
			if e == nil || isBlank(e) {
				then(st)
				return
			}
			x.declare(st, x.info(st).Defs[e.(*ast.Ident)].(*types.Var), v, then)
		}
		set(st, s.Key, V{t: fmt.Sprintf("%dint", i)}, func(st *State) { set(st, s.Value, vals[i], run) })
	}
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(vals) {
			turn(0, st)
			return
		}
		x.evalElem(cl.Elts[i], et, st, func(st *State, v V) {
			vals[i] = v
			rec(i+1, st)
		})
	}
	rec(0, st)
	return true
}

func (x *Ex) execRange(s *ast.RangeStmt, st *State, c *Ctx, k func(st *State), label string) {
	if x.rangeLit(s, st, c, k, label) {
		return
	}
	t := x.typeOf(st, s.X)
	li := &loopInfo{node: s, spec: x.loopSpec(s), label: label}
	setVars := func(st *State, kv, vv V, kt, vt types.Type, k func(st *State)) {
		one := func(st *State, e ast.Expr, v V, from types.Type, k func(st *State)) {
			if e == nil {
				k(st)
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					k(st)
					return
				}
				if dv, ok := x.info(st).Defs[id].(*types.Var); ok {
					x.declare(st, dv, v, k)
					return
				}
			}
			x.evalLV(e, st, func(st *State, lv *LV) {
				x.assignConv(st, v, from, lv.typ, e, func(st *State, v V) { x.storeLV(lv, st, v, s, k) })
			})
		}
		one(st, s.Key, kv, kt, func(st *State) { one(st, s.Value, vv, vt, k) })
	}
	body := func(st *State, c *Ctx, k func(st *State)) { x.exec(s.Body, st, c, k) }
	step := func(st *State, k func(st *State)) { k(st) }
	switch u := t.Underlying().(type) {
	case *types.Map:
		x.eval(s.X, st, func(st *State, m V) {
			ks := x.g.so.of(u.Key())
			keys := x.fresh("Seq<"+ks+">", "keys")
			li.idx, li.keys, li.seq = "0int", keys, m.t
			x.assume(fmt.Sprintf("%s.no_duplicates() && (forall|q: int| 0 <= q < %s.len() ==> %s.m.dom().contains(#[trigger] %s[q])) && (forall|q: %s| #[trigger] %s.m.dom().contains(q) ==> %s.contains(q)) && %s.m.dom().finite() && %s.m.dom().len() == %s.len()", keys, keys, m.t, keys, ks, m.t, keys, m.t, m.t, keys), func() {
				head := func(st *State, enter, exit func(st *State)) {
					x.lockedUse(st, m, false, s)
					i := li.idx
					x.ite(fmt.Sprintf("%s < %s.len()", i, keys), func() {
						st := st.clone()
						kt := x.let(ks, fmt.Sprintf("%s[%s]", keys, i))
						vt := x.let(x.g.so.of(u.Elem()), fmt.Sprintf("%s.m[%s]", m.t, kt))
						x.withFacts(st, u.Key(), kt, func(st *State) {
							x.withFacts(st, u.Elem(), vt, func(st *State) {
								setVars(st, V{t: kt}, V{t: vt}, u.Key(), u.Elem(), enter)
							})
						})
					}, func() { exit(st.clone()) })
				}
				x.runLoop(li, st, c, k, func(*State) []string {
					return []string{fmt.Sprintf("0 <= %s <= %s.len()", li.idx, keys)}
				}, head, body, step, nil)
			})
		})
	case *types.Slice, *types.Array, *types.Pointer:
		x.eval(s.X, st, func(st *State, b V) {
			ct := t
			if p, ok := u.(*types.Pointer); ok {
				ct = p.Elem()
			}
			so := x.g.so.of(ct)
			sq := x.let("", seqPart(so, b.t))
			et := elemType(ct)
			li.idx, li.seq = "0int", b.t
			var rv *types.Var
			if id, ok := ast.Unparen(s.X).(*ast.Ident); ok {
				rv = x.varOf(st, id)
			}
			head := func(st *State, enter, exit func(st *State)) {
				i := li.idx
				x.ite(fmt.Sprintf("%s < %s.len()", i, sq), func() {
					st := st.clone()
					if s.Value == nil || isBlank(s.Value) {
						setVars(st, V{t: i}, V{}, types.Typ[types.Int], nil, enter)
						return
					}
					if rv != nil && x.dry == 0 {
						if cur, ok := st.vars[rv]; ok && cur.t != b.t {
							x.unsup(s, "slice is modified while it is ranged over by value")
						}
					}
					var vt V
					if so == seqU8 {
						vt = V{t: x.let("int", fmt.Sprintf("(%s[%s] as int)", sq, i))}
					} else {
						vt = V{t: x.let(x.g.so.of(et), fmt.Sprintf("%s[%s]", sq, i))}
						if hasRegion(et) {
							vt.reg = "ext:" + b.t + "[" + i + "]"
						}
					}
					facts := func(k func(st *State)) { x.withFacts(st, et, vt.t, k) }
					facts(func(st *State) { setVars(st, V{t: i}, vt, types.Typ[types.Int], et, enter) })
				}, func() { exit(st.clone()) })
			}
			x.runLoop(li, st, c, k, func(*State) []string {
				return []string{fmt.Sprintf("0 <= %s <= %s.len()", li.idx, sq)}
			}, head, body, step, nil)
		})
	case *types.Chan:
		x.eval(s.X, st, func(st *State, ch V) {
			head := func(st *State, enter, exit func(st *State)) {
				x.blocks(st, []string{ch.t}, s)
				x.ite(x.fresh("bool", "open"), func() {
					x.recvFrom(st.clone(), ch, u.Elem(), func(st *State, v, ok V) {
						x.assume(ok.t, func() { setVars(st, v, V{}, u.Elem(), nil, enter) })
					})
				}, func() { exit(st.clone()) })
			}
			x.runLoop(li, st, c, k, func(*State) []string { return nil }, head, body, step, nil)
		})
	default:
		x.unsup(s, "range over "+t.String())
	}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// loopFrame: what the frame of the function and the lock discipline say about the heaps a loop changes.
func (x *Ex) loopFrame(st0 *State, mod map[string]bool) func(st *State) []string {
	ini := map[string]string{}
	ex := map[string]string{}
	noAlloc := map[string]string{}
	var keys []string
	for _, key := range sortedKeys(mod) {
		switch key[:2] {
		case "L:":
			ini[key] = x.heapOf(st0, key)
			keys = append(keys, key)
		case "H:":
			skip := false
			e := ""
			allocs := false
			for _, s := range x.con.allocates {
				if "H:"+x.g.structShort(s) == key {
					allocs = true
				}
			}
			if x.con.anyeffect {
				continue
			}
			if !allocs {
				noAlloc[key] = x.heapOf(x.entrySt0(), key)
			}
			for _, s := range x.con.modifies {
				k, kind, t := x.parseMod(s)
				if k != key {
					continue
				}
				switch kind {
				case "ref":
					e += fmt.Sprintf(" && r != %s", x.subst(t, x.entryEnv))
				case "pred":
					e += fmt.Sprintf(" && !(%s)", x.subst(t, x.entryEnv))
				default:
					skip = true
				}
			}
			if !skip {
				ini[key] = x.heapOf(x.entrySt0(), key)
				ex[key] = e
				keys = append(keys, key)
			}
		}
	}
	return func(st *State) []string {
		var r []string
		for _, key := range sortedKeys(noAlloc) {
			if cur := x.heapOf(st, key); cur != noAlloc[key] {
				r = append(r, fmt.Sprintf("(forall|r: int| #[trigger] %s.dom().contains(r) ==> %s.dom().contains(r))", cur, noAlloc[key]))
			}
		}
		for _, key := range keys {
			cur := x.heapOf(st, key)
			if key[:2] == "L:" {
				if cur != ini[key] {
					r = append(r, fmt.Sprintf("(forall|r: int| #[trigger] %s[r] == %s[r])", cur, ini[key]))
				}
				continue
			}
			if cur != ini[key] {
				r = append(r, fmt.Sprintf("(forall|r: int| #![trigger %s.dom().contains(r)] #![trigger %s.dom().contains(r)] %s.dom().contains(r)%s ==> %s.dom().contains(r))", ini[key], cur, ini[key], ex[key], cur))
				r = append(r, fmt.Sprintf("(forall|r: int| #![trigger %s[r]] #![trigger %s.dom().contains(r)] %s.dom().contains(r)%s ==> %s[r] == %s[r])", cur, cur, ini[key], ex[key], cur, ini[key]))
			}
		}
		return r
	}
}
