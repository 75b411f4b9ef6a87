package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Contracts on concurrent code: what one goroutine does (receives, sends, closes, wait groups, goroutines started,
// function values run, stores to an atomic field) is recorded in ghosts, for the contracts that name them in modifies;
// "on EVENT name: text" states what must hold when the event happens, "go N ..." what the N-th goroutine started by a
// function literal does. Fields declared "atomic" may be changed by other goroutines at any moment, within their rely.

// GoSpec is the contract of a goroutine started with a function literal.
type GoSpec struct {
	ensures []Clause
	on      map[string][]Clause
	exit    []string
}

// AtomicSpec: what other goroutines may do to a field (rely) and what a store must respect (guarantee).
type AtomicSpec struct {
	rely, guar Clause
}

// wgAddr is the identity of a wait group held in a field.
func (x *Ex) wgAddr(d *StructSort, f, ref string) string {
	for i := range d.fields {
		if d.fields[i].goN == f {
			return fmt.Sprintf("(%s * 64 + %dint)", paren(ref), i)
		}
	}
	panic(specErr{"no field " + f + " in " + d.short})
}

func isWaitGroup(t types.Type) bool {
	n := named(t)
	return n != nil && qname(n) == "sync.WaitGroup"
}

// traced: the function's contract speaks about this ghost.
func (x *Ex) traced(g string) bool {
	if x.con == nil || x.g.locks != nil || x.g.sp.ghosts[g] == "" {
		return false
	}
	return inList(x.con.modifies, g)
}

func (x *Ex) record(st *State, g, f string, a ...any) {
	if x.traced(g) {
		x.setHeap(st, "G:"+g, fmt.Sprintf("%s%s", x.heapOf(st, "G:"+g), fmt.Sprintf(f, a...)))
	}
}

// evEnv is the environment of the clauses on events: the parameters of the function, the state now and at its start
// (at the start of the goroutine, inside one).
func (x *Ex) evEnv(st *State) *Env {
	env := &Env{vars: map[string]SV{}, st: st, old: x.entryEnv, at: map[string]*Env{"at_call": x.entryEnv}}
	for k, v := range x.entryEnv.vars {
		env.vars[k] = v
	}
	if st.goEnv != nil {
		env.old = st.goEnv
		for k, v := range st.goEnv.vars {
			env.vars[k] = v
		}
	}
	return env
}

func (x *Ex) onClauses(st *State, ev string) []Clause {
	if x.con == nil || x.g.locks != nil {
		return nil
	}
	if st.goN > 0 {
		if gs := x.con.gos[st.goN]; gs != nil {
			return gs.on[ev]
		}
		return nil
	}
	return x.con.on[ev]
}

func (x *Ex) event(st *State, ev string, vars map[string]SV, n ast.Node) {
	for _, cl := range x.onClauses(st, ev) {
		env := x.evEnv(st)
		old := &Env{vars: map[string]SV{}, st: env.old.st, at: map[string]*Env{}}
		old.old = old
		for k, v := range env.old.vars {
			old.vars[k] = v
		}
		env.old = old
		for k, v := range vars {
			env.vars[k], old.vars[k] = v, v
		}
		x.assert(x.substClause(cl, env), "on-"+ev, cl.name, n)
	}
}

// blocks: the goroutine waits until one of the channels can be received from.
func (x *Ex) blocks(st *State, chans []string, n ast.Node) {
	if st.goN == 0 && x.con != nil && x.con.nonblock {
		x.assert("false", "blocking", "waits for another goroutine", n)
	}
	for _, cl := range x.onClauses(st, "block") {
		var ds []string
		for _, c := range chans {
			env := x.evEnv(st)
			env.vars["c"] = SV{c, nil}
			ds = append(ds, "("+x.substClause(cl, env)+")")
		}
		if len(ds) == 0 {
			ds = []string{"false"}
		}
		x.assert(strings.Join(ds, " || "), "on-block", cl.name, n)
	}
}

func (x *Ex) received(st *State, ch, v string, et types.Type) {
	if !x.traced("GOT") {
		return
	}
	switch x.g.so.of(et) {
	case "int":
	case "bool":
		v = "(if " + v + " { 1int } else { 0int })"
	default:
		v = "0int"
	}
	x.record(st, "GOT", ".push((%s, %s))", ch, v)
	if x.traced("EMPTY") {
		x.setHeap(st, "G:EMPTY", "Set::<int>::empty()")
	}
}

func (x *Ex) doWG(c *callee, st *State, k KVs) {
	addr := func(then func(st *State, a string)) {
		lv := c.lv
		if lv.kind == "field" {
			then(st, x.wgAddr(lv.d, lv.f.goN, lv.ref))
			return
		}
		x.loadLV(lv, st, c.call, func(st *State, v V) { then(st, v.t) })
	}
	addr(func(st *State, a string) {
		switch c.fn.Name() {
		case "Add":
			n := c.args[0].t
			x.event(st, "add", map[string]SV{"a": {a, nil}, "n": {n, nil}}, c.call)
			if x.traced("ADDS") {
				h := x.heapOf(st, "G:ADDS")
				x.setHeap(st, "G:ADDS", fmt.Sprintf("%s.insert(%s, %s[%s] + %s)", h, a, h, a, n))
			}
		case "Done":
			x.event(st, "done", map[string]SV{"a": {a, nil}}, c.call)
			if x.traced("DONES") {
				h := x.heapOf(st, "G:DONES")
				x.setHeap(st, "G:DONES", fmt.Sprintf("%s.insert(%s, %s[%s] + 1)", h, a, h, a))
			}
		case "Wait":
			x.blocks(st, nil, c.call)
			x.event(st, "wait", map[string]SV{"a": {a, nil}}, c.call)
			x.record(st, "WAITS", ".push(%s)", a)
		default:
			x.unsup(c.call, "wait group operation "+c.fn.Name())
		}
		k(st, nil)
	})
}

func (x *Ex) doClose(e *ast.CallExpr, ch string, st *State, k func(st *State)) {
	x.event(st, "close", map[string]SV{"c": {ch, nil}}, e)
	if x.traced("CLOSED") {
		x.assert(fmt.Sprintf("%s != 0", ch), "close", "a nil channel is closed", e)
		x.record(st, "CLOSED", ".push(%s)", ch)
	}
	k(st)
}

// ---- atomic fields ----

func (x *Ex) atomicSpec(lv *LV) *AtomicSpec {
	if lv.kind != "field" {
		return nil
	}
	return x.g.sp.atomics[lv.d.short+"."+lv.f.goN]
}

// interfere: other goroutines may have changed the field by now.
func (x *Ex) interfere(lv *LV, st *State, k func(st *State)) {
	as := x.atomicSpec(lv)
	if as == nil || st.freshR[lv.ref] {
		k(st)
		return
	}
	h := x.heapOf(st, "H:"+lv.d.short)
	old := fmt.Sprintf("%s[%s].%s", h, lv.ref, lv.f.name)
	nv := x.fresh(lv.f.sort, "now_"+lv.f.name)
	env := &Env{vars: map[string]SV{"self": {lv.ref, lv.d.named}, "o": {old, nil}, "n": {nv, nil}}, st: st, at: map[string]*Env{}}
	env.old = env
	f := x.substClause(as.rely, env)
	x.setHeap(st, "H:"+lv.d.short, fmt.Sprintf("%s.insert(%s, %s { %s: %s, ..%s[%s] })", h, lv.ref, lv.d.name, lv.f.name, nv, h, lv.ref))
	x.assume(f, func() { k(st) })
}

// atomicStore: a store respects the guarantee the others rely on.
func (x *Ex) atomicStore(lv *LV, st *State, v V, n ast.Node, k func(st *State)) {
	as := x.atomicSpec(lv)
	if as == nil {
		x.storeLV(lv, st, v, n, k)
		return
	}
	h := x.heapOf(st, "H:"+lv.d.short)
	old := x.let(lv.f.sort, fmt.Sprintf("%s[%s].%s", h, lv.ref, lv.f.name))
	if !st.freshR[lv.ref] {
		env := &Env{vars: map[string]SV{"self": {lv.ref, lv.d.named}, "o": {old, nil}, "n": {v.t, nil}}, st: st, at: map[string]*Env{}}
		env.old = env
		x.assert(x.substClause(as.guar, env), "guarantee", "store to "+lv.d.short+"."+lv.f.goN, n)
	}
	x.event(st, "store", map[string]SV{"self": {lv.ref, lv.d.named}, "o": {old, nil}, "n": {v.t, nil}}, n)
	x.record(st, "STORED", ".push((%s, %s, %s))", lv.ref, old, v.t)
	x.storeLV(lv, st, v, n, k)
}

// ---- goroutines ----

// execGo: a function with a contract is started where its preconditions hold; a function literal runs on its own, from
// the state at its start, and satisfies its part of the contract ("go N") when it ends.
func (x *Ex) execGo(s *ast.GoStmt, cl *callee, st *State, k func(st *State)) {
	if x.con == nil || !x.traced("GOES") {
		x.g.use("goroutine bodies started inside " + x.fi.key + " are not part of its sequential contract")
		if _, ok := x.g.sp.ghosts["SPAWNED"]; ok {
			x.setHeap(st, "G:SPAWNED", x.heapOf(st, "G:SPAWNED")+" + 1")
		}
		k(st)
		return
	}
	if cl.kind != "lit" {
		con := x.g.sp.contracts[cl.name]
		if cl.kind == "func" && con == nil && x.g.pr.funcs[cl.fn] != nil {
			x.goHelper(s, cl, st, k)
			return
		}
		if cl.kind != "func" || con == nil {
			x.unsup(s, "goroutine without a contract")
		}
		code := x.g.fnConst(cl.name)
		arg := "0int"
		var argT types.Type
		if len(cl.args) > 0 {
			arg, argT = cl.args[0].t, cl.argT[0]
			if d := x.g.so.refStruct(argT); d != nil {
				argT = types.NewPointer(d.named)
			}
		}
		x.event(st, "go", map[string]SV{"f": {code, nil}, "arg": {arg, argT}}, s)
		x.share(st)
		x.calls[con.key] = true
		pre := &Env{vars: map[string]SV{}, st: st, at: map[string]*Env{}}
		for i, p := range con.params {
			if i < len(cl.args) {
				pre.vars[p] = SV{cl.args[i].t, cl.argT[i]}
			}
		}
		pre.old = pre
		for _, r := range con.requires {
			if lockReq.MatchString(r.text) {
				continue // a goroutine starts without locks
			}
			x.assert(x.substClause(r, pre), "precondition", con.key+"."+r.name, s)
		}
		x.record(st, "GOES", ".push((%s, %s))", code, arg)
		k(st)
		return
	}
	n, arg := x.goLit(s, cl.lit, cl.args, st)
	code := fmt.Sprintf("%dint", n)
	x.event(st, "go", map[string]SV{"f": {code, nil}, "arg": {arg, nil}}, s)
	x.share(st)
	gst := st.clone()
	x.record(st, "GOES", ".push((%s, %s))", code, arg)
	x.fork(n, arg, s, cl, gst, func() { k(st) })
}

// goHelper: a function of the repository without a contract of its own is started like a literal. What it works on is
// its first argument that is a function, a channel or an object the starting function made.
func (x *Ex) goHelper(s *ast.GoStmt, cl *callee, st *State, k func(st *State)) {
	n, ok := x.goOrd[s]
	if !ok {
		n = len(x.goOrd) + 1
		x.goOrd[s] = n
	}
	if x.con.gos[n] == nil {
		x.unsup(s, fmt.Sprintf("goroutine %d has no contract", n))
	}
	own := map[string]bool{}
	for _, v := range x.entryEnv.vars {
		own[v.t] = true
	}
	arg := "0int"
	for _, want := range []string{"func", "chan", "ref"} {
		for i, t := range cl.argT {
			if t == nil || arg != "0int" {
				continue
			}
			_, isF := t.Underlying().(*types.Signature)
			_, isC := t.Underlying().(*types.Chan)
			isR := x.g.so.refStruct(t) != nil && !own[cl.args[i].t]
			if want == "func" && isF || want == "chan" && isC || want == "ref" && isR {
				arg = cl.args[i].t
			}
		}
	}
	x.event(st, "go", map[string]SV{"f": {fmt.Sprintf("%dint", n), nil}, "arg": {arg, nil}}, s)
	x.share(st)
	gst := st.clone()
	x.record(st, "GOES", ".push((%s, %s))", fmt.Sprintf("%dint", n), arg)
	fi := x.g.pr.funcs[cl.fn]
	c2 := *cl
	c2.taskOf, c2.lf = fi, nil
	c2.lit = &ast.FuncLit{Type: fi.decl.Type, Body: fi.decl.Body}
	x.calls[cl.name] = true
	x.fork(n, arg, s, &c2, gst, func() { k(st) })
}

// taskLit: a function literal that is handed on as a value runs later, once, in some goroutine (contracts with "tasks").
// Its value is task_of(N, arg).
func (x *Ex) taskLit(at ast.Expr, e *ast.FuncLit, fi *FuncInfo, st *State, k KV) {
	sig := x.typeOf(st, at).(*types.Signature)
	if sig.Params().Len() > 0 || sig.Results().Len() > 0 {
		x.unsup(at, "a task with parameters")
	}
	n, arg := x.goLit(at, e, nil, st)
	x.share(st)
	gst := st.clone()
	cl := &callee{kind: "lit", lit: e, lf: st.frame, sig: sig, taskOf: fi}
	v := fmt.Sprintf("task_of(%dint, %s)", n, arg)
	x.fork(n, arg, at, cl, gst, func() {
		x.assume(v+" != 0", func() { k(st, V{t: v}) })
	})
}

// taskFunc: a declared function of this package that is handed on as a task is one like a literal.
func (x *Ex) taskFunc(f *types.Func) *FuncInfo {
	sig := f.Type().(*types.Signature)
	if x.con == nil || !x.con.tasks || x.g.locks != nil || sig.Recv() != nil || sig.Params().Len() > 0 || sig.Results().Len() > 0 {
		return nil
	}
	if fi := x.g.pr.funcs[f]; fi != nil && fi.pkg == x.fi.pkg {
		return fi
	}
	return nil
}

// goLit numbers a function literal that runs on its own and finds what it works on: its first argument, or the first
// function, channel or object it captures.
func (x *Ex) goLit(s ast.Node, lit *ast.FuncLit, args []V, st *State) (int, string) {
	n, ok := x.goOrd[s]
	if !ok {
		n = len(x.goOrd) + 1
		x.goOrd[s] = n
	}
	if x.con.gos[n] == nil {
		x.unsup(s, fmt.Sprintf("goroutine %d has no contract", n))
	}
	caps := x.captured(lit, st)
	outer := x.reassigned(enclosing(st.frame), lit)
	inner := x.reassigned(lit.Body, nil)
	for _, v := range caps {
		if inner[v] {
			x.unsup(s, "a goroutine assigns "+v.Name()+" of the function that starts it")
		}
	}
	if len(args) > 0 {
		return n, args[0].t
	}
	params := map[*types.Var]bool{}
	if sg, ok := x.fi.obj.Type().(*types.Signature); ok {
		for i := 0; i < sg.Params().Len(); i++ {
			params[sg.Params().At(i)] = true
		}
		if sg.Recv() != nil {
			params[sg.Recv()] = true
		}
	}
	// a parameter of the function under contract is the same for all of them, by whatever name a helper knows it
	given := map[string]bool{}
	for _, p := range x.con.params {
		if sv, ok := x.entryEnv.vars[p]; ok {
			given[sv.t] = true
		}
	}
	for _, want := range []string{"func", "chan", "ref"} {
		for _, v := range caps {
			if val, ok := st.vars[v]; ok && want == "ref" && given[val.t] {
				continue
			}
			_, isF := v.Type().Underlying().(*types.Signature)
			_, isC := v.Type().Underlying().(*types.Chan)
			isR := x.g.so.refStruct(v.Type()) != nil && !params[v]
			if (want == "func" && isF || want == "chan" && isC || want == "ref" && isR) && !outer[v] {
				if val, ok := st.vars[v]; ok {
					return n, val.t
				}
			}
		}
	}
	return n, "0int"
}

// fork: the literal runs on its own from this state and keeps its part of the contract; k continues the function.
func (x *Ex) fork(n int, arg string, s ast.Node, cl *callee, gst *State, k func()) {
	gs := x.con.gos[n]
	caps := x.captured(cl.lit, gst)
	outer := x.reassigned(enclosing(gst.frame), cl.lit)
	x.ite(x.fresh("bool", "goroutine"), func() {
		// what the goroutine does is not done by the function that starts it
		sl, slv, sle := x.log, x.logV, x.logE
		if x.dry > 0 {
			x.log, x.logV, x.logE = map[string]bool{}, map[*types.Var]bool{}, map[string]bool{}
		}
		defer func() { x.log, x.logV, x.logE = sl, slv, sle }()
		gst.defers = map[*Frame][]*deferred{}
		gst.pan = nil
		gst.base = map[string]string{}
		start := &Env{vars: map[string]SV{"arg": {arg, nil}}, at: map[string]*Env{}}
		gst.goN = n
		var facts []string
		for key := range gst.heap {
			if key[:2] == "L:" {
				l := x.fresh(x.heapSort(key), "unlocked")
				gst.heap[key] = l
				facts = append(facts, fmt.Sprintf("forall|r: int| #[trigger] %s[r] == 0", l))
			}
		}
		for _, v := range caps {
			if _, has := gst.vars[v]; has && outer[v] {
				nv := x.fresh(x.g.so.of(v.Type()), "shared_"+strings.Map(identRune, v.Name()))
				gst.vars[v] = V{t: nv}
				facts = append(facts, x.typeFacts(v.Type(), nv, gst)...)
			}
		}
		x.assumeAll(facts, func() {
			start.st = gst.clone()
			start.old = start
			for k, v := range x.entryEnv.vars {
				start.vars[k] = v
			}
			start.vars["arg"] = SV{arg, nil}
			gst.goEnv = start
			c := *cl
			c.onPanic = func(st *State, v string) {
				x.assert("false", "panics", "a panic ends a goroutine, and the program with it", s)
				x.leaf()
			}
			x.inline(&c, cl.taskOf, cl.lit.Type, cl.lit.Body, cl.sig, cl.lf, gst, func(st *State, _ []V) {
				env := x.evEnv(st)
				for _, h := range gs.exit {
					x.hint(h, env)
				}
				for _, e := range gs.ensures {
					x.assert(x.substClause(e, env), "goroutine", e.name, s)
				}
				x.leaf()
			})
		})
	}, k)
}

// share: what a goroutine can reach is not private any more.
func (x *Ex) share(st *State) {
	for r := range st.freshR {
		delete(st.freshR, r)
	}
}

func enclosing(f *Frame) ast.Node {
	for ; f != nil; f = f.parent {
		if f.fn != nil && f.fn.decl != nil {
			return f.fn.decl.Body
		}
	}
	return nil
}

// captured lists the local variables of the enclosing function that the literal uses, in order of use.
func (x *Ex) captured(lit *ast.FuncLit, st *State) []*types.Var {
	in := x.info(st)
	var r []*types.Var
	seen := map[*types.Var]bool{}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := in.Uses[id].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Parent() == nil || v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		if v.Pos() >= lit.Pos() && v.Pos() < lit.End() {
			return true
		}
		seen[v] = true
		r = append(r, v)
		return true
	})
	return r
}

// reassigned: the variables that change after their declaration (loop variables are shared by the iterations).
func (x *Ex) reassigned(body ast.Node, skip *ast.FuncLit) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	if body == nil {
		return r
	}
	mark := func(e ast.Expr, def bool) {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return
		}
		for _, p := range x.g.pr.pkgs {
			if v, ok := p.info.Uses[id].(*types.Var); ok {
				r[v] = true
			}
			if def {
				if v, ok := p.info.Defs[id].(*types.Var); ok {
					r[v] = true
				}
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			return s != skip
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				mark(l, false)
			}
		case *ast.IncDecStmt:
			mark(s.X, false)
		case *ast.RangeStmt:
			if s.Key != nil {
				mark(s.Key, true)
			}
			if s.Value != nil {
				mark(s.Value, true)
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				mark(s.X, false)
			}
		}
		return true
	})
	return r
}
