package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func (g *Gen) use(s string) {
	if g.cur != nil {
		g.cur[s] = true
	}
}

// boxedVar: struct variables whose address is taken live in the heap.
func (g *Gen) boxedVar(v *types.Var) bool {
	return g.boxed[v]
}

func (g *Gen) findBoxed() {
	g.boxed = map[*types.Var]bool{}
	for _, p := range g.pr.pkgs {
		mark := func(e ast.Expr) {
			id, ok := ast.Unparen(e).(*ast.Ident)
			if !ok {
				return
			}
			v, ok := p.info.Uses[id].(*types.Var)
			if !ok || v.IsField() || g.pr.globals[v] != nil {
				return
			}
			if n := named(v.Type()); n != nil && !isMutex(v.Type()) {
				if _, ok := n.Underlying().(*types.Struct); ok && g.so.of(v.Type()) != "int" && g.so.of(v.Type()) != seqU8 && g.so.of(v.Type()) != "Val" {
					g.boxed[v] = true
				}
			}
		}
		for _, f := range p.files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.UnaryExpr:
					if n.Op.String() == "&" {
						mark(n.X)
					}
				case *ast.SelectorExpr:
					if s, ok := p.info.Selections[n]; ok && s.Kind() == types.MethodVal {
						if fn, ok := s.Obj().(*types.Func); ok {
							if _, ptr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
								if _, isP := p.info.TypeOf(n.X).Underlying().(*types.Pointer); !isP {
									mark(n.X)
								}
							}
						}
					}
				}
				return true
			})
		}
	}
}

// call graph over repository functions (interface methods devirtualised)
func (g *Gen) buildCalls() {
	g.callg = map[string]map[string]bool{}
	for _, fi := range g.pr.funcs {
		m := map[string]bool{}
		ast.Inspect(fi.decl, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			fn, ok := fi.pkg.info.Uses[id].(*types.Func)
			if !ok {
				return true
			}
			if g.pr.funcs[fn] != nil {
				m[funcKey(fn)] = true
			}
			if r := fn.Type().(*types.Signature).Recv(); r != nil {
				if nt := named(r.Type()); nt != nil {
					if c := g.pr.impls[nt.Obj()]; c != nil {
						m[c.Obj().Pkg().Name()+"."+c.Obj().Name()+"."+fn.Name()] = true
					}
				}
			}
			return true
		})
		g.callg[fi.key] = m
	}
}

func (g *Gen) reach(a, b string) bool {
	seen := map[string]bool{}
	var rec func(s string) bool
	rec = func(s string) bool {
		for t := range g.callg[s] {
			if t == b {
				return true
			}
			if !seen[t] {
				seen[t] = true
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	return rec(a)
}

func (g *Gen) sameSCC(a, b string) bool {
	if a == b {
		return true
	}
	return g.reach(a, b) && g.reach(b, a)
}

func (x *Ex) entryEnvAt(st *State) *Env {
	env := &Env{vars: map[string]SV{}, st: st, old: x.entryEnv, at: map[string]*Env{}}
	if len(st.base) > 0 {
		o := *x.entryEnv
		o.st = x.entryEnv.st.clone()
		for k, v := range st.base {
			o.st.heap[k] = v
		}
		o.old = &o
		env.old = &o
	}
	for k, v := range x.entryEnv.vars {
		env.vars[k] = v
	}
	return env
}

func (x *Ex) substClause(c Clause, env *Env) (r string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				panic(specErr{fmt.Sprintf("%s:%d: %s", filepath.Base(c.file), c.line, s.msg)})
			}
			panic(e)
		}
	}()
	return "(" + x.subst(c.text, env) + ")"
}

// hint emits a lemma call (or an intermediate assertion).
func (x *Ex) hint(text string, env *Env) {
	if x.dry > 0 {
		return
	}
	s := x.subst(text, env)
	o := &Obl{Func: x.fi.key, Kind: "hint", Label: strings.Join(strings.Fields(text), " "), Line: x.line}
	o.ID = fmt.Sprintf("%s#hint#%d", o.Func, len(x.obls))
	x.obls = append(x.obls, o)
	if !strings.HasSuffix(strings.TrimSpace(s), "}") {
		s += ";"
	}
	x.emit(s)
	o.End = x.line
}

func newEx(g *Gen, key string, con *Contract) *Ex {
	return &Ex{g: g, con: con, psorts: map[string]string{}, init: map[string]string{}, calls: map[string]bool{}, loopOrd: map[ast.Node]int{}, goOrd: map[ast.Node]int{}, recvPre: map[*ast.UnaryExpr]V{}, appendBack: map[*ast.CallExpr]bool{}, arrReg: map[string]bool{}, noAssert: map[string]bool{}}
}

func mangle(key string) string {
	return strings.Map(identRune, key)
}

func newState() *State {
	return &State{vars: map[*types.Var]V{}, heap: map[string]string{}, defers: map[*Frame][]*deferred{}, meta: map[string]V{}, freshR: map[string]bool{},
		nonnil: map[string]bool{}, esc: map[string]bool{}, hidden: map[string]string{}, boxed: map[*types.Var]string{}, facts: map[string]string{}, base: map[string]string{}}
}

// aliased reports whether a field of a result may share memory with parameter p.
func (con *Contract) aliased(p string) bool {
	for _, q := range con.aliases {
		if q == p {
			return true
		}
	}
	return false
}

// mentionsResult: a ghost update that uses a result is made on return, any other on entry.
func (con *Contract) mentionsResult(text string) bool {
	for _, t := range tokenize(text) {
		if t.kind == 'i' && inList(con.results, t.s) {
			return true
		}
	}
	return false
}

// verify generates the verification condition of one contracted function.
func (g *Gen) verify(key string) (vc *VC) {
	con := g.sp.contracts[key]
	if g.locks != nil {
		con = g.locks.contract(key)
	}
	return g.verifyAs(key, con)
}

// restrict keeps only the named postconditions of a contract (what happens on a panic is left open).
func (con *Contract) restrict(labels []string) *Contract {
	c := *con
	c.ensures, c.xensures = nil, nil
	for _, e := range con.ensures {
		if inList(labels, e.name) {
			c.ensures = append(c.ensures, e)
		}
	}
	if len(c.ensures) != len(labels) {
		panic(fmt.Sprintf("no such postconditions of %s: %v", con.key, labels))
	}
	c.panics = "may"
	return &c
}

func (g *Gen) verifyAs(key string, con *Contract) (vc *VC) {
	fi := g.pr.byKey[key]
	vc = &VC{key: key}
	if fi == nil {
		vc.err = "function " + key + " does not exist any more"
		return vc
	}
	vc.pos = g.pr.pos(fi.decl.Pos())
	x := newEx(g, key, con)
	x.fi = fi
	g.cur = map[string]bool{}
	defer func() {
		vc.used = sortedKeys(g.cur)
		vc.calls = sortedKeys(x.calls)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				p := ""
				if e.pos.IsValid() {
					p = g.pr.pos(e.pos) + ": "
				}
				vc.err = p + "outside the supported subset: " + e.msg
			case specErr:
				vc.err = "contract does not fit the code: " + e.msg
			default:
				if os.Getenv("GOV_DEBUG") != "" {
					panic(e)
				}
				vc.err = fmt.Sprintf("internal: %v", e)
			}
			vc.obls = nil
		}
	}()
	sig := fi.obj.Type().(*types.Signature)
	st := newState()
	f := &Frame{fn: fi, pkg: fi.pkg, sig: sig}
	st.frame = f
	x.top = f
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(ps) != len(con.params) {
		vc.err = fmt.Sprintf("contract does not fit the code: %s has %d parameters, contract names %d", key, len(ps), len(con.params))
		return
	}
	if sig.Results().Len() != len(con.results) {
		vc.err = fmt.Sprintf("contract does not fit the code: %s has %d results, contract names %d", key, sig.Results().Len(), len(con.results))
		return
	}
	for i := 0; i < sig.Results().Len(); i++ {
		f.results = append(f.results, sig.Results().At(i))
	}
	env := &Env{vars: map[string]SV{}, st: st, at: map[string]*Env{}}
	env.old = env
	x.entryEnv = env
	var pre []string
	for i, p := range ps {
		nm := "p_" + con.params[i]
		so := g.so.of(p.Type())
		x.params = append(x.params, nm+": "+so)
		x.psorts[nm] = so
		env.vars[con.params[i]] = SV{nm, p.Type()}
		v := V{t: nm}
		if hasRegion(p.Type()) {
			switch {
			case inList(con.borrows, con.params[i]), con.aliased(con.params[i]):
				v.reg = "borrow:" + con.params[i]
			case sig.Variadic() && i == len(ps)-1:
				v.reg = "fresh#0"
			default:
				v.reg = "param:" + con.params[i]
			}
		}
		pre = append(pre, x.typeFacts(p.Type(), nm, st)...)
		if inList(con.capacity, con.params[i]) {
			x.params = append(x.params, nm+"_cap: int")
			x.psorts[nm+"_cap"] = "int"
			env.vars[con.params[i]+"_cap"] = SV{nm + "_cap", types.Typ[types.Int]}
			v.cap = nm + "_cap"
			pre = append(pre, fmt.Sprintf("%s <= %s_cap <= %s", x.lenOf(so, nm), nm, g.maxLen(p.Type())))
		}
		if p.Name() != "" && p.Name() != "_" {
			if g.boxedVar(p) {
				x.unsup(fi.decl, "address of a parameter")
			}
			if x.ptrVal(p.Type()) && !inList(con.inout, con.params[i]) {
				v.alias = &LV{kind: "ro", idx: v, typ: p.Type()}
			}
			st.vars[p] = v
		}
	}
	// references to objects of the heap are unlocked or as the contract says
	for _, r := range con.requires {
		pre = append(pre, x.substClause(r, env))
	}
	for _, d := range con.decreases {
		_ = x.subst(d, env)
	}
	entry := st.clone()
	env.st = entry
	for _, r := range f.results {
		st.vars[r] = V{t: g.so.zero(r.Type())}
	}
	f.ret = func(st *State, rs []V) { x.topRet(st, rs) }
	f.onPanic = func(st *State, v string) { x.topPanic(st, v) }
	x.ind = 1
	if con.panics == "iff" {
		_ = x.subst(con.panicsE, env)
	}
	for _, r := range con.records {
		if !con.mentionsResult(r.text) {
			x.setHeap(st, "G:"+r.name, x.subst(r.text, env))
		}
	}
	for _, h := range con.entry {
		x.hint(h, env)
	}
	x.execList(fi.decl.Body.List, st, nil, func(st *State) { x.leave(st) })
	vc.obls = x.obls
	vc.smoke = x.smoke
	vc.body = x.out.String()
	vc.params = x.params
	vc.pre = append(pre, x.gfacts...)
	vc.rlimit = con.rlimit
	vc.bodyLines = x.line
	return vc
}

// heapFrame: everything not mentioned in the modifies clause is unchanged.
func (x *Ex) heapFrame(st *State) {
	con := x.con
	type al struct {
		refs, preds []string
		all, alloc  bool
	}
	m := map[string]*al{}
	get := func(k string) *al {
		if m[k] == nil {
			m[k] = &al{}
		}
		return m[k]
	}
	for _, s := range con.modifies {
		key, kind, ex := x.parseMod(s)
		switch kind {
		case "ref":
			get(key).refs = append(get(key).refs, x.subst(ex, x.entryEnv))
		case "pred":
			get(key).preds = append(get(key).preds, x.subst(ex, x.entryEnv))
		default:
			get(key).all = true
		}
	}
	for _, s := range con.allocates {
		get("H:" + x.g.structShort(s)).alloc = true
	}
	for _, key := range sortedKeys(st.heap) {
		cur := st.heap[key]
		ini := x.init[key]
		if b := st.base[key]; b != "" {
			ini = b
		}
		if cur == ini {
			continue
		}
		switch key[:2] {
		case "L:":
			x.assert(fmt.Sprintf("forall|r: int| %s[r] == #[trigger] %s[r]", ini, cur), "lock", "every lock taken is released ("+key[2:]+")", nil)
			continue
		}
		if con.anyeffect {
			continue
		}
		switch key[:2] {
		case "H:":
			a := get(key)
			if a.all {
				continue
			}
			ex := ""
			for _, r := range a.refs {
				ex += fmt.Sprintf(" && r != %s", r)
			}
			for _, p := range a.preds {
				ex += fmt.Sprintf(" && !(%s)", p)
			}
			x.assert(fmt.Sprintf("forall|r: int| %s.dom().contains(r)%s ==> #[trigger] %s[r] == %s[r]", ini, ex, cur, ini), "frame", key[2:]+" objects not named by modifies are unchanged", nil)
			if !a.alloc {
				x.assert(fmt.Sprintf("forall|r: int| #[trigger] %s.dom().contains(r) ==> %s.dom().contains(r)", cur, ini), "frame", "allocates no "+key[2:], nil)
			}
		default:
			if get(key).all {
				continue
			}
			x.assert(fmt.Sprintf("%s =~= %s", cur, ini), "frame", key[2:]+" is unchanged", nil)
		}
	}
}

func (x *Ex) topRet(st *State, rs []V) {
	env := x.entryEnvAt(st)
	for _, r := range rs {
		if r.lockMap && x.g.locks != nil {
			x.assert("false", "lock", "a guarded "+r.lockKey[2:]+" map is returned and outlives its lock", nil)
		}
	}
	for i, r := range x.con.results {
		t := x.top.sig.Results().At(i).Type()
		env.vars[r] = SV{rs[i].t, t}
		if inList(x.con.fresh, r) {
			if d := x.g.so.refStruct(t); d != nil {
				ini := x.heapOf(x.entrySt0(), "H:"+d.short)
				x.assert(fmt.Sprintf("%s != 0 && !%s.dom().contains(%s) && %s.dom().contains(%s)", rs[i].t, ini, rs[i].t, x.heapOf(st, "H:"+d.short), rs[i].t), "fresh", r+" is a new object", nil)
			} else if hasRegion(t) && rs[i].reg != "" {
				if !strings.HasPrefix(rs[i].reg, "fresh#") || st.esc["escaped:"+rs[i].reg] || st.esc["consumed:"+rs[i].reg] {
					x.assert("false", "ownership", "the result shares memory with "+rs[i].reg, nil)
				}
			}
		} else if strings.HasPrefix(rs[i].reg, "borrow:") {
			x.assert("false", "ownership", "the result keeps borrowed bytes", nil)
		}
		if st.esc["consumed:"+rs[i].reg] && rs[i].reg != "" {
			x.assert("false", "ownership", "returns a buffer after it was given away", nil)
		}
	}
	// objects that keep bytes of the caller
	for _, key := range sortedKeys(st.meta) {
		if !strings.HasPrefix(st.meta[key].reg, "borrow:") {
			continue
		}
		q := strings.SplitN(key, "|", 2)
		for i, r := range rs {
			nm := ""
			if i < len(x.con.results) {
				nm = x.con.results[i]
			}
			if hasIdent(r.t, q[0]) && (r.t != q[0] || x.con.aliases[nm+"->"+q[1]] != st.meta[key].reg[7:]) {
				x.assert("false", "ownership", "the result keeps borrowed bytes", nil)
			}
		}
		if st.esc["held:"+q[0]] {
			x.assert("false", "ownership", "an object keeps borrowed bytes", nil)
		}
	}
	for i, p := range x.con.params {
		if inList(x.con.inout, p) {
			var pv *types.Var
			sig := x.top.sig
			if sig.Recv() != nil {
				if i == 0 {
					pv = sig.Recv()
				} else {
					pv = sig.Params().At(i - 1)
				}
			} else {
				pv = sig.Params().At(i)
			}
			env.vars[p+"_out"] = SV{st.vars[pv].t, pv.Type()}
		}
	}
	for _, r := range x.con.records {
		if x.con.mentionsResult(r.text) {
			x.setHeap(st, "G:"+r.name, x.subst(r.text, env))
		}
	}
	for _, h := range x.con.exit {
		x.hint(h, env)
	}
	if x.con.panics == "iff" {
		x.assert("!("+x.subst(x.con.panicsE, x.entryEnv)+")", "panics", "returns although it must panic", nil)
	}
	for _, e := range x.con.ensures {
		x.assert(x.substClause(e, env), "postcondition", e.name, nil)
	}
	x.heapFrame(st)
	x.leaf()
}

func (x *Ex) entrySt0() *State { return x.entryEnv.st }

func (x *Ex) topPanic(st *State, v string) {
	env := x.entryEnvAt(st)
	env.vars["pv"] = SV{v, nil}
	switch x.con.panics {
	case "never":
		x.assert("false", "panics", "a panic escapes", x.curNode)
	case "only":
		x.assert(x.subst(x.con.panicsE, env), "panics", "panics with something else", x.curNode)
	case "iff":
		x.assert(x.subst(x.con.panicsE, x.entryEnv), "panics", "panics although it must not", x.curNode)
	}
	if x.con.panics != "never" {
		for _, e := range x.con.xensures {
			x.assert(x.substClause(e, env), "exceptional-postcondition", e.name, nil)
		}
		x.heapFrame(st)
	}
	x.leaf()
}

// initVC: what the initialiser of a package variable establishes (a contract without parameters whose result is the value).
func (g *Gen) initVC(key string) (vc *VC) {
	con := g.sp.contracts[key]
	name := strings.TrimPrefix(key, "initially:")
	vc = &VC{key: key}
	var gi *GlobalInfo
	for v, i := range g.pr.globals {
		if globalKey(v) == name {
			gi = i
		}
	}
	if gi == nil || gi.init == nil {
		vc.err = "package variable " + name + " with its own initialiser does not exist any more"
		return
	}
	vc.pos = g.pr.pos(gi.obj.Pos())
	x := newEx(g, key, con)
	x.noOwn = true
	x.noGlobalInv = name
	x.fi = &FuncInfo{key: key, pkg: gi.pkg}
	g.cur = map[string]bool{}
	defer func() {
		vc.used = sortedKeys(g.cur)
		vc.calls = sortedKeys(x.calls)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				vc.err = "outside the supported subset: " + e.msg
			case specErr:
				vc.err = "contract does not fit the code: " + e.msg
			default:
				if os.Getenv("GOV_DEBUG") != "" {
					panic(e)
				}
				vc.err = fmt.Sprintf("internal: %v", e)
			}
			vc.obls = nil
		}
	}()
	if len(con.params) != 0 || len(con.results) != 1 {
		panic(specErr{"an initially contract has no parameters and one result"})
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", gi.obj.Type())), false)
	st := newState()
	f := &Frame{pkg: gi.pkg, sig: sig}
	f.onPanic = func(st *State, v string) { x.topPanic(st, v) }
	st.frame = f
	x.top = f
	env := &Env{vars: map[string]SV{}, st: st, at: map[string]*Env{}}
	env.old = env
	x.entryEnv = env
	var pre []string
	for _, r := range con.requires {
		pre = append(pre, x.substClause(r, env))
	}
	env.st = st.clone()
	x.ind = 1
	for _, h := range con.entry {
		x.hint(h, env)
	}
	x.evalTo(gi.init, gi.obj.Type(), st, func(st *State, v V) { x.topRet(st, []V{v}) })
	vc.obls = x.obls
	vc.smoke = x.smoke
	vc.body = x.out.String()
	vc.params = x.params
	vc.pre = append(pre, x.gfacts...)
	vc.rlimit = con.rlimit
	vc.bodyLines = x.line
	return
}

// globalVC: the initialiser of a package variable establishes its invariant.
func (g *Gen) globalVC(name string) (vc *VC) {
	cl := g.sp.globalinv[name]
	vc = &VC{key: "init:" + name}
	var gi *GlobalInfo
	for v, i := range g.pr.globals {
		if globalKey(v) == name {
			gi = i
		}
	}
	if gi == nil {
		vc.err = "package variable " + name + " does not exist any more"
		return
	}
	vc.pos = g.pr.pos(gi.obj.Pos())
	con := &Contract{key: vc.key, panics: "never", loops: map[int]*LoopSpec{}, after: map[string][]string{}, before: map[string][]string{}, aliases: map[string]string{}}
	x := newEx(g, vc.key, con)
	x.noOwn = true
	x.fi = &FuncInfo{key: vc.key, pkg: gi.pkg}
	g.cur = map[string]bool{}
	defer func() {
		vc.used = sortedKeys(g.cur)
		vc.calls = sortedKeys(x.calls)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				vc.err = "outside the supported subset: " + e.msg
			case specErr:
				vc.err = "contract does not fit the code: " + e.msg
			default:
				if os.Getenv("GOV_DEBUG") != "" {
					panic(e)
				}
				vc.err = fmt.Sprintf("internal: %v", e)
			}
		}
	}()
	st := newState()
	f := &Frame{pkg: gi.pkg}
	f.onPanic = func(st *State, v string) {
		x.assert("false", "panics", "a panic escapes", nil)
		x.leaf()
	}
	st.frame = f
	x.top = f
	x.entryEnv = &Env{vars: map[string]SV{}, st: st.clone(), at: map[string]*Env{}}
	x.entryEnv.old = x.entryEnv
	x.ind = 1
	if gi.init == nil {
		vc.err = "no initialiser"
		return
	}
	x.noGlobalInv = name
	x.evalTo(gi.init, gi.obj.Type(), st, func(st *State, v V) {
		env := &Env{vars: map[string]SV{"self": {v.t, gi.obj.Type()}}, st: st, old: x.entryEnv, at: map[string]*Env{}}
		x.assert(x.substClause(cl, env), "global-invariant", name, gi.init)
		x.leaf()
	})
	vc.obls = x.obls
	vc.smoke = x.smoke
	vc.body = x.out.String()
	vc.params = x.params
	vc.pre = x.gfacts
	vc.bodyLines = x.line
	return
}

func (vc *VC) render(g *Gen, smoke bool) string {
	var b strings.Builder
	if vc.rlimit != "" {
		fmt.Fprintf(&b, "#[verifier::rlimit(%s)]\n", vc.rlimit)
	}
	fmt.Fprintf(&b, "proof fn vc_%s(%s)\n", mangle(vc.key), strings.Join(vc.params, ", "))
	if len(vc.pre) > 0 {
		b.WriteString("  requires\n")
		for _, p := range vc.pre {
			b.WriteString("    " + p + ",\n")
		}
	}
	b.WriteString("{\n")
	var use []string
	all := vc.body + strings.Join(vc.pre, " ")
	for _, s := range g.litN {
		if strings.Contains(all, g.lits[s]+"()") {
			use = append(use, g.lits[s]+"_facts")
		}
	}
	sort.Strings(use)
	use = append(use, "gov_axioms")
	fmt.Fprintf(&b, "  broadcast use {%s};\n", strings.Join(use, ", "))
	head := strings.Count(b.String(), "\n")
	vc.head = head
	body := vc.body
	if smoke {
		lines := strings.Split(body, "\n")
		for i, l := range lines {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "assert(") {
				// keep as assumption
				lines[i] = ""
			}
			if t == "// leaf" {
				lines[i] = "assert(false);"
			}
		}
		body = strings.Join(lines, "\n")
	}
	b.WriteString(body)
	b.WriteString("}\n")
	return b.String()
}

type outFunc struct {
	Key         string   `json:"key"`
	Pos         string   `json:"pos"`
	Err         string   `json:"err,omitempty"`
	Vc          string   `json:"vc"`
	Line        int      `json:"line"`
	End         int      `json:"end"`
	Obligations []*Obl   `json:"obligations"`
	Leaves      []int    `json:"leaves"`
	Assumptions []string `json:"assumptions"`
	Calls       []string `json:"calls"`
	Trusted     bool     `json:"trusted,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specDir := flag.String("specs", "/verif/contracts", "directory of contracts and the prelude")
	cone := flag.String("cone", "", "property whose cone to generate")
	keys := flag.String("funcs", "", "comma separated functions instead of a cone")
	out := flag.String("out", "", "output file (Verus)")
	list := flag.Bool("list", false, "list contracts")
	flag.Parse()
	fail := func(err error) {
		fmt.Fprintln(os.Stderr, "gov:", err)
		os.Exit(2)
	}
	pr, err := load(*repo)
	if err != nil {
		fail(err)
	}
	sp := newSpecs()
	files, _ := filepath.Glob(filepath.Join(*specDir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			fail(err)
		}
	}
	g := &Gen{pr: pr, sp: sp, so: &Sorts{pr: pr, structs: map[string]*StructSort{}}, lits: map[string]string{}, tags: map[string]string{}, fns: map[string]string{}, cone: *cone}
	g.so.g = g
	g.findBoxed()
	g.buildCalls()
	if *list {
		for _, k := range sortedKeys(sp.contracts) {
			fmt.Println(k)
		}
		return
	}
	var want []string
	if *keys != "" {
		want = strings.Split(*keys, ",")
	} else if *cone == "all" {
		for k, c := range sp.contracts {
			if !c.extern && !c.trusted && !c.inline {
				want = append(want, k)
			}
		}
		for k := range sp.globalinv {
			want = append(want, "init:"+k)
		}
		sort.Strings(want)
	} else {
		want = sp.cones[*cone]
		if sp.lockMode[*cone] {
			g.locks = g.findLocks()
			want = g.locks.roots
		}
		if len(want) == 0 {
			fail(fmt.Errorf("no cone for %q", *cone))
		}
	}
	// close over the contracts the functions rely on
	var fs []*outFunc
	var vcs []*VC
	seen := map[string]bool{}
	for i := 0; i < len(want); i++ {
		k := want[i]
		if seen[k] {
			continue
		}
		seen[k] = true
		var vc *VC
		if strings.HasPrefix(k, "init:") {
			vc = g.globalVC(k[5:])
		} else if strings.HasPrefix(k, "initially:") && g.locks == nil && sp.contracts[k] != nil {
			vc = g.initVC(k)
		} else {
			var only []string
			if j := strings.Index(k, "/"); j >= 0 {
				only = strings.Split(k[j+1:], ",")
				k = k[:j]
			}
			c := sp.contracts[k]
			if g.locks != nil {
				vcs0 := g.verify(k)
				vcs0.calls = nil
				vcs = append(vcs, vcs0)
				fs = append(fs, &outFunc{Key: vcs0.key, Pos: vcs0.pos, Err: vcs0.err, Vc: "vc_" + mangle(vcs0.key), Assumptions: vcs0.used})
				continue
			}
			if c == nil {
				fail(fmt.Errorf("no contract for %s", k))
			}
			if c.extern || c.trusted || c.inline {
				continue
			}
			if only != nil && only[0] != "*" {
				c = c.restrict(only)
			}
			if strings.HasPrefix(k, "initially:") {
				vc = g.initVC(k)
			} else {
				vc = g.verifyAs(k, c)
			}
		}
		if j := strings.Index(want[i], "/"); j >= 0 {
			// the callees' contracts are verified in the cones of other properties
			if want[i][j+1:] != "*" {
				vc.key += " (" + want[i][j+1:] + " only)"
			} else {
				for _, cl := range vc.calls {
					if strings.HasPrefix(cl, "init:") {
						want = append(want, cl)
					}
				}
			}
			vc.used = append(vc.used, "callee contracts of "+k+" are verified under other properties")
			vcs = append(vcs, vc)
			fs = append(fs, &outFunc{Key: vc.key, Pos: vc.pos, Err: vc.err, Vc: "vc_" + mangle(vc.key), Assumptions: vc.used, Calls: vc.calls})
			continue
		}
		for _, cl := range vc.calls {
			if c := sp.contracts[cl]; c != nil && !c.extern && !c.trusted && !c.inline {
				want = append(want, cl)
			}
			if strings.HasPrefix(cl, "init:") {
				want = append(want, cl)
			}
		}
		vcs = append(vcs, vc)
		fs = append(fs, &outFunc{Key: vc.key, Pos: vc.pos, Err: vc.err, Vc: "vc_" + mangle(vc.key), Assumptions: vc.used, Calls: vc.calls})
	}
	if g.locks != nil {
		for _, s := range g.locks.stray {
			fs = append(fs, &outFunc{Key: "package variable", Err: "guarded field outside a function: " + s})
			vcs = append(vcs, &VC{key: "package variable", err: "guarded field"})
		}
	}
	prel, err := os.ReadFile(filepath.Join(*specDir, "prelude.rs"))
	if err != nil {
		fail(err)
	}
	theory, _ := filepath.Glob(filepath.Join(*specDir, "theory*.rs"))
	sort.Strings(theory)
	if th, ok := sp.theory[*cone]; ok {
		theory = nil
		for _, t := range th {
			theory = append(theory, filepath.Join(*specDir, "theory_"+t+".rs"))
		}
	}
	for pass := 0; pass < 2; pass++ {
		smoke := pass == 1
		var b strings.Builder
		b.Write(prel)
		for _, t := range theory {
			tb, _ := os.ReadFile(t)
			b.Write(tb)
		}
		var bodies strings.Builder
		var starts []int
		line := 0
		for i, vc := range vcs {
			if vc.err != "" {
				starts = append(starts, 0)
				continue
			}
			t := vc.render(g, smoke)
			starts = append(starts, line)
			_ = i
			bodies.WriteString(t)
			line += strings.Count(t, "\n")
		}
		text := b.String()
		// structs mentioned by the theory must exist
		for _, n := range structRefs(text) {
			g.so.ensure(n)
		}
		text = strings.Replace(text, "//@TAGS@", "", 1)
		for _, tg := range tagRefs(text + bodies.String()) {
			g.tags[tg] = tg
		}
		for _, f := range fnRe.FindAllString(text+bodies.String(), -1) {
			g.fns[strings.TrimSuffix(f, "()")] = f
		}
		g.litRefs(text)
		text = strings.ReplaceAll(text, "/*literals*/", "broadcast use {"+strings.Join(g.litFacts(text), ", ")+"};")
		text = g.replaceLits(text)
		text += g.so.emit() + g.emitConsts()
		off := strings.Count(text, "\n")
		text += bodies.String() + "} // verus!\n"
		name := *out
		if smoke {
			name = strings.TrimSuffix(*out, ".rs") + "_smoke.rs"
		}
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			fail(err)
		}
		if !smoke {
			for i, vc := range vcs {
				if vc.err != "" {
					continue
				}
				base := off + starts[i] + vc.head + 1
				for _, o := range vc.obls {
					o.Line += base
					o.End += base - 1
				}
				fs[i].Obligations = vc.obls
				fs[i].Line = off + starts[i] + 1
				fs[i].End = base + vc.bodyLines
				for _, l := range vc.smoke {
					fs[i].Leaves = append(fs[i].Leaves, l+base)
				}
			}
		}
	}
	var res struct {
		Funcs       []*outFunc `json:"funcs"`
		Lemmas      []string   `json:"lemmas"`
		Assumptions []string   `json:"assumptions"`
		TheoryLines int        `json:"theory_lines"`
	}
	res.Funcs = fs
	res.Lemmas = sp.lemmas[*cone]
	res.Assumptions = sp.assume[*cone]
	j, _ := json.MarshalIndent(&res, "", " ")
	os.WriteFile(strings.TrimSuffix(*out, ".rs")+".json", j, 0o644)
}
