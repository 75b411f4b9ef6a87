package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// Lock discipline.  In this mode every function that touches guarded fields or their locks is verified against a
// synthesized contract that speaks about locks only: it starts with every lock it may take free, it may return or
// panic with anything, and on every exit every lock is as it was.  Nothing is assumed about the data, so the result
// does not depend on what the functions compute.

type Locks struct {
	g       *Gen
	direct  map[string]bool
	dom     map[string]bool            // functions whose bodies must be looked at
	touched map[string]map[string]bool // struct sorts a call may lock
	rec     map[string]bool
	valued  map[string]bool // used other than in a call
	called  map[string]bool
	roots   []string
	stray   []string
}

func structOf(t types.Type) *types.Named {
	t = deref(types.Unalias(t))
	n := named(t)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func shortOf(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "_" + n.Obj().Name()
}

// varTouch: the lock of a guarded package variable the name stands for, or of the one it guards.
func (g *Gen) varTouch(in *types.Info, e *ast.Ident) string {
	v, ok := in.Uses[e].(*types.Var)
	if !ok || g.pr.globals[v] == nil {
		return ""
	}
	if s := "g_" + ident(strings.ReplaceAll(globalKey(v), ".", "_")); g.sp.guarded[s] != nil {
		return s
	}
	return g.guardOf(v)
}

func (g *Gen) guardOf(v *types.Var) string {
	for _, s := range sortedKeys(g.sp.guarded) {
		if strings.HasPrefix(s, "g_") && g.sp.guarded[s].fields[globalKey(v)] {
			return s
		}
	}
	return ""
}

// varCheck: guarded package variables are touched only while holding the lock.
func (x *Ex) varCheck(st *State, v *types.Var, write bool, n ast.Node) string {
	if x.g.locks == nil {
		return ""
	}
	s := x.g.guardOf(v)
	if s == "" {
		return ""
	}
	l := x.heapOf(st, x.g.sp.guarded[s].lock) + "[1int]"
	if write {
		x.assert(l+" == 2", "lock", "write of "+globalKey(v)+" without exclusive lock", n)
	} else {
		x.assert(l+" >= 1", "lock", "read of "+globalKey(v)+" without lock", n)
	}
	return x.g.sp.guarded[s].lock
}

// selTouch: the guarded struct whose field or lock the selector reaches.
func (g *Gen) selTouch(in *types.Info, e *ast.SelectorExpr) string {
	s, ok := in.Selections[e]
	if !ok {
		return ""
	}
	t := s.Recv()
	ix := s.Index()
	var owner *types.Named
	field := ""
	for i, j := range ix {
		n := structOf(t)
		if i == len(ix)-1 && s.Kind() != types.FieldVal {
			break
		}
		if n == nil {
			return ""
		}
		f := n.Underlying().(*types.Struct).Field(j)
		owner, field = n, f.Name()
		t = f.Type()
	}
	if s.Kind() == types.MethodVal {
		fn, ok := s.Obj().(*types.Func)
		if !ok || fn.Type().(*types.Signature).Recv() == nil || !isMutex(deref(fn.Type().(*types.Signature).Recv().Type())) || owner == nil {
			return ""
		}
		if g.sp.guarded[shortOf(owner)] != nil {
			return shortOf(owner)
		}
		return ""
	}
	if owner == nil {
		return ""
	}
	if gd := g.sp.guarded[shortOf(owner)]; gd != nil && (gd.fields[field] || isMutex(t)) {
		return shortOf(owner)
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (g *Gen) findLocks() *Locks {
	l := &Locks{g: g, direct: map[string]bool{}, dom: map[string]bool{}, touched: map[string]map[string]bool{}, rec: map[string]bool{}, valued: map[string]bool{}, called: map[string]bool{}}
	var keys []string
	for _, fi := range g.pr.funcs {
		keys = append(keys, fi.key)
		m := map[string]bool{}
		ast.Inspect(fi.decl, func(n ast.Node) bool {
			if e, ok := n.(*ast.SelectorExpr); ok {
				if s := g.selTouch(fi.pkg.info, e); s != "" {
					m[s] = true
					l.direct[fi.key] = true
				}
			}
			if e, ok := n.(*ast.Ident); ok {
				if s := g.varTouch(fi.pkg.info, e); s != "" {
					m[s] = true
					l.direct[fi.key] = true
				}
			}
			return true
		})
		l.touched[fi.key] = m
	}
	sort.Strings(keys)
	for _, p := range g.pr.pkgs {
		for _, f := range p.files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				ast.Inspect(gd, func(n ast.Node) bool {
					if e, ok := n.(*ast.SelectorExpr); ok {
						if s := g.selTouch(p.info, e); s != "" {
							l.stray = append(l.stray, g.pr.pos(e.Pos())+": "+g.pr.text(e))
						}
					}
					if e, ok := n.(*ast.Ident); ok {
						if s := g.varTouch(p.info, e); s != "" {
							l.stray = append(l.stray, g.pr.pos(e.Pos())+": "+g.pr.text(e))
						}
					}
					return true
				})
			}
			callPos := map[*ast.Ident]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					switch fn := ast.Unparen(c.Fun).(type) {
					case *ast.Ident:
						callPos[fn] = true
					case *ast.SelectorExpr:
						callPos[fn.Sel] = true
					}
				}
				return true
			})
			ast.Inspect(f, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if fn, ok := p.info.Uses[id].(*types.Func); ok && g.pr.funcs[fn] != nil {
						if callPos[id] {
							l.called[funcKey(fn)] = true
						} else {
							l.valued[funcKey(fn)] = true
						}
					}
				}
				return true
			})
		}
	}
	for ch := true; ch; {
		ch = false
		for _, k := range keys {
			for c := range g.callg[k] {
				for s := range l.touched[c] {
					if !l.touched[k][s] {
						l.touched[k][s] = true
						ch = true
					}
				}
			}
		}
	}
	for k := range l.direct {
		l.dom[k] = true
	}
	for ch := true; ch; {
		ch = false
		for _, k := range keys {
			if l.dom[k] {
				continue
			}
			for c := range g.callg[k] {
				if l.dom[c] && !exportedKey(c) {
					l.dom[k] = true
					ch = true
				}
			}
		}
	}
	for k := range l.dom {
		l.rec[k] = g.reach(k, k)
	}
	for _, k := range keys {
		if l.dom[k] && (exportedKey(k) || l.rec[k] || l.valued[k] || strings.HasSuffix(k, ".main") || strings.HasSuffix(k, ".init")) {
			l.roots = append(l.roots, k)
		}
	}
	return l
}

func exportedKey(k string) bool {
	return ast.IsExported(lastPart(k))
}

// lockContract is the contract of a root.
func (l *Locks) contract(key string) *Contract {
	fi := l.g.pr.byKey[key]
	sig := fi.obj.Type().(*types.Signature)
	c := &Contract{key: key, panics: "may", mathint: true, diverges: true, anyeffect: true, loops: map[int]*LoopSpec{}, after: map[string][]string{}, before: map[string][]string{}, aliases: map[string]string{}}
	own := ""
	if sig.Recv() != nil {
		c.params = append(c.params, "recv")
		if n := structOf(deref(sig.Recv().Type())); n != nil {
			own = shortOf(n)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		c.params = append(c.params, fmt.Sprintf("arg%d", i))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		c.results = append(c.results, fmt.Sprintf("res%d", i))
	}
	for _, s := range sortedKeys(l.touched[key]) {
		if s == own && l.rec[key] && !exportedKey(key) {
			// an internal recursive operation runs under the exclusive lock of its receiver
			c.requires = append(c.requires, Clause{name: "lock", text: fmt.Sprintf("$L_%s[recv] == 2 && forall|r: int| r != recv ==> #[trigger] $L_%s[r] == 0", s, s)})
			continue
		}
		c.requires = append(c.requires, Clause{name: "lock", text: fmt.Sprintf("forall|r: int| #[trigger] $L_%s[r] == 0", s)})
	}
	return c
}

// lockCall is a call in lock mode.
func (x *Ex) lockCall(c *callee, st *State, k KVs) {
	l := x.g.locks
	key := ""
	var fi *FuncInfo
	if c.fn != nil {
		key = c.name
		fi = x.g.pr.funcs[c.fn]
		if fi == nil {
			if r := c.sig.Recv(); r != nil {
				if n := named(r.Type()); n != nil {
					if impl := x.g.pr.impls[n.Obj()]; impl != nil {
						obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(impl), true, c.fn.Pkg(), c.fn.Name())
						if m, ok := obj.(*types.Func); ok && x.g.pr.funcs[m] != nil {
							key = funcKey(m)
							fi = x.g.pr.funcs[m]
						}
					}
				}
			}
		}
	}
	if fi != nil && l.dom[key] && !exportedKey(key) && !l.rec[key] && fi.obj == c.fn {
		d := 0
		for f := st.frame; f != nil; f = f.parent {
			d++
		}
		if d > 14 {
			x.unsup(c.call, "inlining too deep")
		}
		x.inline(c, fi, fi.decl.Type, fi.decl.Body, c.sig, nil, st, k)
		return
	}
	if fi != nil {
		if sig := fi.obj.Type().(*types.Signature); l.rec[key] && !exportedKey(key) && sig.Recv() != nil {
			con := l.contract(key)
			env := &Env{vars: map[string]SV{"recv": {c.args[0].t, c.argT[0]}}, st: st, at: map[string]*Env{}}
			env.old = env
			for _, r := range con.requires {
				x.assert(x.substClause(r, env), "lock", key+" is called with other locks than it expects", c.call)
			}
		} else {
			for _, s := range sortedKeys(l.touched[key]) {
				x.assert(fmt.Sprintf("forall|r: int| #[trigger] %s[r] == 0", x.heapOf(st, "L:"+s)), "lock", "calls "+key+", which takes a lock that may be held already", c.call)
			}
		}
	}
	x.havocAll(st)
	p := x.fresh("bool", "panics")
	x.ite(p, func() {
		st := st.clone()
		pv := x.fresh("Val", "pv")
		x.assume("!("+pv+" is Nil)", func() {
			if c.onPanic != nil {
				c.onPanic(st, pv)
				return
			}
			x.raise(st, pv)
		})
	}, func() { x.havocResults(c, st.clone(), k) })
}

// havocAll forgets everything but the locks.
func (x *Ex) havocAll(st *State) {
	keys := map[string]bool{}
	for k := range x.init {
		keys[k] = true
	}
	for k := range st.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if k[:2] == "L:" {
			continue
		}
		st.heap[k] = x.fresh(x.heapSort(k), "any_"+strings.Map(identRune, k[2:]))
		if x.log != nil {
			x.log[k] = true
		}
	}
	for m := range st.meta {
		delete(st.meta, m)
	}
}

// detached runs a body that starts later with every lock free (a goroutine or an escaping function literal).
func (x *Ex) detached(st *State, run func(st *State, ret func(st *State))) {
	st = st.clone()
	st.pan = nil
	x.havocAll(st)
	var fs []string
	for _, s := range sortedKeys(x.g.sp.guarded) {
		key := x.g.sp.guarded[s].lock
		x.heapOf(st, key)
		st.heap[key] = x.fresh("Map<int, int>", "free")
		fs = append(fs, fmt.Sprintf("(forall|r: int| #[trigger] %s[r] == 0)", st.heap[key]))
	}
	x.assumeAll(fs, func() {
		run(st, func(st *State) {
			for _, s := range sortedKeys(x.g.sp.guarded) {
				key := x.g.sp.guarded[s].lock
				x.assert(fmt.Sprintf("forall|r: int| #[trigger] %s[r] == 0", x.heapOf(st, key)), "lock", "every lock taken is released ("+key[2:]+")", nil)
			}
			x.leaf()
		})
	})
}

// touchesLit: a function literal that touches guarded state or calls something that does.
func (x *Ex) touchesLit(in *types.Info, lit *ast.FuncLit) bool {
	hit := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if e, ok := n.(*ast.SelectorExpr); ok && x.g.selTouch(in, e) != "" {
			hit = true
		}
		if id, ok := n.(*ast.Ident); ok {
			if x.g.varTouch(in, id) != "" {
				hit = true
			}
			if fn, ok := in.Uses[id].(*types.Func); ok && x.g.pr.funcs[fn] != nil && len(x.g.locks.touched[funcKey(fn)]) > 0 {
				hit = true
			}
		}
		return true
	})
	return hit
}

// onlyCalled: the literal is the value of a local variable that is only ever called.
func (x *Ex) onlyCalled(st *State, lit *ast.FuncLit) bool {
	fn := st.frame.fn
	if fn == nil {
		return false
	}
	in := fn.pkg.info
	var v *types.Var
	ast.Inspect(fn.decl, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, r := range n.Rhs {
				if ast.Unparen(r) == ast.Expr(lit) && len(n.Lhs) == len(n.Rhs) {
					if id, ok := n.Lhs[i].(*ast.Ident); ok {
						if d, ok := in.Defs[id].(*types.Var); ok {
							v = d
						} else if d, ok := in.Uses[id].(*types.Var); ok {
							v = d
						}
					}
				}
			}
		case *ast.ValueSpec:
			for i, r := range n.Values {
				if ast.Unparen(r) == ast.Expr(lit) && i < len(n.Names) {
					v, _ = in.Defs[n.Names[i]].(*types.Var)
				}
			}
		}
		return true
	})
	if v == nil {
		return false
	}
	ok := true
	called := map[*ast.Ident]bool{}
	ast.Inspect(fn.decl, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			return true
		case *ast.CallExpr:
			if id, is := ast.Unparen(n.Fun).(*ast.Ident); is {
				called[id] = true
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, is := l.(*ast.Ident); is {
					called[id] = true
				}
			}
		}
		return true
	})
	ast.Inspect(fn.decl, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is && in.Uses[id] == v && !called[id] {
			ok = false
		}
		return true
	})
	return ok
}

// escapingLit examines a function literal used as a value.
func (x *Ex) escapingLit(st *State, lit *ast.FuncLit, k func(st *State)) {
	if !x.touchesLit(x.info(st), lit) || x.onlyCalled(st, lit) {
		k(st)
		return
	}
	sig := x.typeOf(st, lit).(*types.Signature)
	outer := st.frame
	x.ite(x.fresh("bool", "later"), func() {
		x.detached(st, func(st *State, ret func(st *State)) {
			f := &Frame{fn: outer.fn, pkg: outer.pkg, sig: sig, ret: func(st *State, _ []V) { ret(st) }, onPanic: func(st *State, _ string) { ret(st) }}
			st.frame = f
			for i := 0; i < sig.Results().Len(); i++ {
				r := sig.Results().At(i)
				f.results = append(f.results, r)
				st.vars[r] = V{t: x.g.so.zero(r.Type())}
			}
			var rec func(i int, st *State)
			rec = func(i int, st *State) {
				if i == sig.Params().Len() {
					x.execList(lit.Body.List, st, nil, func(st *State) { x.leave(st) })
					return
				}
				p := sig.Params().At(i)
				v := x.fresh(x.g.so.of(p.Type()), "p")
				x.assumeAll(x.typeFacts(p.Type(), v, st), func() {
					x.declare(st, p, V{t: v}, func(st *State) { rec(i+1, st) })
				})
			}
			rec(0, st)
		})
	}, func() { k(st.clone()) })
}

// goCall: the started call runs with every lock free.
func (x *Ex) goCall(c *callee, st *State, k func(st *State)) {
	x.ite(x.fresh("bool", "other"), func() {
		x.detached(st, func(st *State, ret func(st *State)) {
			c2 := *c
			c2.onPanic = func(st *State, _ string) { ret(st) }
			x.doCall(&c2, st, func(st *State, _ []V) { ret(st) })
		})
	}, func() { k(st.clone()) })
}

// lockedUse: a guarded map (or the elements of a guarded slice, for writes) is used only under its lock.
func (x *Ex) lockedUse(st *State, v V, write bool, n ast.Node) {
	if v.lockKey == "" || x.g.locks == nil {
		return
	}
	l := fmt.Sprintf("%s[%s]", x.heapOf(st, v.lockKey), v.lockRef)
	if write {
		x.assert(l+" == 2", "lock", "write to the contents of a guarded "+v.lockKey[2:]+" field without exclusive lock", n)
	} else if v.lockMap {
		x.assert(l+" >= 1", "lock", "use of a guarded "+v.lockKey[2:]+" map without lock", n)
	}
}
