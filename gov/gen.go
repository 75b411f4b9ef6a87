package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Gen struct {
	locks *Locks
	pr    *Prog
	sp    *Specs
	so    *Sorts
	lits  map[string]string // text -> fn name
	litN  []string
	tags  map[string]string // type name -> fn name
	fns   map[string]string // function constants
	cur   map[string]bool   // assumptions used by the function at hand
	boxed map[*types.Var]bool
	callg map[string]map[string]bool
	cone  string
}

// hasTheory: the functions of a theory file can be named in what is proved.
func (g *Gen) hasTheory(name string) bool {
	for _, t := range g.sp.theory[g.cone] {
		if t == name {
			return true
		}
	}
	return false
}

func (g *Gen) structShort(n string) string {
	n = strings.Replace(n, ".", "_", 1)
	for _, d := range g.so.structs {
		if d.short == n {
			return n
		}
	}
	var found []string
	for path, p := range g.pr.pkgs {
		_ = path
		sc := p.tpkg.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, ok := nt.Underlying().(*types.Struct); ok && (nm == n || p.name+"_"+nm == n) {
						found = append(found, g.so.structSort(nt).short)
					}
				}
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	for _, d := range g.so.structs {
		if strings.HasSuffix(d.short, "_"+n) {
			return d.short
		}
	}
	// a struct of a dependency
	for _, p := range g.pr.pkgs {
		for _, ip := range p.tpkg.Imports() {
			if !strings.HasPrefix(n, ip.Name()+"_") {
				continue
			}
			if tn, ok := ip.Scope().Lookup(strings.TrimPrefix(n, ip.Name()+"_")).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, ok := nt.Underlying().(*types.Struct); ok {
						return g.so.structSort(nt).short
					}
				}
			}
		}
	}
	panic(specErr{"unknown or ambiguous struct " + n})
}

func (g *Gen) lit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	if f, ok := g.lits[s]; ok {
		return f + "()"
	}
	clean := ""
	for _, c := range s {
		if len(clean) < 16 && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			clean += string(c)
		}
	}
	f := fmt.Sprintf("lit_%x_%s", fnv(s), clean)
	g.lits[s] = f
	g.litN = append(g.litN, s)
	return f + "()"
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func (g *Gen) tag(t types.Type) string {
	var n string
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		if nn := named(p.Elem()); nn != nil {
			n = "tag_" + strings.ReplaceAll(qname(nn), ".", "_")
		}
	} else if nn := named(t); nn != nil {
		n = "tagv_" + strings.ReplaceAll(qname(nn), ".", "_")
	}
	if c, ok := t.(*types.Chan); ok && isByteSlice(c.Elem()) {
		n = "tag_chan_bytes"
	}
	if n == "" {
		n = fmt.Sprintf("tagx_%x", fnv(t.String()))
	}
	g.tags[n] = n
	return n + "()"
}

func (g *Gen) fnConst(key string) string {
	f := "fn_" + strings.ReplaceAll(strings.ReplaceAll(key, ".", "_"), "/", "_")
	g.fns[f] = key
	return f + "()"
}

// emitConsts prints literals, tags and function constants.
func (g *Gen) emitConsts() string {
	var b strings.Builder
	lits := append([]string(nil), g.litN...)
	sort.Strings(lits)
	for _, s := range lits {
		f := g.lits[s]
		var el []string
		for i := 0; i < len(s); i++ {
			el = append(el, fmt.Sprintf("%du8", s[i]))
		}
		fmt.Fprintf(&b, "#[verifier::opaque] pub open spec fn %s() -> Seq<u8> { seq![%s] } // %q\n", f, strings.Join(el, ", "), s)
		fmt.Fprintf(&b, "pub broadcast proof fn %s_facts() ensures (#[trigger] %s()).len() == %d", f, f, len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, ", %s()[%d] == %d", f, i, s[i])
		}
		if len(s) <= 3 {
			fmt.Fprintf(&b, ", %s() == seq![%s]", f, strings.Join(el, ", "))
		}
		fmt.Fprintf(&b, " { reveal(%s); }\n", f)
	}
	var ts []string
	for t := range g.tags {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for i, t := range ts {
		fmt.Fprintf(&b, "pub open spec fn %s() -> int { %d }\n", t, i+1)
	}
	ts = nil
	for t := range g.fns {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for i, t := range ts {
		fmt.Fprintf(&b, "pub open spec fn %s() -> int { %d }\n", t, -(i + 1))
	}
	return b.String()
}

// Obl is one proof obligation.
type Obl struct {
	ID    string `json:"id"`
	Func  string `json:"func"`
	Kind  string `json:"kind"`
	Label string `json:"label"`
	Pos   string `json:"pos"`
	Text  string `json:"text"`
	Line  int    `json:"line"` // line within the function's text, later absolute
	End   int    `json:"end"`
}

// VC is the result for one function.
type VC struct {
	key             string
	text            string
	obls            []*Obl
	err             string
	smoke           []int // lines of reachable-leaf markers
	calls           []string
	used            []string
	pos             string
	body            string
	params, pre     []string
	rlimit          string
	head, bodyLines int
}

type V struct {
	t   string
	reg string // region of the bytes / elements ("" = immutable or irrelevant)
	cap string
	lit *ast.FuncLit
	lf  *Frame
	// contents of a guarded field: the lock that protects them
	lockKey, lockRef string
	lockMap          bool
	// a pointer to something that is no heap object: where it points (nil: the variable holding it is the only one)
	alias *LV
}

type Frame struct {
	parent  *Frame
	fn      *FuncInfo
	pkg     *Pkg
	sig     *types.Signature
	results []*types.Var
	ret     func(st *State, rs []V)
	onPanic func(st *State, v string)
	isDefer bool
	depth   int
	loopOrd map[ast.Node]int
}

type deferred struct {
	run func(st *State, k func(st *State), onPanic func(st *State, v string))
}

type panEntry struct {
	val       string // "" when not panicking
	recovered bool
}

type State struct {
	vars    map[*types.Var]V
	heap    map[string]string
	frame   *Frame
	defers  map[*Frame][]*deferred
	pan     []panEntry
	meta    map[string]V // "ref|field" -> region, cap
	freshR  map[string]bool
	nonnil  map[string]bool
	esc     map[string]bool // regions that escaped or were consumed
	hidden  map[string]string
	boxed   map[*types.Var]string // struct variables living in the heap: ref term
	iterPos map[string]bool
	facts   map[string]string
	base    map[string]string // heaps as the last critical section found them
	wrote   *wroteList        // locals assigned on this path
	goN     int               // inside the goroutine started by the N-th function literal
	goEnv   *Env              // the state at its start
}

type wroteList struct {
	v    *types.Var
	next *wroteList
}

func (s *State) clone() *State {
	n := &State{frame: s.frame, goN: s.goN, goEnv: s.goEnv, wrote: s.wrote, vars: make(map[*types.Var]V, len(s.vars)), heap: make(map[string]string, len(s.heap)), defers: make(map[*Frame][]*deferred, len(s.defers)),
		meta: make(map[string]V, len(s.meta)), freshR: make(map[string]bool, len(s.freshR)), nonnil: make(map[string]bool, len(s.nonnil)), esc: make(map[string]bool, len(s.esc)),
		hidden: make(map[string]string, len(s.hidden)), boxed: make(map[*types.Var]string, len(s.boxed)), facts: make(map[string]string, len(s.facts)), base: make(map[string]string, len(s.base))}
	for k, v := range s.base {
		n.base[k] = v
	}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v
	}
	n.pan = append([]panEntry(nil), s.pan...)
	for k, v := range s.meta {
		n.meta[k] = v
	}
	for k, v := range s.freshR {
		n.freshR[k] = v
	}
	for k, v := range s.nonnil {
		n.nonnil[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	for k, v := range s.hidden {
		n.hidden[k] = v
	}
	for k, v := range s.boxed {
		n.boxed[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

type unsupported struct {
	pos token.Pos
	msg string
}

// Ex executes one function symbolically and prints its verification condition.
type Ex struct {
	g           *Gen
	fi          *FuncInfo
	con         *Contract
	out         strings.Builder
	line        int
	ind         int
	params      []string
	psorts      map[string]string
	tails       map[string][2]string // a text that ends in bytes written out: what is before them, and they
	obls        []*Obl
	n           int
	guard       []string
	dry         int
	cut         map[*Frame]int // frames whose loop body is being explored
	log         map[string]bool
	logV        map[*types.Var]bool
	logE        map[string]bool
	noLet, noOb int
	noOwn       bool
	hintLocals  bool
	loopOrd     map[ast.Node]int
	goOrd       map[ast.Node]int
	recvPre     map[*ast.UnaryExpr]V
	appendBack  map[*ast.CallExpr]bool
	arrReg      map[string]bool // regions that are slices of local arrays
	entryEnv    *Env
	gfacts      []string
	noGlobalInv string
	init        map[string]string // initial heap terms
	paths       int
	top         *Frame
	smoke       []int
	deep        int
	calls       map[string]bool
	noAssert    map[string]bool
	curNode     ast.Node
}

func (x *Ex) emit(s string) {
	if x.dry > 0 {
		return
	}
	x.out.WriteString(strings.Repeat(" ", min(x.ind, 40)))
	x.out.WriteString(s)
	x.out.WriteByte('\n')
	x.line += 1 + strings.Count(s, "\n")
	if x.line > 60000 {
		panic(unsupported{token.NoPos, "verification condition too large"})
	}
}

func (x *Ex) fresh(sort, hint string) string {
	x.n++
	n := fmt.Sprintf("%s_%d", hint, x.n)
	x.params = append(x.params, n+": "+sort)
	x.psorts[n] = sort
	return n
}

func isSimpleTerm(s string) bool {
	if len(s) > 40 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '(' || c == ')' || c == ':') {
			return false
		}
	}
	return true
}

func (x *Ex) let(sort, expr string) string {
	if isSimpleTerm(expr) || x.noLet > 0 {
		return expr
	}
	x.n++
	n := fmt.Sprintf("v%d", x.n)
	x.psorts[n] = sort
	if sort == "" {
		x.emit(fmt.Sprintf("let %s = %s;", n, expr))
		return n
	}
	x.emit(fmt.Sprintf("let %s: %s = %s;", n, sort, expr))
	return n
}

func (x *Ex) guarded(p string) string {
	if len(x.guard) == 0 {
		return p
	}
	return "(" + strings.Join(x.guard, " && ") + ") ==> (" + p + ")"
}

func (x *Ex) assert(p, kind, label string, n ast.Node) {
	if p == "true" {
		return
	}
	if x.g.locks != nil && kind != "lock" && kind != "loop-frame" {
		return
	}
	if x.dry > 0 || x.noOb > 0 || x.noOwn && kind == "ownership" {
		return
	}
	o := &Obl{Func: x.fi.key, Kind: kind, Label: label, Line: x.line}
	if n != nil {
		o.Pos = x.g.pr.pos(n.Pos())
		o.Text = x.g.pr.text(n)
	}
	o.ID = fmt.Sprintf("%s#%s#%s#%d", o.Func, kind, label, len(x.obls))
	x.obls = append(x.obls, o)
	x.emit("assert(" + x.guarded(p) + ");")
	o.End = x.line
}

func (x *Ex) assume(p string, k func()) {
	if p == "true" || p == "" {
		k()
		return
	}
	x.emit("if " + x.guarded(p) + " {")
	x.ind++
	k()
	x.ind--
	x.emit("}")
}

func (x *Ex) assumeAll(ps []string, k func()) {
	if len(ps) == 0 {
		k()
		return
	}
	x.assume(ps[0], func() { x.assumeAll(ps[1:], k) })
}

func (x *Ex) ite(c string, a, b func()) {
	if len(x.guard) > 0 {
		panic(unsupported{token.NoPos, "fork inside a guarded expression"})
	}
	if c == "true" && x.dry == 0 {
		a()
		return
	}
	if c == "false" && x.dry == 0 {
		b()
		return
	}
	x.paths++
	x.emit("if " + c + " {")
	x.ind++
	a()
	x.ind--
	x.emit("} else {")
	x.ind++
	b()
	x.ind--
	x.emit("}")
}

func (x *Ex) leaf() {
	if x.dry > 0 {
		return
	}
	x.smoke = append(x.smoke, x.line)
	x.emit("// leaf")
}

func (x *Ex) unsup(n ast.Node, msg string) {
	var p token.Pos
	if n != nil {
		p = n.Pos()
	}
	panic(unsupported{p, msg})
}

// heapOf returns the current term of a heap component.
func (x *Ex) heapOf(st *State, key string) string {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.init[key]; ok {
		return t
	}
	n := "I_" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, key)
	x.init[key] = n
	so := x.heapSort(key)
	x.params = append(x.params, n+": "+so)
	x.psorts[n] = so
	return n
}

func (x *Ex) heapSort(key string) string {
	switch key[:2] {
	case "H:":
		return "Map<int, S_" + key[2:] + ">"
	case "L:":
		return "Map<int, int>"
	case "G:":
		return x.g.sp.ghosts[key[2:]]
	case "V:":
		for v := range x.g.pr.globals {
			if globalKey(v) == key[2:] {
				return x.g.so.of(v.Type())
			}
		}
	}
	panic(specErr{"unknown heap " + key})
}

func globalKey(v *types.Var) string { return v.Pkg().Name() + "." + v.Name() }

func (x *Ex) setHeap(st *State, key, term string) {
	x.heapOf(st, key)
	st.heap[key] = x.let(x.heapSort(key), term)
	if x.log != nil {
		x.log[key] = true
	}
}

func (x *Ex) info(st *State) *types.Info { return st.frame.pkg.info }

func (x *Ex) typeOf(st *State, e ast.Expr) types.Type {
	t := x.info(st).TypeOf(e)
	if t == nil {
		x.unsup(e, "no type")
	}
	return t
}

// typeFacts gives what Go's type system guarantees about a value.
func (x *Ex) typeFacts(t types.Type, v string, st *State) []string {
	var r []string
	t = types.Unalias(t)
	if lo, hi, _, _, ok := intRange(t); ok && x.g.so.of(t) == "int" {
		return []string{fmt.Sprintf("%s <= %s <= %s", lo, v, hi)}
	}
	so := x.g.so.of(t)
	switch {
	case so == seqU8:
		if a, ok := t.Underlying().(*types.Array); ok {
			return []string{fmt.Sprintf("%s.len() == %d", v, a.Len())}
		}
		r = append(r, fmt.Sprintf("%s.len() <= MAXLEN()", v))
	case so == "Val":
		r = append(r, "val_wf("+v+")")
	case so == "List":
		r = append(r, "list_wf("+v+")")
	case so == "Dict":
		r = append(r, "dict_wf("+v+")")
	case strings.HasPrefix(so, "Seq<"):
		r = append(r, fmt.Sprintf("%s.len() <= %s", v, x.g.maxLen(t)))
		var el types.Type
		if sl, ok := t.Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
		if el != nil {
			if d := x.g.so.refStruct(el); d != nil && st != nil {
				r = append(r, fmt.Sprintf("forall|q: int| 0 <= q < %s.len() ==> (#[trigger] %s[q] == 0 || %s.dom().contains(%s[q]))", v, v, x.heapOf(st, "H:"+d.short), v))
			} else if lo, hi, _, _, ok := intRange(el); ok {
				r = append(r, fmt.Sprintf("forall|q: int| 0 <= q < %s.len() ==> %s <= #[trigger] %s[q] <= %s", v, lo, v, hi))
			}
		}
	case so == "int":
		if d := x.g.so.refStruct(t); d != nil && st != nil {
			r = append(r, fmt.Sprintf("%s == 0 || %s.dom().contains(%s)", v, x.heapOf(st, "H:"+d.short), v))
		}
	}
	return r
}

func conj(ps []string) string {
	if len(ps) == 0 {
		return "true"
	}
	return "(" + strings.Join(ps, ") && (") + ")"
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// an object is at most MAXLEN bytes, one that is not text at most a quarter of that: how many elements a slice of type t can have
func (g *Gen) maxLen(t types.Type) string {
	if n := elemSize(t); n > 1 {
		return fmt.Sprint((int64(1)<<45 - 1) / n)
	} else if n == 0 {
		return "I64MAX()"
	}
	return "MAXLEN()"
}

// make([]T, n) panics for more elements than the runtime's address space (2^48 bytes) holds
func (g *Gen) makeLimit(t types.Type) string {
	if n := elemSize(t); n > 0 {
		return fmt.Sprint((int64(1) << 48) / n)
	}
	return "I64MAX()"
}

// a map holds every entry it has in that address space too
func maxEntries(m *types.Map) string {
	sz := types.SizesFor("gc", "amd64")
	if n := sz.Sizeof(m.Key()) + sz.Sizeof(m.Elem()); n > 0 {
		return fmt.Sprint((int64(1)<<47 - 1) / n)
	}
	return "I64MAX()"
}

func elemSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return types.SizesFor("gc", "amd64").Sizeof(u.Elem())
	}
	return 1
}
