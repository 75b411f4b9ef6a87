package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
)

type Clause struct {
	name string
	text string
	file string
	line int
}

type Meta struct {
	name string
	idx  bool // bind to the loop's iteration index
	keys bool // bind to the order in which a map is visited
	seq  bool // bind to what is ranged over
	acc  bool // bind to what the loop has appended to the local so far
	obj  bool // bind to the object of that struct type in scope
	cond bool // bind to the loop's condition if that is a flag, to true otherwise
	sort string
}

type LoopSpec struct {
	ord        int
	metas      []Meta
	inv        []Clause
	decreases  []string
	nodec      bool
	entry      []string
	begin, end []string
	exit       []string
}

type Contract struct {
	key       string
	extern    bool // contract on a dependency: trusted
	trusted   bool // contract on a repo function whose body is not verified
	params    []string
	results   []string
	requires  []Clause
	ensures   []Clause
	xensures  []Clause
	panics    string
	panicsE   string
	modifies  []string
	allocates []string
	inout     []string
	decreases []string
	loops     map[int]*LoopSpec
	entry     []string
	exit      []string
	after     map[string][]string
	before    map[string][]string
	mathint   bool
	acqDone   bool // the locks it takes were accounted for
	anyeffect bool // may change anything but locks
	diverges  bool // termination is not claimed
	nonblock  bool // no operation may wait for another goroutine
	tasks     bool // function literals used as values run later, each under its "go N"
	records   []Clause
	sends     []Clause // what every value c <- v sent by the body satisfies
	on        map[string][]Clause
	gos       map[int]*GoSpec
	maxbuf    string   // largest number of elements of any slice made by the function
	capacity  []string // slice parameters whose capacity the contract names p_cap
	strict    bool
	inline    bool
	borrows   []string // parameters whose bytes must not be kept
	consumes  []string // parameters whose ownership the callee takes
	fresh     []string // results that are exclusively owned
	aliases   map[string]string
	nolits    bool
	rlimit    string
	file      string
	line      int
}

type Guarded struct {
	short  string // pkg_T
	fields map[string]bool
	lock   string // lock heap key
}

type ChanInv struct {
	elem string // sort or Go type text
	text string
}

type Specs struct {
	contracts  map[string]*Contract
	ghosts     map[string]string
	guarded    map[string]*Guarded
	globalinv  map[string]Clause
	atomics    map[string]*AtomicSpec
	chaninv    map[string]*ChanInv // "pkg:elemtype"
	cones      map[string][]string
	lemmas     map[string][]string
	theory     map[string][]string
	lockMode   map[string]bool
	interfered map[string]*Clause
	assume     map[string][]string
	opaque     map[string]bool
	funcval    map[string]*Contract // by function type name
}

var headRe = regexp.MustCompile(`^(func|extern|trusted|funcvalue|initially)\s+([^\s(]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var nameRe = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*)\s*:([^:].*)$`)

func splitList(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

var topKw = map[string]bool{"func": true, "extern": true, "trusted": true, "funcvalue": true, "ghost": true, "guarded": true, "globalinv": true, "chaninv": true, "cone": true, "lemmas": true, "assumption": true, "opaque": true, "theory": true, "locks": true, "interfered": true, "atomic": true, "initially": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "xensures": true, "panics": true, "modifies": true, "allocates": true, "inout": true, "decreases": true, "loop": true, "invariant": true, "entry": true, "exit": true, "begin": true, "end": true, "after": true, "before": true, "mathint": true, "strict": true, "inline": true, "borrows": true, "consumes": true, "fresh": true, "alias": true, "nodecreases": true, "rlimit": true, "diverges": true, "nonblocking": true, "tasks": true, "records": true, "sends": true, "capacity": true, "maxbuf": true, "on": true, "go": true}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, ghosts: map[string]string{}, guarded: map[string]*Guarded{}, globalinv: map[string]Clause{},
		chaninv: map[string]*ChanInv{}, cones: map[string][]string{}, lemmas: map[string][]string{}, theory: map[string][]string{}, lockMode: map[string]bool{}, interfered: map[string]*Clause{}, atomics: map[string]*AtomicSpec{}, assume: map[string][]string{}, opaque: map[string]bool{}, funcval: map[string]*Contract{}}
}

func (sp *Specs) parseFile(fn string) error {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	// join continuation lines
	type stmt struct {
		text string
		line int
	}
	var stmts []stmt
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexAny(w, " \t:("); j >= 0 {
			w = w[:j]
		}
		indented := l[0] == ' ' || l[0] == '\t'
		if (!indented && topKw[w]) || (indented && clauseKw[w]) {
			stmts = append(stmts, stmt{t, i + 1})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: cannot parse %q", fn, i+1, t)
		}
	}
	var c *Contract
	var lp *LoopSpec
	for _, s := range stmts {
		w := s.text
		rest := ""
		if j := strings.IndexAny(w, " \t"); j >= 0 {
			rest = strings.TrimSpace(w[j:])
			w = w[:j]
		}
		bad := func(m string) error { return fmt.Errorf("%s:%d: %s in %q", fn, s.line, m, s.text) }
		if topKw[w] {
			c, lp = nil, nil
		} else if c == nil {
			return bad("clause outside a contract")
		}
		clause := func(def string) Clause {
			cl := Clause{text: rest, file: fn, line: s.line, name: def}
			if m := nameRe.FindStringSubmatch(rest); m != nil {
				cl.name, cl.text = m[1], strings.TrimSpace(m[2])
			}
			return cl
		}
		switch w {
		case "func", "extern", "trusted", "funcvalue", "initially":
			m := headRe.FindStringSubmatch(s.text)
			if m == nil {
				return bad("bad header")
			}
			c = &Contract{key: m[2], extern: w == "extern", trusted: w == "trusted", params: splitList(m[3]), results: splitList(m[4]),
				on: map[string][]Clause{}, gos: map[int]*GoSpec{}, loops: map[int]*LoopSpec{}, after: map[string][]string{}, before: map[string][]string{}, panics: "never", aliases: map[string]string{}, file: fn, line: s.line}
			if w == "initially" {
				// what the initialiser of a package variable establishes
				c.key = "initially:" + c.key
			}
			if w == "funcvalue" {
				sp.funcval[c.key] = c
			} else {
				if sp.contracts[c.key] != nil {
					return bad("duplicate contract")
				}
				sp.contracts[c.key] = c
			}
		case "ghost":
			m := nameRe.FindStringSubmatch(rest)
			if m == nil {
				return bad("bad ghost")
			}
			sp.ghosts[m[1]] = strings.TrimSpace(m[2])
		case "guarded":
			// guarded dht_Bucket: nodes, size
			m := nameRe.FindStringSubmatch(rest)
			if m == nil {
				return bad("bad guarded")
			}
			g := &Guarded{short: m[1], fields: map[string]bool{}, lock: "L:" + m[1]}
			for _, f := range strings.Fields(strings.ReplaceAll(m[2], ",", " ")) {
				g.fields[f] = true
			}
			sp.guarded[m[1]] = g
		case "globalinv":
			j := strings.Index(rest, ":")
			if j < 0 {
				return bad("bad globalinv")
			}
			k := strings.TrimSpace(rest[:j])
			sp.globalinv[k] = Clause{name: k, text: strings.TrimSpace(rest[j+1:]), file: fn, line: s.line}
		case "chaninv":
			j := strings.Index(rest, ":")
			if j < 0 {
				return bad("bad chaninv")
			}
			k := strings.TrimSpace(rest[:j])
			sp.chaninv[k] = &ChanInv{text: strings.TrimSpace(rest[j+1:])}
		case "cone", "lemmas", "assumption", "theory":
			j := strings.Index(rest, ":")
			if j < 0 {
				return bad("bad " + w)
			}
			id, txt := strings.TrimSpace(rest[:j]), strings.TrimSpace(rest[j+1:])
			switch w {
			case "cone":
				sp.cones[id] = append(sp.cones[id], strings.Fields(txt)...)
			case "theory":
				sp.theory[id] = append(sp.theory[id], strings.Fields(txt)...)
			case "lemmas":
				sp.lemmas[id] = append(sp.lemmas[id], strings.Fields(txt)...)
			default:
				sp.assume[id] = append(sp.assume[id], txt)
			}
		case "atomic":
			// atomic pkg_T.field: rely over self, o, n | guarantee over self, o, n
			j := strings.Index(rest, ":")
			k := strings.Index(rest, " | ")
			if j < 0 || k < j {
				return bad("bad atomic")
			}
			nm := strings.TrimSpace(rest[:j])
			sp.atomics[nm] = &AtomicSpec{rely: Clause{name: "rely", text: strings.TrimSpace(rest[j+1 : k]), file: fn, line: s.line},
				guar: Clause{name: "guarantee", text: strings.TrimSpace(rest[k+3:]), file: fn, line: s.line}}
		case "interfered":
			// interfered T U | interfered T: invariant over self
			if j := strings.Index(rest, ":"); j >= 0 {
				sp.interfered[strings.TrimSpace(rest[:j])] = &Clause{name: rest[:j], text: strings.TrimSpace(rest[j+1:]), file: fn, line: s.line}
				break
			}
			for _, t := range strings.Fields(rest) {
				sp.interfered[t] = &Clause{name: t, text: "true", file: fn, line: s.line}
			}
		case "locks":
			sp.lockMode[strings.TrimSpace(rest)] = true
		case "opaque":
			for _, f := range strings.Fields(rest) {
				sp.opaque[f] = true
			}
		case "requires":
			c.requires = append(c.requires, clause(fmt.Sprintf("requires%d", len(c.requires)+1)))
		case "ensures":
			c.ensures = append(c.ensures, clause(fmt.Sprintf("ensures%d", len(c.ensures)+1)))
		case "xensures":
			c.xensures = append(c.xensures, clause(fmt.Sprintf("xensures%d", len(c.xensures)+1)))
		case "panics":
			f := strings.SplitN(rest, " ", 2)
			c.panics = f[0]
			if len(f) > 1 {
				c.panicsE = strings.TrimSpace(f[1])
			}
			switch c.panics {
			case "never", "may", "only", "iff":
			default:
				return bad("bad panics clause")
			}
		case "modifies":
			c.modifies = append(c.modifies, splitParts(rest)...)
		case "allocates":
			c.allocates = append(c.allocates, splitList(rest)...)
		case "inout":
			c.inout = append(c.inout, splitList(rest)...)
		case "borrows":
			c.borrows = append(c.borrows, splitList(rest)...)
		case "consumes":
			c.consumes = append(c.consumes, splitList(rest)...)
		case "fresh":
			c.fresh = append(c.fresh, splitList(rest)...)
		case "alias":
			// alias ret->data = data
			p := strings.SplitN(rest, "=", 2)
			if len(p) != 2 {
				return bad("bad alias")
			}
			c.aliases[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "decreases":
			ds := splitTop(rest)
			if lp != nil {
				lp.decreases = ds
			} else {
				c.decreases = ds
			}
		case "nodecreases":
			lp.nodec = true
		case "mathint":
			c.mathint = true
		case "diverges":
			c.diverges = true
		case "strict":
			c.strict = true
		case "nonblocking":
			c.nonblock = true
		case "tasks":
			c.tasks = true
		case "records":
			// records GHOST: value, a ghost update at entry (on return if it uses a result)
			c.records = append(c.records, clause(""))
		case "sends":
			c.sends = append(c.sends, clause("sends"))
		case "on", "go":
			// on EVENT name: text; go N on EVENT name: text; go N ensures name: text; go N exit hint
			f := strings.Fields(rest)
			cut := func() {
				rest = strings.TrimSpace(rest[len(f[0]):])
				f = f[1:]
			}
			if len(f) < 3 {
				return bad("bad clause")
			}
			on := c.on
			kind := "on"
			var gs *GoSpec
			if w == "go" {
				var n int
				fmt.Sscanf(f[0], "%d", &n)
				cut()
				if c.gos[n] == nil {
					c.gos[n] = &GoSpec{on: map[string][]Clause{}}
				}
				gs = c.gos[n]
				on = gs.on
				kind = f[0]
				cut()
			}
			switch kind {
			case "on":
				ev := f[0]
				cut()
				on[ev] = append(on[ev], clause(ev))
			case "ensures":
				gs.ensures = append(gs.ensures, clause(fmt.Sprintf("goroutine%d", len(gs.ensures)+1)))
			case "exit":
				gs.exit = append(gs.exit, rest)
			default:
				return bad("bad goroutine clause")
			}
		case "maxbuf":
			c.maxbuf = rest
		case "capacity":
			c.capacity = append(c.capacity, splitList(rest)...)
		case "inline":
			c.inline = true
		case "rlimit":
			c.rlimit = rest
		case "loop":
			var ord int
			var ms string
			if j := strings.Index(rest, "("); j >= 0 {
				ms = strings.TrimSuffix(strings.TrimSpace(rest[j+1:]), ")")
				rest = rest[:j]
			}
			fmt.Sscanf(rest, "%d", &ord)
			lp = &LoopSpec{ord: ord}
			for _, m := range splitTop(ms) {
				mt := Meta{}
				f := strings.SplitN(m, ":", 2)
				if len(f) == 2 {
					mt.sort = strings.TrimSpace(f[1])
				}
				nm := strings.TrimSpace(f[0])
				if strings.HasPrefix(nm, "idx ") {
					mt.idx = true
					nm = strings.TrimSpace(nm[4:])
				}
				if strings.HasPrefix(nm, "keys ") {
					mt.keys = true
					nm = strings.TrimSpace(nm[5:])
				}
				if strings.HasPrefix(nm, "over ") {
					mt.seq = true
					nm = strings.TrimSpace(nm[5:])
				}
				if strings.HasPrefix(nm, "acc ") {
					mt.acc = true
					nm = strings.TrimSpace(nm[4:])
				}
				if strings.HasPrefix(nm, "obj ") {
					mt.obj = true
					nm = strings.TrimSpace(nm[4:])
				}
				if strings.HasPrefix(nm, "cond ") {
					mt.cond = true
					nm = strings.TrimSpace(nm[5:])
				}
				mt.name = nm
				lp.metas = append(lp.metas, mt)
			}
			c.loops[ord] = lp
		case "invariant":
			if lp == nil {
				return bad("invariant outside loop")
			}
			lp.inv = append(lp.inv, clause(fmt.Sprintf("inv%d", len(lp.inv)+1)))
		case "entry":
			if lp != nil {
				lp.entry = append(lp.entry, rest)
			} else {
				c.entry = append(c.entry, rest)
			}
		case "exit":
			if lp != nil {
				lp.exit = append(lp.exit, rest)
			} else {
				c.exit = append(c.exit, rest)
			}
		case "begin":
			lp.begin = append(lp.begin, rest)
		case "end":
			lp.end = append(lp.end, rest)
		case "after", "before":
			f := strings.SplitN(rest, " ", 2)
			if len(f) != 2 {
				return bad("bad hint")
			}
			if w == "after" {
				c.after[f[0]] = append(c.after[f[0]], f[1])
			} else {
				c.before[f[0]] = append(c.before[f[0]], f[1])
			}
		}
	}
	return nil
}

// splitTop splits at commas outside brackets.
func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[', '{', '<':
			d++
		case ')', ']', '}', '>':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		r = append(r, t)
	}
	return r
}

// splitParts splits at commas outside of brackets.
func splitParts(s string) []string {
	var r []string
	d, st := 0, 0
	for i, ch := range s + "," {
		switch ch {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				if t := strings.TrimSpace(s[st:i]); t != "" {
					r = append(r, t)
				}
				st = i + 1
			}
		}
	}
	return r
}

// ---- substitution of specification text ----

type SV struct {
	t   string
	typ types.Type
}

type Env struct {
	vars map[string]SV
	st   *State
	old  *Env
	at   map[string]*Env // named earlier states
}

type tok struct {
	kind byte // i ident, n number, p punct, w white, d $name, l lit, c char
	s    string
}

func tokenize(s string) []tok {
	var r []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			r = append(r, tok{'w', " "})
			i++
		case c == '@' && i+1 < len(s) && s[i+1] == '"':
			j := i + 2
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r = append(r, tok{'l', s[i+1 : j+1]})
			i = j + 1
		case c == '#' && i+1 < len(s) && s[i+1] == '\'':
			j := strings.Index(s[i+2:], "'")
			r = append(r, tok{'c', s[i+2 : i+2+j]})
			i = i + 2 + j + 1
		case c == '$':
			j := i + 1
			for j < len(s) && (isId(s[j]) || s[j] == '.' && strings.HasPrefix(s[i:], "$g.")) {
				j++
			}
			r = append(r, tok{'d', s[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			r = append(r, tok{'n', s[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			r = append(r, tok{'i', s[i:j]})
			i = j
		case strings.HasPrefix(s[i:], "->"), strings.HasPrefix(s[i:], "::"):
			r = append(r, tok{'p', s[i : i+2]})
			i += 2
		default:
			r = append(r, tok{'p', string(c)})
			i++
		}
	}
	return r
}

type specErr struct{ msg string }

func (x *Ex) subst(text string, env *Env) string {
	toks := tokenize(text)
	return x.substToks(toks, env)
}

func nextSig(ts []tok, i int) (int, string) {
	for ; i < len(ts); i++ {
		if ts[i].kind != 'w' {
			return i, ts[i].s
		}
	}
	return len(ts), ""
}

func (x *Ex) substToks(ts []tok, env *Env) string {
	var b strings.Builder
	prev := ""
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		switch t.kind {
		case 'w':
			b.WriteString(" ")
			continue
		case 'l':
			b.WriteString(x.g.lit(unquote(t.s)))
		case 'c':
			ch := t.s
			v := int(ch[0])
			if len(ch) > 1 && ch[0] == '\\' {
				v = int(unquote("\"" + ch + "\"")[0])
			}
			fmt.Fprintf(&b, "%d", v)
		case 'd':
			b.WriteString(x.dollar(t.s, env))
		case 'i':
			_, nx := nextSig(ts, i+1)
			if prev == "." || prev == "::" || nx == "::" {
				b.WriteString(t.s)
				break
			}
			if nx == "(" && (t.s == "old" || env.at != nil && env.at[t.s] != nil) {
				j, _ := nextSig(ts, i+1)
				d := 0
				k := j
				for ; k < len(ts); k++ {
					if ts[k].s == "(" && ts[k].kind == 'p' {
						d++
					} else if ts[k].s == ")" && ts[k].kind == 'p' {
						d--
						if d == 0 {
							break
						}
					}
				}
				e2 := env.old
				if t.s != "old" {
					e2 = env.at[t.s]
				}
				if e2 == nil {
					panic(specErr{"no state for " + t.s})
				}
				b.WriteString("(" + x.substToks(ts[j+1:k], e2) + ")")
				i = k
				break
			}
			sv, ok := env.vars[t.s]
			if !ok {
				b.WriteString(t.s)
				break
			}
			cur := sv
			for {
				j, nx := nextSig(ts, i+1)
				if nx != "->" {
					break
				}
				k, f := nextSig(ts, j+1)
				d := x.g.so.refStruct(cur.typ)
				if d == nil {
					break // Verus' own variant accessor
				}
				if fd := d.field(f); fd != nil && isWaitGroup(fd.typ) {
					cur = SV{x.wgAddr(d, f, cur.t), fd.typ}
					i = k
					continue
				}
				fd := d.field(f)
				if fd == nil {
					panic(specErr{"no field " + f + " in " + d.short})
				}
				cur = SV{fmt.Sprintf("%s[%s].%s", x.heapOf(env.st, "H:"+d.short), cur.t, fd.name), fd.typ}
				i = k
			}
			b.WriteString(paren(cur.t))
		default:
			b.WriteString(t.s)
		}
		prev = t.s
	}
	return b.String()
}

func paren(s string) string {
	simple := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c == '.' || c == '[' || c == ']' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			simple = false
		}
	}
	if simple {
		return s
	}
	return "(" + s + ")"
}

func unquote(q string) string {
	var s string
	if _, err := fmt.Sscanf(q, "%q", &s); err != nil {
		return strings.Trim(q, "\"")
	}
	return s
}

// dollar resolves $Bucket, $L_Bucket, $GHOST, $g.pkg.var
func (x *Ex) dollar(n string, env *Env) string {
	if strings.HasPrefix(n, "g.") {
		return x.globalByName(n[2:], env.st)
	}
	if _, ok := x.g.sp.ghosts[n]; ok {
		return x.heapOf(env.st, "G:"+n)
	}
	pre := "H:"
	if strings.HasPrefix(n, "L_") {
		pre, n = "L:", n[2:]
		if g := x.g.sp.guarded[n]; g != nil && strings.HasPrefix(n, "g_") {
			return x.heapOf(env.st, g.lock)
		}
	}
	return x.heapOf(env.st, pre+x.g.structShort(n))
}
