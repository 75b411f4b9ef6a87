package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const seqU8 = "Seq<u8>"

var kw = map[string]bool{}

func init() {
	for _, k := range strings.Fields("type ref match fn mod self impl let mut move pub use where while loop trait static struct enum const crate dyn else if for in as async await box do final macro override priv try typeof unsized virtual yield spec proof exec requires ensures invariant decreases old assert assume forall exists choose tracked ghost open closed via when int nat is has matches default union abstract become extern return super true false unsafe broadcast global layout") {
		kw[k] = true
	}
}

func ident(s string) string {
	if kw[s] {
		return s + "_"
	}
	return s
}

// Sorts turns Go types into the sorts of the logic and remembers which struct sorts are needed.
type Sorts struct {
	pr      *Prog
	structs map[string]*StructSort // sort name -> definition
	g       *Gen
}

type StructSort struct {
	name   string
	short  string // pkg_T
	named  *types.Named
	st     *types.Struct
	fields []StructField
	locks  []string // names of mutex fields
}

type StructField struct {
	name string
	sort string
	typ  types.Type
	goN  string
}

func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

func qname(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isErrorType(t types.Type) bool {
	n := named(t)
	return n != nil && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isMutex(t types.Type) bool {
	n := named(t)
	return n != nil && (qname(n) == "sync.Mutex" || qname(n) == "sync.RWMutex")
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Array:
		return isByte(u.Elem())
	}
	n := named(t)
	return n != nil && (qname(n) == "strings.Builder" || qname(n) == "bytes.Buffer")
}

func (s *Sorts) of(t types.Type) string {
	t = types.Unalias(t)
	if n := named(t); n != nil {
		switch qname(n) {
		case "strings.Builder", "bytes.Buffer":
			return seqU8
		case "atomic.Value":
			return "Val"
		case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Map", "sync.Once", "sync.Pool":
			return "int"
		case "time.Time":
			return "int"
		}
		if isErrorType(t) {
			return "int"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return "int"
		case u.Info()&types.IsString != 0:
			return seqU8
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		}
		return "int"
	case *types.Slice:
		if isByte(u.Elem()) {
			return seqU8
		}
		if isEmptyIface(u.Elem()) {
			return "List"
		}
		return "Seq<" + s.of(u.Elem()) + ">"
	case *types.Array:
		if isByte(u.Elem()) {
			return seqU8
		}
		return "Seq<" + s.of(u.Elem()) + ">"
	case *types.Map:
		k, v := s.of(u.Key()), s.of(u.Elem())
		if k == seqU8 && v == "Val" {
			return "Dict"
		}
		return "GoMap<" + k + ", " + v + ">"
	case *types.Pointer:
		if s.isRef(t) {
			return "int"
		}
		return s.of(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "Val"
		}
		return "int"
	case *types.Struct:
		if n := named(t); n != nil {
			return s.structSort(n).name
		}
		return "int"
	case *types.Tuple:
		return "int"
	}
	return "int"
}

// isRef: pointers to structs are references into a heap; pointers to other named types (method receivers such as
// *misc.Dict) are treated as the value they point to.
func (s *Sorts) isRef(t types.Type) bool {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); ok {
		if n := named(p.Elem()); n != nil {
			switch qname(n) {
			case "strings.Builder", "bytes.Buffer":
				return false
			}
		}
		return true
	}
	return false
}

// refStruct gives the struct sort a reference type points to (nil for opaque externals such as *net.UDPConn).
func (s *Sorts) refStruct(t types.Type) *StructSort {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n := named(p.Elem()); n != nil {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return s.structSort(n)
			}
		}
		return nil
	}
	// devirtualised repo interface
	if n := named(t); n != nil {
		if c := s.pr.impls[n.Obj()]; c != nil {
			if _, ok := c.Underlying().(*types.Struct); ok {
				return s.structSort(c)
			}
		}
	}
	return nil
}

func (s *Sorts) structSort(n *types.Named) *StructSort {
	short := strings.ReplaceAll(qname(n), ".", "_")
	name := "S_" + short
	if d := s.structs[name]; d != nil {
		return d
	}
	d := &StructSort{name: name, short: short, named: n}
	s.structs[name] = d
	st, _ := n.Underlying().(*types.Struct)
	d.st = st
	ext := true
	if n.Obj().Pkg() != nil {
		_, inRepo := s.pr.pkgs[n.Obj().Pkg().Path()]
		ext = !inRepo
	}
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if ext && !f.Exported() && qname(n) != "atomic.Value" {
				continue
			}
			if isMutex(f.Type()) {
				d.locks = append(d.locks, f.Name())
				continue
			}
			d.fields = append(d.fields, StructField{name: ident(f.Name()), sort: s.of(f.Type()), typ: f.Type(), goN: f.Name()})
		}
	}
	return d
}

func (d *StructSort) field(goN string) *StructField {
	for i := range d.fields {
		if d.fields[i].goN == goN {
			return &d.fields[i]
		}
	}
	return nil
}

// emitStructs prints the struct sorts used so far.
func (s *Sorts) emit() string {
	var names []string
	for n := range s.structs {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		d := s.structs[n]
		fmt.Fprintf(&b, "pub struct %s { ", d.name)
		for _, f := range d.fields {
			fmt.Fprintf(&b, "pub %s: %s, ", f.name, f.sort)
		}
		fmt.Fprintf(&b, "pub dummy_: int }\n")
	}
	return b.String()
}

func (s *Sorts) zero(t types.Type) string {
	so := s.of(t)
	switch so {
	case "int":
		return "0int"
	case "bool":
		return "false"
	case "List":
		return "List { nil: true, s: Seq::<Val>::empty() }"
	case "Dict":
		return "Dict { nil: true, m: Map::<Seq<u8>, Val>::empty() }"
	case "Val":
		return "Val::Nil"
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		return fmt.Sprintf("Seq::new(%d, |i: int| %s)", arr.Len(), s.zeroElem(arr.Elem()))
	}
	if strings.HasPrefix(so, "Seq<") {
		return "Seq::<" + so[4:len(so)-1] + ">::empty()"
	}
	if strings.HasPrefix(so, "GoMap<") {
		return so[:5] + "::" + so[5:] + " { nil: true, m: Map::empty() }"
	}
	if d := s.structs[so]; d != nil {
		return s.zeroStruct(d)
	}
	return "arbitrary::<" + so + ">()"
}

func (s *Sorts) zeroElem(t types.Type) string {
	if isByte(t) {
		return "0u8"
	}
	return s.zero(t)
}

func (s *Sorts) zeroStruct(d *StructSort) string {
	var b strings.Builder
	b.WriteString(d.name + " { ")
	for _, f := range d.fields {
		fmt.Fprintf(&b, "%s: %s, ", f.name, s.zero(f.typ))
	}
	b.WriteString("dummy_: 0int }")
	return b.String()
}

// intRange returns the inclusive bounds of an integer type as Verus text, or "" when unbounded.
func intRange(t types.Type) (lo, hi string, signed bool, bitsN int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return "I64MIN()", "I64MAX()", true, 64, true
	case types.Int32:
		return "-0x8000_0000int", "0x7fff_ffffint", true, 32, true
	case types.Int16:
		return "-0x8000int", "0x7fffint", true, 16, true
	case types.Int8:
		return "-0x80int", "0x7fint", true, 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0int", "U64MAX()", false, 64, true
	case types.Uint32:
		return "0int", "0xffff_ffffint", false, 32, true
	case types.Uint16:
		return "0int", "0xffffint", false, 16, true
	case types.Uint8:
		return "0int", "0xffint", false, 8, true
	}
	return
}

// external: a type declared outside the repository.
func (pr *Prog) external(n *types.Named) bool {
	if n.Obj().Pkg() == nil {
		return false
	}
	_, in := pr.pkgs[n.Obj().Pkg().Path()]
	return !in
}
