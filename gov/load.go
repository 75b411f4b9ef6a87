package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one type-checked package of the repository.
type Pkg struct {
	path  string
	name  string
	tpkg  *types.Package
	info  *types.Info
	files []*ast.File
}

// FuncInfo is one declared function of the repository.
type FuncInfo struct {
	key  string // pkg.Func or pkg.Type.Method
	decl *ast.FuncDecl
	obj  *types.Func
	pkg  *Pkg
}

// GlobalInfo is one package-level variable of the repository.
type GlobalInfo struct {
	obj     *types.Var
	init    ast.Expr
	pkg     *Pkg
	mutable bool // assigned or address-taken outside its declaration
}

type Prog struct {
	repo    string
	fset    *token.FileSet
	pkgs    map[string]*Pkg
	funcs   map[*types.Func]*FuncInfo
	byKey   map[string]*FuncInfo
	alias   map[string]*types.Func // what a package variable or field of it was initialised with
	globals map[*types.Var]*GlobalInfo
	impls   map[*types.TypeName]*types.Named // repo interface -> unique implementer
	src     map[string][]byte
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Module     *struct{ Main bool }
	Imports    []string
	ImportMap  map[string]string
}

func load(repo string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,Module,Imports,ImportMap", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var repoPkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			q := p
			repoPkgs = append(repoPkgs, &q)
		}
	}
	pr := &Prog{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, funcs: map[*types.Func]*FuncInfo{},
		byKey: map[string]*FuncInfo{}, alias: map[string]*types.Func{}, globals: map[*types.Var]*GlobalInfo{}, impls: map[*types.TypeName]*types.Named{}, src: map[string][]byte{}}
	gc := importer.ForCompiler(pr.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &repoImporter{pr: pr, gc: gc}
	// go list -deps gives dependency order
	for _, lp := range repoPkgs {
		p := &Pkg{path: lp.ImportPath, name: lp.Name}
		for _, gf := range lp.GoFiles {
			fn := filepath.Join(lp.Dir, gf)
			b, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			pr.src[fn] = b
			f, err := parser.ParseFile(pr.fset, fn, b, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, f)
		}
		if len(p.files) == 0 {
			continue
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(lp.ImportPath, pr.fset, p.files, p.info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		p.tpkg = tp
		pr.pkgs[lp.ImportPath] = p
		pr.index(p)
	}
	for key, f := range pr.alias {
		if fi := pr.funcs[f]; fi != nil && pr.byKey[key] == nil {
			pr.byKey[key] = &FuncInfo{key: key, decl: fi.decl, obj: fi.obj, pkg: fi.pkg}
		}
	}
	pr.findMutable()
	pr.findImpls()
	return pr, nil
}

type repoImporter struct {
	pr *Prog
	gc types.Importer
}

func (r *repoImporter) Import(path string) (*types.Package, error) {
	if p, ok := r.pr.pkgs[path]; ok {
		return p.tpkg, nil
	}
	return r.gc.Import(path)
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pn := "?"
	if f.Pkg() != nil {
		pn = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pn + "." + n.Obj().Name() + "." + f.Name()
		}
		return pn + ".?." + f.Name()
	}
	return pn + "." + f.Name()
}

func (pr *Prog) index(p *Pkg) {
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				obj, ok := p.info.Defs[d.Name].(*types.Func)
				if !ok {
					continue
				}
				fi := &FuncInfo{key: funcKey(obj), decl: d, obj: obj, pkg: p}
				pr.funcs[obj] = fi
				if d.Name.Name != "_" && pr.byKey[fi.key] == nil {
					// of several init functions the first one
					pr.byKey[fi.key] = fi
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						v, ok := p.info.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						gi := &GlobalInfo{obj: v, pkg: p}
						if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
							gi.init = vs.Values[i]
						}
						pr.globals[v] = gi
						if gi.init != nil {
							pr.indexFields(p, p.name+"."+n.Name, gi.init)
						}
					}
				}
			}
		}
	}
}

// indexFields: the function a package variable, or a field of the structure it points to, is initialised with goes by
// the name of the variable or field (pkg.var, pkg.var.Field), whether it is a literal or declared elsewhere.
func (pr *Prog) indexFields(p *Pkg, key string, e ast.Expr) {
	switch e := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		pr.indexFields(p, key, e.X)
	case *ast.CompositeLit:
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					pr.indexFields(p, key+"."+id.Name, kv.Value)
				}
			}
		}
	case *ast.FuncLit:
		sig, ok := p.info.TypeOf(e).(*types.Signature)
		if !ok || pr.byKey[key] != nil {
			return
		}
		name := key[strings.LastIndex(key, ".")+1:]
		pr.byKey[key] = &FuncInfo{key: key, decl: &ast.FuncDecl{Name: &ast.Ident{Name: name, NamePos: e.Pos()}, Type: e.Type, Body: e.Body}, obj: types.NewFunc(e.Pos(), p.tpkg, name, sig), pkg: p}
	case *ast.Ident, *ast.SelectorExpr:
		id, ok := e.(*ast.Ident)
		if !ok {
			id = e.(*ast.SelectorExpr).Sel
		}
		if f, ok := p.info.Uses[id].(*types.Func); ok && f.Type().(*types.Signature).Recv() == nil && pr.byKey[key] == nil {
			pr.alias[key] = f
		}
	}
}

// findMutable marks every package variable that is assigned, incremented or has its address taken anywhere in the
// repository (outside its own declaration).  Element writes through the variable (m[k] = v) also count.
func (pr *Prog) findMutable() {
	for _, p := range pr.pkgs {
		mark := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.IndexExpr:
					e = x.X
					continue
				case *ast.SelectorExpr:
					if v, ok := p.info.Uses[x.Sel].(*types.Var); ok && pr.globals[v] != nil {
						pr.globals[v].mutable = true
						return
					}
					// field of a struct value: go on with the base unless it is a pointer
					if t := p.info.TypeOf(x.X); t != nil {
						if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
							return
						}
					}
					e = x.X
					continue
				case *ast.Ident:
					if v, ok := p.info.Uses[x].(*types.Var); ok && pr.globals[v] != nil {
						pr.globals[v].mutable = true
					}
				}
				return
			}
		}
		for _, f := range p.files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						if n.Key != nil {
							mark(n.Key)
						}
						if n.Value != nil {
							mark(n.Value)
						}
					}
				}
				return true
			})
		}
	}
}

// findImpls maps every interface declared in the repository to its implementer when exactly one named repo type
// implements it.
func (pr *Prog) findImpls() {
	var ifaces, concrete []*types.Named
	var paths []string
	for path := range pr.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := pr.pkgs[path].tpkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Interface); ok {
				ifaces = append(ifaces, nt)
			} else {
				concrete = append(concrete, nt)
			}
		}
	}
	for _, it := range ifaces {
		u := it.Underlying().(*types.Interface)
		if u.NumMethods() == 0 {
			continue
		}
		var found []*types.Named
		for _, c := range concrete {
			if types.Implements(c, u) || types.Implements(types.NewPointer(c), u) {
				found = append(found, c)
			}
		}
		if len(found) == 1 {
			pr.impls[it.Obj()] = found[0]
		}
	}
}

func (pr *Prog) pos(p token.Pos) string {
	ps := pr.fset.Position(p)
	rel := strings.TrimPrefix(ps.Filename, pr.repo+"/")
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (pr *Prog) text(n ast.Node) string {
	a, b := pr.fset.Position(n.Pos()), pr.fset.Position(n.End())
	s := pr.src[a.Filename]
	if s == nil || a.Offset >= len(s) || b.Offset > len(s) {
		return "?"
	}
	t := strings.Join(strings.Fields(string(s[a.Offset:b.Offset])), " ")
	if len(t) > 100 {
		t = t[:100] + "..."
	}
	return t
}
