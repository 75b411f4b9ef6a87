package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"
)

var structRe = regexp.MustCompile(`\bS_([A-Za-z0-9_]+)`)
var tagRe = regexp.MustCompile(`\b(tagv?_[A-Za-z0-9_]+)\(\)`)
var fnRe = regexp.MustCompile(`\bfn_[A-Za-z0-9_]+\(\)`)
var litRe = regexp.MustCompile(`@("(?:[^"\\]|\\.)*")`)

func structRefs(text string) []string {
	m := map[string]bool{}
	for _, s := range structRe.FindAllStringSubmatch(text, -1) {
		m[s[1]] = true
	}
	return sortedKeys(m)
}

func tagRefs(text string) []string {
	m := map[string]bool{}
	for _, s := range tagRe.FindAllStringSubmatch(text, -1) {
		m[s[1]] = true
	}
	return sortedKeys(m)
}

// ensure makes sure the struct sort pkg_T exists.
func (s *Sorts) ensure(short string) {
	if s.structs["S_"+short] != nil {
		return
	}
	i := strings.Index(short, "_")
	if i < 0 {
		return
	}
	pk, tn := short[:i], short[i+1:]
	var pkgs []*types.Package
	seen := map[*types.Package]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		pkgs = append(pkgs, p)
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	var paths []string
	for p := range s.pr.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		walk(s.pr.pkgs[p].tpkg)
	}
	for _, p := range pkgs {
		if p.Name() != pk {
			continue
		}
		if o, ok := p.Scope().Lookup(tn).(*types.TypeName); ok {
			if n, ok := o.Type().(*types.Named); ok {
				s.structSort(n)
				return
			}
		}
	}
}

// litRefs registers the @"text" literals used in the theory.
func (g *Gen) litRefs(text string) {
	for _, m := range litRe.FindAllStringSubmatch(text, -1) {
		g.lit(unquote(m[1]))
	}
}

// litFacts names the facts about the @"text" literals used in the theory.
func (g *Gen) litFacts(text string) []string {
	seen := map[string]bool{}
	var r []string
	for _, m := range litRe.FindAllStringSubmatch(text, -1) {
		l := g.lit(unquote(m[1]))
		if !strings.HasPrefix(l, "lit_") {
			continue
		}
		n := strings.TrimSuffix(l, "()") + "_facts"
		if !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

func (g *Gen) replaceLits(text string) string {
	return litRe.ReplaceAllStringFunc(text, func(s string) string { return g.lit(unquote(s[1:])) })
}

// hasIdent reports whether the term text uses the name.
func hasIdent(text, name string) bool {
	for _, t := range tokenize(text) {
		if t.kind == 'i' && t.s == name {
			return true
		}
	}
	return false
}
