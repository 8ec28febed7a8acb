package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis: every package of the repository
// (as the build sees it) type checked, in SSA form.
type Prog struct {
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Repo  map[*ssa.Package]bool
	Funcs []*ssa.Function // every source function and closure of the repository
	All   map[*ssa.Function]bool
	Root  string
	mod   string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProg() (*Prog, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Fset: pkgs[0].Fset, Pkgs: pkgs, SSA: sp, Repo: map[*ssa.Package]bool{}, Root: dir}
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Repo[s] = true
		if pkgs[i].Module != nil {
			p.mod = pkgs[i].Module.Path
		}
	}
	sp.Build()
	p.All = ssautil.AllFunctions(sp)
	for f := range p.All {
		if p.IsRepo(f) && f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// IsRepo reports whether f is code of the repository (not a dependency).
func (p *Prog) IsRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return p.Repo[g.Pkg]
		}
		if o := g.Origin(); o != nil && o != g {
			return p.IsRepo(o)
		}
	}
	// wrappers have no package: take that of the method they wrap
	if f.Object() != nil && f.Object().Pkg() != nil {
		return p.IsRepoPkg(f.Object().Pkg())
	}
	return false
}

// IsRepoPkg reports whether t is a package of the repository.
func (p *Prog) IsRepoPkg(t *types.Package) bool {
	for s := range p.Repo {
		if s.Pkg == t {
			return true
		}
	}
	return false
}

// Pkg returns the repository package with the path suffix ("" is the module root).
func (p *Prog) Pkg(suffix string) *ssa.Package {
	want := p.mod
	if suffix != "" {
		want += "/" + suffix
	}
	for s := range p.Repo {
		if s.Pkg.Path() == want {
			return s
		}
	}
	return nil
}

// Pos formats a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
