package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/l7mp/dcontroller"

type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package   // repo packages with bodies
	tps    map[string]*types.Package // all packages reachable
	fns    map[string]*ssa.Function
	sorted []*types.Package
}

func loadProgram(repo string, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: repo,
		Env: env,
	}
	// Load export data for dependencies, syntax only for the named packages.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad++
		}
	}
	if bad > 0 {
		return nil, fmt.Errorf("%d load errors", bad)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, tps: map[string]*types.Package{}, fns: map[string]*ssa.Function{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		P.pkgs[pkgs[i].PkgPath] = sp
	}
	var walk func(tp *types.Package)
	walk = func(tp *types.Package) {
		if P.tps[tp.Path()] != nil {
			return
		}
		P.tps[tp.Path()] = tp
		for _, i := range tp.Imports() {
			walk(i)
		}
	}
	for _, p := range pkgs {
		walk(p.Types)
	}
	// prefer the types of loaded packages
	for _, p := range pkgs {
		P.tps[p.PkgPath] = p.Types
	}
	for f := range ssautil.AllFunctions(prog) {
		P.fns[fnKey(f)] = f
	}
	return P, nil
}

// fnKey: "<pkgpath>::<rel>" for package functions and methods; generics include instantiation.
func fnKey(f *ssa.Function) string {
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() + "::" + f.RelString(o.Pkg())
		}
		if or := f.Origin(); or != nil && or.Pkg != nil {
			return or.Pkg.Pkg.Path() + "::" + f.RelString(or.Pkg.Pkg)
		}
		return "::" + f.String()
	}
	return f.Pkg.Pkg.Path() + "::" + f.RelString(f.Pkg.Pkg)
}

// externName: canonical name for functions outside the loaded packages: f.String().
func externName(f *ssa.Function) string {
	s := f.String()
	if i := strings.Index(s, "["); i > 0 { // strip instantiation
		j := strings.LastIndex(s, "]")
		if j > i {
			s = s[:i] + s[j+1:]
		}
	}
	return s
}
