package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dpeckett/archivefs"

// Program is one type-checked build (GOOS) of the repository in SSA form.
type Program struct {
	dyn   map[string][]types.Type
	GOOS  string
	Pkgs  map[string]*packages.Package // import path -> package (module packages only)
	SPkgs map[string]*ssa.Package
	Prog  *ssa.Program
	Fset  *token.FileSet
	Funcs []*ssa.Function // every source function of the module (incl. closures)

	globals map[string]*uint64
}

func loadProgram(repo, goos string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOOS="+goos, "GOARCH=amd64", "CGO_ENABLED=0", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{GOOS: goos, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, Prog: prog, Fset: prog.Fset}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if inModulePath(pk.PkgPath) {
			p.Pkgs[pk.PkgPath] = pk
			sp := prog.Package(pk.Types)
			if sp != nil {
				sp.Build()
				p.SPkgs[pk.PkgPath] = sp
			}
		}
	})
	for fn := range ssautil.AllFunctions(prog) {
		if inModule(fn) && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

// inModulePath reports whether a package is part of the library under analysis
// (test support is not).
func inModulePath(path string) bool {
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	return !strings.HasPrefix(path, modPath+"/internal/testutil")
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func inModule(fn *ssa.Function) bool { return inModulePath(fnPkgPath(fn)) }

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := types.Unalias(t).(*types.Named); !isN {
			t = p.Elem()
		}
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}
