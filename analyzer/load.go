package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module under analysis.
const ModPath = "github.com/schwarzlichtbezirk/wpk"

// Prog is the loaded program: every non-test package of the repository,
// type-checked from the current source, in SSA form.
type Prog struct {
	Dir       string
	Fset      *token.FileSet
	Pkgs      map[string]*packages.Package // by import path
	SSA       *ssa.Program
	SP        map[string]*ssa.Package
	immut     map[*ssa.Global]bool
	tables    map[*ssa.Global][][2]ssa.Value
	Fns       []*ssa.Function // all functions with bodies belonging to the repository
	AllFns    []*ssa.Function
	callersOf map[*ssa.Function]map[*ssa.Function]bool
}

// Load type-checks the repository in dir and builds SSA for it.
func Load(dir string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "wpkverif-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	// module files are copied, so that no go command can touch those of the repository
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:        dir,
		Env:        env,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Tests:      false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	P := &Prog{Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, SSA: prog, SP: map[string]*ssa.Package{}}
	for i, p := range pkgs {
		P.Pkgs[p.PkgPath] = p
		P.SP[p.PkgPath] = spkgs[i]
	}
	for _, want := range []string{"", "/bulk", "/fsys", "/mmap", "/util", "/luawpk", "/cmd/pack", "/cmd/extract", "/cmd/build"} {
		if P.SP[ModPath+want] == nil {
			return nil, fmt.Errorf("package %s%s is missing", ModPath, want)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		P.AllFns = append(P.AllFns, fn)
		if fn.Blocks != nil && P.InRepo(fn) {
			P.Fns = append(P.Fns, fn)
		}
	}
	sort.Slice(P.Fns, func(i, j int) bool {
		a, b := P.Fns[i], P.Fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return P, nil
}

// InRepo tells whether the function's source lies in the repository.
func (p *Prog) InRepo(fn *ssa.Function) bool {
	return isRepoPkg(fnPkg(fn))
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == ModPath || strings.HasPrefix(p.Path(), ModPath+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Func finds a package-level function by import path suffix ("" is the root package).
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SP[ModPath+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type finds a named type.
func (p *Prog) Type(pkg, name string) *types.Named {
	pk := p.Pkgs[ModPath+pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds the SSA function of a declared method (value or pointer receiver).
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}
