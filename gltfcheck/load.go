package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked and SSA-lowered source tree under analysis.
type Program struct {
	Root     string
	Fset     *token.FileSet
	Prog     *ssa.Program
	Pkgs     []*packages.Package // packages of the repository
	ByPath   map[string]*packages.Package
	RepoFns  []*ssa.Function // every function with a body declared in the repository
	Sizes    types.Sizes
	builtPkg map[*ssa.Package]bool
}

const modPath = "github.com/qmuntal/gltf"

func loadEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOPROXY=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
}

// Load type-checks every package of the repository, with the syntax of all
// its dependencies, and builds its SSA form.
func Load(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:   root,
		Env:   loadEnv(),
		Tests: false,
		Fset:  token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	}
	if len(msgs) > 0 {
		return nil, fmt.Errorf("the source tree doesn't type-check: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Root: root, Fset: cfg.Fset, Prog: prog, ByPath: map[string]*packages.Package{}, builtPkg: map[*ssa.Package]bool{}}
	for _, pk := range pkgs {
		if pk.PkgPath == modPath || strings.HasPrefix(pk.PkgPath, modPath+"/") {
			p.Pkgs = append(p.Pkgs, pk)
			p.ByPath[pk.PkgPath] = pk
			p.Sizes = pk.TypesSizes
			p.build(prog.Package(pk.Types))
		}
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, root)
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.RepoFns = append(p.RepoFns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		sp := prog.Package(pk.Types)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.RepoFns, func(i, j int) bool { return p.RepoFns[i].String() < p.RepoFns[j].String() })
	return p, nil
}

func (p *Program) build(sp *ssa.Package) {
	if sp == nil || p.builtPkg[sp] {
		return
	}
	p.builtPkg[sp] = true
	sp.Build()
}

// Func resolves an exported function or method: "Open", "binary.Read" or
// "modeler.WriteImage", "(*Document).X" are resolved with Method.
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.ByPath[pkgPath(pkg)]
	if pk == nil {
		return nil
	}
	return p.Prog.Package(pk.Types).Func(name)
}

func pkgPath(pkg string) string {
	if pkg == "" || pkg == "gltf" {
		return modPath
	}
	return modPath + "/" + pkg
}

// Named returns a named type of the repository.
func (p *Program) Named(pkg, name string) *types.Named {
	pk := p.ByPath[pkgPath(pkg)]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method returns the SSA function of the method declared on the named type,
// whether its receiver is a pointer or not.
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Const returns the value of a package level constant.
func (p *Program) Const(pkg, name string) *types.Const {
	pk := p.ByPath[pkgPath(pkg)]
	if pk == nil {
		return nil
	}
	c, _ := pk.Types.Scope().Lookup(name).(*types.Const)
	return c
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	return strings.TrimPrefix(ps.Filename, p.Root+"/") + ":" + fmt.Sprint(ps.Line)
}
