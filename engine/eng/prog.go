package eng

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	SSA       *ssa.Program
	Pkgs      map[string]*ssa.Package
	sym       *ssa.Package
	rtErrType types.Type
	Errors    []string
}

// LoadProgram loads packages of the module in dir, with an overlay and a mod file.
func LoadProgram(dir, modfile string, overlay map[string][]byte, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), env...),
	}
	if modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + modfile}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{Pkgs: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			p.Errors = append(p.Errors, fmt.Sprintf("%s: %v", pk.PkgPath, e))
		}
	})
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 || pk.IllTyped {
			return p, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, strings.Join(p.Errors, "; "))
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
	}
	p.sym = p.Pkgs[symPkg]
	if p.sym == nil {
		return p, fmt.Errorf("harness runtime %s not loaded", symPkg)
	}
	p.rtErrType = p.sym.Type("RuntimeError").Type()
	return p, nil
}

func (p *Program) rt(name string) *ssa.Function {
	f := p.sym.Func(name)
	if f == nil {
		unsup("no runtime function %s", name)
	}
	return f
}

func (p *Program) lookup(name string) *ssa.Function { return p.sym.Func(name) }

// Func finds a harness entry.
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}
