package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

func loadProgram(scratch string) (*Engine, error) {
	app := filepath.Join(repoDir, "1pass-app")
	mf := filepath.Join(scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(app, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0644); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: app,
		BuildFlags: []string{"-modfile=" + mf, "-mod=mod"},
		Env:        append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")}
	pats := []string{"./..."}
	for _, m := range []string{"1pass-core", "1pass-parse", "1pass-term", "1pass-up"} {
		pats = append(pats, repoPrefix+"/"+m+"/...")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoPrefix) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, fset: prog.Fset, loops: map[int64]*LoopInfo{}, loopIDs: map[string]int64{}, ctxIDs: map[string]*Ctx{},
		siteIDs: map[string]int64{}, plans: map[*ssa.Function]*plan{}, inlined: map[*ssa.Function]int{}, notes: map[string]bool{}, checked: map[string]int{}}
	var all []*ssa.Package
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			all = append(all, p)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		p.Build()
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok {
					e.named = append(e.named, nt)
				}
			}
		}
	}
	e.pkgs = all
	if len(all) < 8 {
		return nil, fmt.Errorf("only %d repository packages loaded", len(all))
	}
	e.installHooks()
	return e, nil
}

func (e *Engine) pkg(suffix string) *ssa.Package {
	for _, p := range e.pkgs {
		if p.Pkg.Path() == repoPrefix+"/"+suffix {
			return p
		}
	}
	return nil
}

func (e *Engine) namedType(suffix, name string) types.Type {
	if p := e.pkg(suffix); p != nil {
		if t, ok := p.Members[name].(*ssa.Type); ok {
			return t.Type()
		}
	}
	return nil
}

// srcFuncs lists every function with a body in the repository.
func (e *Engine) srcFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(e.prog) {
		if isRepoFn(f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
