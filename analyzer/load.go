package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis: every package that the
// hbuf command links, type-checked from source, in SSA form.
type Program struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	Funcs  []*ssa.Function // all source functions of the repo (incl. closures)
	inRepo map[*types.Package]bool
}

const modPath = "hbuf"

func loadProgram(repo string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOFLAGS=-mod=mod")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	// The command and everything of this module it depends on: exactly what the build links.
	lcfg := &packages.Config{Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps | packages.NeedModule, Dir: repo, Env: env}
	roots, err := packages.Load(lcfg, "./cmd")
	if err != nil {
		return nil, fmt.Errorf("listing ./cmd: %w", err)
	}
	set := map[string]bool{}
	packages.Visit(roots, nil, func(p *packages.Package) {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			set[p.PkgPath] = true
		}
	})
	var pats []string
	for p := range set {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	if len(pats) < 8 {
		return nil, fmt.Errorf("only %d packages of the module are linked into ./cmd: %v", len(pats), pats)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s does not type-check: %v", p.PkgPath, e)
		}
	}
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Repo: repo, Pkgs: pkgs, Prog: prog, ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, inRepo: map[*types.Package]bool{}}
	for i, sp := range ssapkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.SSA[pkgs[i].PkgPath] = sp
		P.ByPath[pkgs[i].PkgPath] = pkgs[i]
		P.inRepo[sp.Pkg] = true
	}
	prog.Build()
	P.Fset = prog.Fset
	for fn := range ssautil.AllFunctions(prog) {
		if P.isRepoFunc(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			P.Funcs = append(P.Funcs, fn)
		}
	}
	// ssautil.AllFunctions leaves out functions nothing refers to; add them.
	seen := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || f.Synthetic != "" {
			return
		}
		seen[f] = true
		P.Funcs = append(P.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range pkgs {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return P, nil
}

func (P *Program) isRepoFunc(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return P.inRepo[fn.Pkg.Pkg]
	}
	if o := fn.Origin(); o != nil && o != fn {
		return P.isRepoFunc(o)
	}
	if fn.Parent() != nil {
		return P.isRepoFunc(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return P.inRepo[fn.Object().Pkg()]
	}
	return false
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := P.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(P.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fnName is a stable, readable name: pkg.(Recv).Func or the closure's parent chain.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), "hbuf/pkg/", "")
}

func (P *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					if r.Pos().IsValid() {
						p = r.Pos()
						break
					}
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return P.pos(p)
}
