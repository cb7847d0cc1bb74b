package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effectFuncs: functions of the program that may append text somewhere, change
// a map or memory they did not allocate, or call a function value.
func effectFuncs(P *Program) map[*ssa.Function]bool {
	eff := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if !eff[f] {
			eff[f] = true
			work = append(work, f)
		}
	}
	all := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || all[f] || len(f.Blocks) == 0 || !P.isRepoFunc(f) {
			return
		}
		all[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !localAddr(in.Addr) {
						mark(f)
					}
				case *ssa.MapUpdate:
					if !localVal(in.Map) {
						mark(f)
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					if cc.IsInvoke() {
						continue
					}
					callee := cc.StaticCallee()
					if callee == nil {
						mark(f) // calls a function value
						continue
					}
					n := calleeName(callee)
					if strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "io.WriteString") || strings.HasPrefix(n, "os.WriteFile") || n == "maps.Copy" || n == "(*strings.Builder).String" || n == "(*bytes.Buffer).String" {
						mark(f)
					}
					if P.isRepoFunc(callee) {
						callers[callee] = append(callers[callee], f)
						visit(callee)
					}
				}
			}
		}
	}
	for _, f := range P.Funcs {
		visit(f)
	}
	// constructors without loops: interpreted, so that what they build is known
	for f := range all {
		if constructor(f) || builderGetter(f) {
			mark(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			mark(g)
		}
	}
	return eff
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X) || localVal(v.X)
	}
	return false
}

func localVal(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return localAddr(v.X) || localVal(v.X)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && !a.Heap {
			return true
		}
	}
	return false
}

// loadGlobals collects package-level maps whose contents are constant: all
// updates happen in the package initialiser with constant keys and values.
func (e *Engine) loadGlobals() {
	e.globals = map[*ssa.Global]map[string]*V{}
	e.globalsKeys = map[*ssa.Global][]*V{}
	bad := map[*ssa.Global]bool{}
	src := func(v ssa.Value) *ssa.Global {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return g
			}
		}
		return nil
	}
	for _, sp := range e.P.SSA {
		init := sp.Func("init")
		maps := map[ssa.Value]*ssa.Global{}
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if _, ok := st.Val.(*ssa.MakeMap); ok {
							maps[st.Val] = g
							e.globals[g] = map[string]*V{}
						}
					}
				}
			}
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				g := maps[mu.Map]
				if g == nil {
					g = src(mu.Map)
				}
				if g == nil {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok || k.Value == nil {
					bad[g] = true
					continue
				}
				var v *V
				if cv, ok := mu.Value.(*ssa.Const); ok {
					if cv.Value == nil {
						v = zeroOf(e, cv.Type())
					} else {
						v = e.T.konst(cv.Value, cv.Type())
					}
				} else if _, ok := mu.Value.Type().Underlying().(*types.Struct); ok {
					v = e.T.mk("zero", typeShort(mu.Value.Type()), mu.Value.Type(), 0)
				} else {
					bad[g] = true
					continue
				}
				if _, dup := e.globals[g][k.Value.ExactString()]; !dup {
					e.globalsKeys[g] = append(e.globalsKeys[g], e.T.konst(k.Value, k.Type()))
				}
				e.globals[g][k.Value.ExactString()] = v
			}
		}
	}
	// any other write disqualifies
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if g := src(in.Map); g != nil {
						bad[g] = true
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(e.globals, g)
	}
}

func (e *Engine) constTable(name string) map[string]*V {
	for g, t := range e.globals {
		if g.String() == name {
			return t
		}
	}
	return nil
}

func (e *Engine) tableKeys(name string) []*V {
	for g := range e.globals {
		if g.String() == name {
			ks := append([]*V{}, e.globalsKeys[g]...)
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			return ks
		}
	}
	return nil
}

// constructor: a loop-free function that returns something it allocates.
func constructor(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				switch v.(type) {
				case *ssa.Alloc, *ssa.MakeMap:
					return true
				}
			}
		}
	}
	return false
}

// builderGetter: a loop-free function that returns a text buffer of its argument.
func builderGetter(f *ssa.Function) bool {
	r := f.Signature.Results()
	if len(f.Blocks) != 1 || r.Len() != 1 || f.Signature.Recv() == nil {
		return false
	}
	n := typeShort(r.At(0).Type())
	return n == "*strings.Builder" || n == "*bytes.Buffer"
}
