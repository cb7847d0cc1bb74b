package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Flow is the call graph of the program and what the command can reach.
type Flow struct {
	P     *Program
	G     *callgraph.Graph
	Main  *ssa.Function
	Reach map[*ssa.Function]bool
	Fns   []*ssa.Function // reachable repository functions, in source order
	calls map[ssa.CallInstruction][]*ssa.Function
}

// newFlow builds the call graph: variable-type analysis for dynamic calls, plus
// every callback handed to a function outside the repository.
func newFlow(P *Program) *Flow {
	F := &Flow{P: P, Reach: map[*ssa.Function]bool{}, calls: map[ssa.CallInstruction][]*ssa.Function{}}
	all := ssautil.AllFunctions(P.Prog)
	for _, f := range P.Funcs {
		all[f] = true
	}
	F.G = vta.CallGraph(all, cha.CallGraph(P.Prog))
	for f, n := range F.G.Nodes {
		if f == nil {
			continue
		}
		for _, e := range n.Out {
			if e.Site != nil {
				F.calls[e.Site] = append(F.calls[e.Site], e.Callee.Func)
			}
		}
	}
	sp := P.SSA[modPath+"/cmd"]
	if sp == nil || sp.Func("main") == nil {
		return F
	}
	F.Main = sp.Func("main")
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !F.Reach[f] {
			F.Reach[f] = true
			work = append(work, f)
		}
	}
	add(F.Main)
	for _, p := range P.SSA {
		add(p.Func("init"))
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range F.callees(ci) {
					add(g)
				}
			}
		}
	}
	for f := range F.Reach {
		if len(f.Blocks) == 0 || !(P.isRepoFunc(f) || f.Origin() != nil && P.isRepoFunc(f.Origin())) {
			continue
		}
		if f.Synthetic == "" || f.Origin() != nil || f.Name() == "init" {
			F.Fns = append(F.Fns, f)
		}
	}
	sort.Slice(F.Fns, func(i, j int) bool {
		if F.Fns[i].Pos() != F.Fns[j].Pos() {
			return F.Fns[i].Pos() < F.Fns[j].Pos()
		}
		return F.Fns[i].String() < F.Fns[j].String()
	})
	return F
}

// callees are the functions a call may run: its targets, and for a target
// outside the repository the callbacks it is given.
func (F *Flow) callees(ci ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	cc := ci.Common()
	if f := cc.StaticCallee(); f != nil {
		out = append(out, f)
	} else {
		out = append(out, F.calls[ci]...)
	}
	ext := len(out) == 0
	for _, f := range out {
		if len(f.Blocks) == 0 {
			ext = true
		}
	}
	if ext {
		for _, a := range cc.Args {
			out = append(out, F.callbacks(a, map[ssa.Value]bool{})...)
		}
	}
	return out
}

func (F *Flow) callbacks(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []*ssa.Function
	switch x := v.(type) {
	case *ssa.Function:
		out = append(out, x)
	case *ssa.MakeClosure:
		out = append(out, x.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return F.callbacks(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, F.callbacks(e, seen)...)
		}
	case *ssa.MakeInterface:
		want := map[string]bool{"Error": true, "String": true}
		if refs := x.Referrers(); refs != nil {
			for _, r := range *refs {
				if ci, ok := r.(ssa.CallInstruction); ok {
					sig := ci.Common().Signature()
					for i, a := range ci.Common().Args {
						if a != ssa.Value(x) || i >= sig.Params().Len() {
							continue
						}
						if it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
							for k := 0; k < it.NumMethods(); k++ {
								want[it.Method(k).Name()] = true
							}
						}
					}
				}
			}
		}
		ms := F.P.Prog.MethodSets.MethodSet(x.X.Type())
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); want[s.Obj().Name()] {
				if f := F.P.Prog.MethodValue(s); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// funcOf is the function a function value denotes, if it is a literal one.
func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

// extName is the qualified name of a call's static target: "os.Create",
// "(*os.File).Close", "(os.FileInfo).Name" for an interface method.
func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Path() }) + ")." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if tf, ok := f.Object().(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

// constString is the value of a constant string.
func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// nilTest decodes a branch condition "x == nil" or "x != nil": the value tested
// and whether the true edge is the nil one.
func nilTest(c ssa.Value) (x ssa.Value, nilOnTrue, ok bool) {
	if u, isNot := c.(*ssa.UnOp); isNot && u.Op == token.NOT {
		x, n, ok := nilTest(u.X)
		return x, !n, ok
	}
	b, isBin := c.(*ssa.BinOp)
	if !isBin || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, false, false
	}
	switch {
	case isNilConst(b.Y):
		x = b.X
	case isNilConst(b.X):
		x = b.Y
	default:
		return nil, false, false
	}
	return x, b.Op == token.EQL, true
}

// stripIface undoes conversions between interface types.
func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// loopHead returns the header of the innermost loop round b, and its body.
func loopsAround(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	return naturalLoops(fn)
}

// short key of a function for stable finding keys.
func fkey(f *ssa.Function) string { return fnName(f) }

func sortFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func hasAnyPrefix(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
