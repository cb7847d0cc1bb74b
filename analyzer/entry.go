package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Backend is a generator registered with build.AddBuildType.
type Backend struct {
	Name string
	Fn   *ssa.Function
	Reg  ssa.Instruction
}

// backends finds every registration of a generator in the linked program.
func (P *Program) backends() []Backend {
	var out []Backend
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil || calleeName(cal) != "build.AddBuildType" || len(ci.Common().Args) != 2 {
					continue
				}
				n, ok := ci.Common().Args[0].(*ssa.Const)
				if !ok || n.Value == nil {
					continue
				}
				v := ci.Common().Args[1]
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				if fn, ok := v.(*ssa.Function); ok {
					out = append(out, Backend{constant.StringVal(n.Value), fn, in})
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// paramVals gives symbols for the parameters of an entry function.
func (e *Engine) paramVals(fn *ssa.Function) []*V {
	var a []*V
	for _, p := range fn.Params {
		a = append(a, e.T.mk("param", p.Name(), p.Type(), 0))
	}
	return a
}

func (P *Program) fn(name string) *ssa.Function {
	for _, f := range P.Funcs {
		if calleeName(f) == name {
			return f
		}
	}
	return nil
}

func (P *Program) namedType(pkg, name string) types.Type {
	sp := P.SSA[modPath+"/pkg/"+pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

var _ = strings.TrimSpace

func fmtInt(i int) string { return strconv.Itoa(i) }
func fmtPtr(p any) string { return fmt.Sprintf("%p", p) }
