package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// verifyCase is what is known of a field and of the formats it is verified by.
type verifyCase struct {
	Shape         Shape
	Null          bool // the format allows null
	Min, Max, Reg bool // the format has a limit, an expression
}

func verifyScenario(v verifyCase) Scenario {
	sc := fieldShape(v.Shape)
	sc.Widen, sc.Win, sc.WinLen = true, true, 4000
	sc.Member = func(elem *V) bool {
		l := listOf(elem)
		return l != nil && namedOf(elem.T) == "build.VerifyEnum"
	}
	elem := sc.OnElem
	sc.OnElem = func(k scen, e *V) {
		if namedOf(e.T) == "build.VerifyEnum" {
			// the name of a declaration is bound to its file
			o := k.f(k.f(k.f(e, "Enum"), "Name"), "Obj")
			k.nonnil(o)
			k.is(k.f(o, "Data"), k.ptr("ast", "File"))
			return
		}
		elem(k, e)
	}
	tag := func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
		n, _ := args[1].constStr()
		if n == "verify" {
			t := e.T.mk("tag", n, cc.Signature().Results().At(0).Type(), 0, args[0])
			scen{e, s}.nonnil(t)
			return []Result{{st: s, ret: []*V{t, e.T.boolean(true)}}}, true
		}
		return []Result{{st: s, ret: []*V{e.T.nilv(), e.T.boolean(false)}}}, true
	}
	sc.Prim = map[string]primFn{
		"build.GetTag": tag,
		"build.GetVerify": func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
			t := e.T.mk("verify", "", cc.Signature().Results().At(0).Type(), 0, args[0])
			k := scen{e, s}
			k.nonnil(t)
			k.nonempty(k.f(t, "format"))
			return []Result{{st: s, ret: []*V{t, e.T.nilv()}}}, true
		},
		"build.GetFormat": func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
			t := e.T.mk("format", "", cc.Signature().Results().At(0).Type(), 0, args[0])
			k := scen{e, s}
			k.nonnil(t)
			k.boolean(k.f(t, "Null"), v.Null)
			for n, has := range map[string]bool{"Min": v.Min, "Max": v.Max, "Reg": v.Reg} {
				x := k.f(t, n)
				if has {
					k.st.mem.facts[e.T.mk("nonempty", "", types.Typ[types.Bool], 0, x)] = true
				} else {
					k.eq(x, e.T.str(""))
				}
			}
			return []Result{{st: s, ret: []*V{t}}}, true
		},
	}
	return sc
}
