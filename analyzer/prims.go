package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// enumLoop gives build.EnumField / build.EnumMethod their meaning for a caller:
// the callback is applied to every member of the declaration, inherited members
// included, until it fails.  That the functions themselves do this is checked
// separately (see enumcheck.go).
func enumLoop(what string) func(*Engine, *State, *ssa.CallCommon, []*V, *Ctx, ssa.Instruction) ([]Result, bool) {
	return func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
		if len(args) != 2 || args[1].Op != "fn" || args[1].Fn == nil || len(args[1].Fn.Params) != 2 {
			return nil, false
		}
		fn := args[1].Fn
		T := e.T
		var out []Result
		list := T.mk("members", what, types.NewSlice(fn.Params[0].Type()), 0, args[0])
		ne := T.mk("nonempty", "", types.Typ[types.Bool], 0, list)
		val, known := e.decide(s, ne)
		if !known || !val {
			t := s.fork()
			e.assume(t, ne, false)
			out = append(out, Result{st: t, ret: []*V{T.nilv()}})
			if known {
				return out, true
			}
		}
		first := s.fork()
		e.assume(first, ne, true)
		site := e.siteOf(c, what, in)
		elem := T.mk("rval", what, fn.Params[0].Type(), site, list)
		owner := T.mk("fresh", "owner", fn.Params[1].Type(), site)
		type ent struct {
			st    *State
			dirty bool
		}
		heads := map[string]*ent{}
		var order []string
		put := func(st *State) {
			k := st.prop.Key()
			if h, ok := heads[k]; ok {
				if e.joinMem(siteKey(c, what, in), h.st.mem, st.mem) {
					h.dirty = true
				}
				return
			}
			heads[k] = &ent{st: st, dirty: true}
			order = append(order, k)
		}
		errs := map[string]*Result{}
		var eorder []string
		step := func(st *State) {
			st.mem.kill(site)
			e.client.Elem(e, st, elem, c, in)
			for _, r := range e.exec(fn, []*V{elem, owner}, args[1].Args, st, c, in) {
				if len(r.ret) == 1 && r.ret[0].Op == "nil" {
					put(r.st)
					continue
				}
				k := r.st.prop.Key()
				if o, ok := errs[k]; ok {
					e.joinMem(siteKey(c, what+"err", in), o.st.mem, r.st.mem)
				} else {
					rr := r
					errs[k] = &rr
					eorder = append(eorder, k)
					if r.ret[0].Op != "fresh" && !e.isNonNil(r.ret[0]) {
						// may be nil: the loop may also go on
						put(r.st.fork())
					}
				}
			}
		}
		step(first)
		for n := 0; n < 200; n++ {
			again := false
			for i := 0; i < len(order); i++ {
				h := heads[order[i]]
				if !h.dirty {
					continue
				}
				h.dirty = false
				again = true
				step(h.st.fork())
			}
			if !again {
				break
			}
			if n == 199 {
				e.undecided("loop over members in %s did not stabilise", fnName(c.fn))
			}
		}
		for _, k := range order {
			e.client.LoopExit(e, heads[k].st, list)
			out = append(out, Result{st: heads[k].st, ret: []*V{T.nilv()}})
		}
		for _, k := range eorder {
			r := errs[k]
			out = append(out, Result{st: r.st, ret: []*V{T.mk("fresh", "nonnil", types.Universe.Lookup("error").Type(), 0)}})
		}
		return out, true
	}
}

func siteKey(c *Ctx, what string, in ssa.Instruction) string {
	return what + fmtInt(c.id) + fmtPtr(in)
}

func stdPrims() map[string]func(*Engine, *State, *ssa.CallCommon, []*V, *Ctx, ssa.Instruction) ([]Result, bool) {
	return map[string]func(*Engine, *State, *ssa.CallCommon, []*V, *Ctx, ssa.Instruction) ([]Result, bool){
		"build.EnumField":  enumLoop("EnumField"),
		"build.EnumMethod": enumLoop("EnumMethod"),
	}
}
