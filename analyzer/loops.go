package main

import (
	"fmt"
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Exhaustive iteration: a loop visits every element of the list it goes over,
// or stops with a failure that is returned.

// sameExpr tells whether two SSA values denote the same expression: the same
// value, or loads of the same field path from the same root.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == y.Op && x.Op == token.MUL {
			return sameExpr(x.X, y.X)
		}
	case *ssa.FieldAddr:
		if y, ok := b.(*ssa.FieldAddr); ok && x.Field == y.Field {
			return sameExpr(x.X, y.X)
		}
	case *ssa.Field:
		if y, ok := b.(*ssa.Field); ok && x.Field == y.Field {
			return sameExpr(x.X, y.X)
		}
	case *ssa.Const:
		if y, ok := b.(*ssa.Const); ok {
			return x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
		}
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// nonNilAt tells whether an error value is known not to be nil in block b: it is
// built there, or b is dominated by the branch on which it was found non-nil.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	case *ssa.ChangeInterface:
		return nonNilAt(x.X, b)
	case *ssa.Phi:
		all := true
		for i, e := range x.Edges {
			if !nonNilAt(e, x.Block().Preds[i]) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		bo, ok := r.(*ssa.BinOp)
		if !ok || (bo.Op != token.NEQ && bo.Op != token.EQL) {
			continue
		}
		o := bo.Y
		if o == v {
			o = bo.X
		}
		if c, ok := o.(*ssa.Const); !ok || c.Value != nil {
			continue
		}
		for _, u := range *bo.Referrers() {
			iff, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			t := iff.Block().Succs[0]
			if bo.Op == token.EQL {
				t = iff.Block().Succs[1]
			}
			if len(t.Preds) == 1 && t.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// failsOnly tells whether every return reachable from block b without going
// through stop returns a non-nil error.
func failsOnly(b, from *ssa.BasicBlock, stop map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x, prev *ssa.BasicBlock) bool
	walk = func(x, prev *ssa.BasicBlock) bool {
		if stop[x] {
			return false
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		last := x.Instrs[len(x.Instrs)-1]
		switch r := last.(type) {
		case *ssa.Return:
			if len(r.Results) == 0 {
				return false
			}
			v := r.Results[len(r.Results)-1]
			if !isErrorType(v.Type()) {
				return false
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == x && prev != nil {
				for i, pb := range x.Preds {
					if pb == prev {
						return nonNilAt(p.Edges[i], prev)
					}
				}
			}
			return nonNilAt(v, x)
		case *ssa.Panic:
			return true
		}
		for _, s := range x.Succs {
			if !walk(s, x) {
				return false
			}
		}
		return true
	}
	return walk(b, from)
}

// loopList returns the list an element load goes over and the loop round it.
func elemLoad(in ssa.Instruction) (list, idx ssa.Value) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return ia.X, ia.Index
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				return ia.X, ia.Index
			}
		}
	case *ssa.Index:
		return x.X, x.Index
	}
	return nil, nil
}

// exhaustive says why the loop round element load in may miss an element; "" if
// it visits all of them or fails.
func (e *Engine) exhaustive(in ssa.Instruction) string {
	return exhaustiveLoop(e.info(in.Parent()).loop, in)
}

func exhaustiveLoop(loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, in ssa.Instruction) string {
	if _, ok := in.(*ssa.Call); ok {
		return "" // visits through build.EnumField / EnumMethod, checked there
	}
	body := loops[in.Block()]
	if body == nil {
		return "the element is not taken in a loop"
	}
	var hdr *ssa.BasicBlock
	for b := range body {
		dom := true
		for o := range body {
			if !b.Dominates(o) {
				dom = false
				break
			}
		}
		if dom {
			hdr = b
		}
	}
	if hdr == nil {
		return "irreducible loop"
	}
	var cond ssa.Value
	if iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok {
		cond = iff.Cond
	}
	list, idx := elemLoad(in)
	if list == nil {
		// range over a map or a channel-like iterator
		if nx, ok := in.(*ssa.Next); ok {
			_ = nx
		} else if ex, ok := in.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); !ok {
				return "unrecognised loop form"
			}
		} else {
			return "unrecognised loop form"
		}
	} else {
		if why := fullCount(hdr, body, cond, list, idx); why != "" {
			return why
		}
	}
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || b == hdr {
				continue
			}
			if !failsOnly(s, b, body) {
				return fmt.Sprintf("the loop can be left early without a failure (block %s)", b.Comment)
			}
		}
	}
	return ""
}

func fullCount(hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cond, list, idx ssa.Value) string {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return "the loop is not controlled by a comparison of its index with the length"
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && sameExpr(c.Call.Args[0], list)
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if isLen(x) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !isLen(y) || !(op == token.LSS || op == token.NEQ) || !body[hdr.Succs[0]] {
		// counting down: phi(len-1, i-1) >= 0
		if c, ok := constInt(y); ok && c == 0 && op == token.GEQ && x == idx {
			if p, ok := idx.(*ssa.Phi); ok && p.Block() == hdr {
				okI, okS := false, false
				for i, ed := range p.Edges {
					b2, ok := ed.(*ssa.BinOp)
					if !ok {
						return "unrecognised loop counter"
					}
					one, _ := constInt(b2.Y)
					if body[hdr.Preds[i]] {
						okS = b2.Op == token.SUB && b2.X == ssa.Value(p) && one == 1
					} else {
						okI = b2.Op == token.SUB && isLen(b2.X) && one == 1
					}
				}
				if okI && okS {
					return ""
				}
			}
		}
		return "the loop does not run up to the length of the list"
	}
	if x != idx {
		return "the element index is not the loop counter"
	}
	// range form: idx = phi(-1, idx) + 1
	if add, ok := idx.(*ssa.BinOp); ok && add.Op == token.ADD {
		p, ok := add.X.(*ssa.Phi)
		one, ok2 := constInt(add.Y)
		if !ok || !ok2 || one != 1 {
			return "unrecognised loop counter"
		}
		for i, ed := range p.Edges {
			if body[hdr.Preds[i]] {
				if ed != ssa.Value(add) {
					return "the loop counter does not go up by one"
				}
			} else if c, ok := constInt(ed); !ok || c != -1 {
				return "the loop does not begin at the first element"
			}
		}
		return ""
	}
	p, ok := idx.(*ssa.Phi)
	if !ok || p.Block() != hdr {
		return "unrecognised loop counter"
	}
	for i, ed := range p.Edges {
		if body[hdr.Preds[i]] {
			add, ok := ed.(*ssa.BinOp)
			one := int64(0)
			if ok {
				one, _ = constInt(add.Y)
			}
			if !ok || add.Op != token.ADD || add.X != ssa.Value(p) || one != 1 {
				return "the loop counter does not go up by one"
			}
		} else if c, ok := constInt(ed); !ok || c != 0 {
			return "the loop does not begin at the first element"
		}
	}
	return ""
}
