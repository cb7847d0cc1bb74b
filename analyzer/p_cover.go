package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P08: every field of a data declaration appears in every member-wise part of
// the generated type.

func init() {
	register("P08", "Abstract interpretation of each registered generator for every shape of field type (scalar, enum, data, array, map; nullable or not). For every member-wise part of the generated type (struct field, accessors, constructor, from/to JSON, copy, equality, hash, ...) there must be a loop over the complete member list whose every way through the body writes that part for the field, that visits every element (counter from the first to the length, left early only with an error), and that runs on every path that generates a declaration. build.EnumField / EnumMethod must hand every own and inherited member to their callback, skipping only names already handed over.", runCover)
}

func runCover(P *Program, rep *Report, cov Coverage, tier string) {
	shapes := allShapes(tier == "thorough")
	runs := fieldRuns(P, rep, cov, "", shapes)
	checked, loops := 0, map[ssa.Instruction]bool{}
	for _, r := range runs {
		for _, f := range fieldFacets {
			if f.Back != r.Back.Name {
				continue
			}
			checked++
			key := "part|" + f.Back + "|" + f.Name
			hits, at, why := r.hits(f)
			if len(hits) == 0 {
				if why == "" {
					why = "no loop over fields writes it for a field of type " + r.Shape.String() + "; nearest: " + r.closest(f)
				}
				rep.add(key, fmt.Sprintf("%s %s: %s", f.Back, f.Name, why))
				continue
			}
			ok := false
			var problem string
			for _, h := range hits {
				p := coverLoop(h, f, r, at)
				loops[h.Trip.In] = true
				if p == "" {
					ok = true
					break
				}
				problem = fmt.Sprintf("the loop in %s (%s): %s", h.Trip.Func, h.Trip.At, p)
			}
			if !ok {
				rep.add(key, fmt.Sprintf("%s %s: %s", f.Back, f.Name, problem))
			}
		}
		// embedded declarations
		coverExtends(r, rep)
		checked++
	}
	n := checkEnumerators(P, rep)
	nd := coverDecls(P, rep)
	cov["parts_checked_per_shape"] = checked
	cov["member_loops_checked_exhaustive"] = len(loops)
	cov["enumerator_loops_checked"] = n
	cov["declaration_loops_checked"] = nd
	if len(loops) < 20 {
		rep.add("anchor|loops", fmt.Sprintf("only %d member loops were found in the generators", len(loops)))
	}
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	return computeLoops(fn)
}

func coverLoop(h facetHit, f facet, r *fieldRun, at map[string]bool) string {
	t := h.Trip
	if w := exhaustiveLoop(loopsOf(t.In.Parent()), t.In); w != "" {
		return w
	}
	full := false
	switch {
	case strings.HasPrefix(t.List, "members("):
		full = true // own and inherited
	case strings.HasSuffix(t.List, ".Fields.List"):
		full = f.Decl == "own"
		if !full {
			return "goes over the declaration's own fields only; inherited fields are missed"
		}
	default:
		list, _ := elemLoad(t.In)
		if list == nil {
			return "goes over an unrecognised list " + t.List
		}
		why := localFull(list, t.In)
		if why != "" {
			return why
		}
		full = true
	}
	// it runs for every declaration
	for _, d := range r.decls {
		where, seen, _ := strings.Cut(d, "|")
		if !inDecl(seen, t.At) && sameSpecLoop(r, where, at) {
			return fmt.Sprintf("is not run on some path that generates a declaration (declarations taken at %s)", where)
		}
	}
	return ""
}

func inDecl(seen, at string) bool {
	for _, x := range strings.Split(seen, ";") {
		if x == at {
			return true
		}
	}
	return false
}

// sameSpecLoop: the loop over declarations at where does run the loops at.
func sameSpecLoop(r *fieldRun, where string, at map[string]bool) bool {
	for _, d := range r.decls {
		w, seen, _ := strings.Cut(d, "|")
		if w != where {
			continue
		}
		for a := range at {
			if inDecl(seen, a) {
				return true
			}
		}
	}
	return false
}

// localFull: a list built in the same function from a complete member list.
func localFull(list ssa.Value, use ssa.Instruction) string {
	fn := list.Parent()
	if fn == nil {
		return "goes over an unrecognised list"
	}
	loops := loopsOf(fn)
	switch l := list.(type) {
	case *ssa.MakeSlice:
		c, ok := l.Len.(*ssa.Call)
		if !ok {
			return "goes over a list of another length than the member list"
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return "goes over a list of another length than the member list"
		}
		src := c.Call.Args[0]
		// the loop that fills it: l[i] = ... with the index of src[i]
		for _, ref := range *l.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok || ia == nil || ia.Index == nil || loops[ia.Block()] == nil {
				continue
			}
			if !storesTo(ia) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					x, idx := elemLoad(in)
					if x != nil && sameExpr(x, src) && idx == ia.Index && isMemberList(x) {
						if w := exhaustiveLoop(loops, in); w == "" && everyTrip(loops, ia.Block()) {
							return ""
						}
					}
				}
			}
		}
		return "goes over a list that is not filled from the complete member list"
	case *ssa.Phi:
		for i, ed := range l.Edges {
			_ = i
			c, ok := ed.(*ssa.Call)
			if !ok {
				continue
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return "goes over a list to which members are added only on some paths"
			}
			if c.Call.Args[0] != ssa.Value(l) {
				return "goes over a list to which members are added only on some paths"
			}
			body := loops[c.Block()]
			if body == nil {
				continue
			}
			for x := range body {
				for _, in := range x.Instrs {
					ls, _ := elemLoad(in)
					if ls != nil && isMemberList(ls) && exhaustiveLoop(loops, in) == "" && everyTrip(loops, c.Block()) {
						return ""
					}
				}
			}
		}
	case *ssa.Call:
		if f := l.Call.StaticCallee(); f != nil && f.Blocks != nil {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 {
						return "goes over an unrecognised list"
					}
					if w := localFull(r.Results[0], use); w != "" {
						return w
					}
				}
			}
			return ""
		}
	case *ssa.Extract:
		if cl, ok := l.Tuple.(*ssa.Call); ok {
			if f := cl.Call.StaticCallee(); f != nil && f.Blocks != nil {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if w := localFull(r.Results[l.Index], use); w != "" {
							return w
						}
					}
				}
				return ""
			}
		}
	}
	if isMemberList(list) {
		return ""
	}
	return "goes over an unrecognised list"
}

func storesTo(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(ia) {
				return true
			}
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					return true
				}
			}
		}
	}
	return false
}

// everyTrip: block b is passed on every way round its loop.
func everyTrip(loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	body := loops[b]
	for x := range body {
		for _, s := range x.Succs {
			if body[s] && s.Dominates(x) && !b.Dominates(x) {
				return false
			}
		}
	}
	return true
}

// isMemberList: the list is a member list of a declaration (an unsliced field).
func isMemberList(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		if p, ok := v.(*ssa.Parameter); ok {
			return p != nil && strings.HasPrefix(typeShort(p.Type()), "[]*ast.")
		}
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	switch namedOf(fa.X.Type()) {
	case "ast.FieldList", "ast.EnumType", "ast.ServerType", "ast.DataType", "ast.File":
		return true
	}
	return false
}

// coverExtends: the bases of a declaration are named in the generated type.
var extendsText = map[string]string{
	"go": "base", "dart": "base", "ts": "base", "java": "base",
}

func coverExtends(r *fieldRun, rep *Report) {
	n := 0
	for _, t := range r.trips {
		if t.Kind != "ast.Extends" {
			continue
		}
		hit := false
		for _, tx := range t.Text {
			if strings.Contains(tx, "ast.Extends.Name.Name") {
				hit = true
			}
		}
		if hit {
			n++
			if w := exhaustiveLoop(loopsOf(t.In.Parent()), t.In); w != "" {
				rep.add("part|"+r.Back.Name+"|bases", fmt.Sprintf("%s bases: the loop in %s (%s): %s", r.Back.Name, t.Func, t.At, w))
			}
		} else if len(t.Text) > 0 || true {
			rep.add("part|"+r.Back.Name+"|bases", fmt.Sprintf("%s bases: on some path through the loop in %s (%s) a base is not named", r.Back.Name, t.Func, t.At))
		}
	}
	if n == 0 {
		rep.add("part|"+r.Back.Name+"|bases", r.Back.Name+" bases: no loop over the bases of a declaration names them in the generated type")
	}
}

// checkEnumerators verifies build.EnumField and build.EnumMethod themselves.
func checkEnumerators(P *Program, rep *Report) int {
	n := 0
	for _, w := range []struct{ fn, member, list, decl string }{
		{"build.EnumField", "ast.Field", "ast.FieldList", "ast.DataType"},
		{"build.EnumMethod", "ast.FuncType", "ast.ServerType", "ast.ServerType"},
	} {
		root := P.fn(w.fn)
		if root == nil {
			rep.add("anchor|"+w.fn, "function "+w.fn+" not found")
			continue
		}
		fns := reachIn(root, "build")
		own, ext := 0, 0
		for _, f := range fns {
			loops := loopsOf(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					list, _ := elemLoad(in)
					v, ok := in.(ssa.Value)
					if list == nil || !ok {
						continue
					}
					switch namedOf(v.Type()) {
					case w.member:
						n++
						own++
						key := "enumerate|" + w.fn + "|own"
						if !isMemberList(list) {
							rep.add(key, fmt.Sprintf("%s: the loop over own members in %s does not go over the declaration's member list", w.fn, P.instrPos(in)))
						}
						if x := exhaustiveLoop(loops, in); x != "" {
							rep.add(key, fmt.Sprintf("%s: own members, %s: %s", w.fn, P.instrPos(in), x))
						}
						if x := handsOver(f, loops, in, v); x != "" {
							rep.add(key, fmt.Sprintf("%s: own members, %s: %s", w.fn, P.instrPos(in), x))
						}
					case "ast.Extends":
						n++
						ext++
						key := "enumerate|" + w.fn + "|inherited"
						if x := exhaustiveLoop(loops, in); x != "" {
							rep.add(key, fmt.Sprintf("%s: inherited members, %s: %s", w.fn, P.instrPos(in), x))
						}
						if x := recurses(f, fns, loops, in, v, w.decl); x != "" {
							rep.add(key, fmt.Sprintf("%s: inherited members, %s: %s", w.fn, P.instrPos(in), x))
						}
					}
				}
			}
			// both loops run on every successful path
			_ = loops
		}
		if own == 0 {
			rep.add("enumerate|"+w.fn+"|own", w.fn+" has no loop over the declaration's own members")
		}
		if ext == 0 {
			rep.add("enumerate|"+w.fn+"|inherited", w.fn+" has no loop over the declarations it extends")
		}
	}
	return n
}

// reachIn lists the functions of a package statically reachable from root.
func reachIn(root *ssa.Function, pkg string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != pkg || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(root)
	return out
}

// calls lists calls in a loop body whose callee is a function value and which
// take v as first argument.
func memberCalls(body map[*ssa.BasicBlock]bool, v ssa.Value) []*ssa.Call {
	var out []*ssa.Call
	for b := range body {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != nil || c.Call.IsInvoke() || len(c.Call.Args) != 2 {
				continue
			}
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			if c.Call.Args[0] == v || sameExpr(c.Call.Args[0], v) {
				out = append(out, c)
			}
		}
	}
	return out
}

// handsOver: on every way round the loop the member is given to the callback,
// unless its name is found in the set of names already handed over; a name
// enters that set only after its member was handed over; the callback's error
// ends the loop.
func handsOver(f *ssa.Function, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, in ssa.Instruction, v ssa.Value) string {
	body := loops[in.Block()]
	cs := memberCalls(body, v)
	if len(cs) != 1 {
		return fmt.Sprintf("the callback is called at %d places for a member", len(cs))
	}
	call := cs[0]
	// the skip edges: branches on a lookup in a set of names
	skip := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if neg, ok := nameLookup(iff.Cond, v); ok {
			t := b.Succs[0]
			if neg {
				t = b.Succs[1]
			}
			skip[b] = map[*ssa.BasicBlock]bool{t: true}
		}
	}
	// a way from the element load back round that avoids the call and no skip edge
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == call.Block() || seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if skip[b][s] || !body[s] {
				continue
			}
			if s.Dominates(b) || s.Dominates(in.Block()) && s != in.Block() {
				return true
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	if in.Block() != call.Block() && walk(in.Block()) {
		return "a member can be passed over without being handed to the callback"
	}
	// names are remembered only after the call
	for b := range body {
		for _, x := range b.Instrs {
			mu, ok := x.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if !isNameOf(mu.Key, v) {
				return "another name than the member's own is remembered as handed over"
			}
			if !(call.Block() == b && instrBefore(call, mu)) && !(call.Block() != b && call.Block().Dominates(b)) {
				return "a name is remembered as handed over before its member was"
			}
		}
	}
	for _, b := range f.Blocks {
		if body[b] {
			continue
		}
		for _, x := range b.Instrs {
			if mu, ok := x.(*ssa.MapUpdate); ok {
				_ = mu
				return "names are remembered as handed over outside the loop"
			}
		}
	}
	if !errEnds(call, body) {
		return "the callback's error is not returned"
	}
	return ""
}

func instrBefore(a, b ssa.Instruction) bool {
	for _, x := range a.Block().Instrs {
		if x == a {
			return true
		}
		if x == b {
			return false
		}
	}
	return false
}

// errEnds: the error a call returns is tested and returned.
func errEnds(call *ssa.Call, body map[*ssa.BasicBlock]bool) bool {
	var errv ssa.Value = call
	for _, r := range *errv.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.BinOp:
			for _, u := range *x.Referrers() {
				if iff, ok := u.(*ssa.If); ok {
					for _, s := range iff.Block().Succs {
						if !body[s] && failsOnly(s, iff.Block(), body) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// isNameOf: the value is the name of member v (v.Name.Name).
func isNameOf(k, v ssa.Value) bool {
	u, ok := k.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa) != "Name" {
		return false
	}
	u2, ok := fa.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	fb, ok := u2.X.(*ssa.FieldAddr)
	return ok && fieldName(fb) == "Name" && (fb.X == v || sameExpr(fb.X, v))
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := derefT(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// nameLookup: the condition asks whether the member's name is in a set; neg when
// it asks for the opposite.
func nameLookup(c ssa.Value, v ssa.Value) (neg, ok bool) {
	switch x := c.(type) {
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return false, isNameOf(l.Index, v)
		}
	case *ssa.Lookup:
		return false, isNameOf(x.Index, v)
	case *ssa.UnOp:
		n, ok := nameLookup(x.X, v)
		return !n, ok
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			for _, a := range x.Call.Args {
				if isNameOf(a, v) {
					// a helper that looks the name up
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if _, ok := in.(*ssa.Lookup); ok {
								return false, true
							}
						}
					}
				}
			}
		}
	}
	return false, false
}

// recurses: each base is resolved through its own name and enumerated by the
// same function, on every way round, and its error is returned.
func recurses(f *ssa.Function, fns []*ssa.Function, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, in ssa.Instruction, v ssa.Value, decl string) string {
	body := loops[in.Block()]
	for b := range body {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			cal := c.Call.StaticCallee()
			inSet := false
			for _, g := range fns {
				if g == cal {
					inSet = true
				}
			}
			if !inSet {
				continue
			}
			for _, a := range c.Call.Args {
				if namedOf(a.Type()) == decl && derivesFrom(a, v, 0) {
					if !everyTrip(loops, c.Block()) {
						return "a base can be passed over"
					}
					if !errEnds(c, body) {
						return "the error from a base is not returned"
					}
					return ""
				}
			}
		}
	}
	return "the bases are not enumerated in turn"
}

// derivesFrom: a is computed from v by loads, field selections and conversions.
func derivesFrom(a, v ssa.Value, d int) bool {
	if a == v || sameExpr(a, v) {
		return true
	}
	if d > 20 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		return derivesFrom(x.X, v, d+1)
	case *ssa.FieldAddr:
		return derivesFrom(x.X, v, d+1)
	case *ssa.Field:
		return derivesFrom(x.X, v, d+1)
	case *ssa.TypeAssert:
		return derivesFrom(x.X, v, d+1)
	case *ssa.Extract:
		return derivesFrom(x.Tuple, v, d+1)
	case *ssa.ChangeInterface:
		return derivesFrom(x.X, v, d+1)
	case *ssa.Call:
		for _, y := range x.Call.Args {
			if derivesFrom(y, v, d+1) {
				return true
			}
		}
	}
	return false
}

// coverDecls: the loops over the declarations of a file in the generators and in
// the command's file list visit every element.
func coverDecls(P *Program, rep *Report) int {
	n := 0
	for _, f := range P.Funcs {
		if f.Pkg == nil {
			continue
		}
		switch f.Pkg.Pkg.Name() {
		case "golang", "dart", "java", "typescript":
		default:
			continue
		}
		loops := loopsOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				list, _ := elemLoad(in)
				v, ok := in.(ssa.Value)
				if list == nil || !ok || namedOf(v.Type()) != "ast.Spec" || loops[b] == nil {
					continue
				}
				n++
				if w := exhaustiveLoop(loops, in); w != "" && generates(f, loops[b]) {
					rep.add("declarations|"+calleeName(f), fmt.Sprintf("%s (%s): %s", calleeName(f), P.instrPos(in), w))
				}
			}
		}
	}
	return n
}

// generates: the loop calls functions of its package (it is not a search).
func generates(f *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg && g.Signature.Recv() != nil {
					return true
				}
			}
		}
	}
	return false
}
