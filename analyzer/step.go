package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func one(s *State) []*State { return []*State{s} }

func (e *Engine) step(c *Ctx, s *State, in ssa.Instruction) []*State {
	T := e.T
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		site := e.siteOf(c, "alloc", in)
		s.mem.kill(site)
		o := T.mk("obj", typeShort(t), in.Type(), site)
		if n := typeShort(t); n == "strings.Builder" || n == "bytes.Buffer" {
			s.mem.facts[T.mk("written", "", types.Typ[types.Bool], 0, o)] = false
		}
		e.client.NewObj(e, s, o)
		e.set(s, c, in, o)
	case *ssa.MakeMap:
		site := e.siteOf(c, "map", in)
		s.mem.kill(site)
		o := T.mk("obj", typeShort(in.Type()), in.Type(), site)
		e.client.NewObj(e, s, o)
		e.set(s, c, in, o)
	case *ssa.MakeSlice:
		site := e.siteOf(c, "slice", in)
		s.mem.kill(site)
		o := T.mk("slice", "make", in.Type(), site, e.val(s, c, in.Len))
		e.set(s, c, in, o)
	case *ssa.MakeClosure:
		var b []*V
		for _, x := range in.Bindings {
			b = append(b, e.val(s, c, x))
		}
		e.set(s, c, in, T.fnv(in.Fn.(*ssa.Function), b...))
	case *ssa.FieldAddr:
		st := derefT(in.X.Type()).Underlying().(*types.Struct)
		e.set(s, c, in, T.mk("&.", st.Field(in.Field).Name(), in.Type(), 0, e.val(s, c, in.X)))
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		e.set(s, c, in, e.fieldOfStruct(s, e.val(s, c, in.X), st.Field(in.Field).Name(), in.Type()))
	case *ssa.IndexAddr:
		x := e.val(s, c, in.X)
		if x.Op == "slicing" && len(x.Args) == 1 { // whole-array slice used for varargs
			x = x.Args[0]
		}
		i := e.val(s, c, in.Index)
		e.set(s, c, in, T.mk("&[]", "", in.Type(), 0, x, i))
	case *ssa.Index:
		x := e.val(s, c, in.X)
		e.set(s, c, in, T.mk("index", "", in.Type(), 0, x, e.val(s, c, in.Index)))
	case *ssa.Lookup:
		return e.stepLookup(c, s, in)
	case *ssa.Slice:
		x := e.val(s, c, in.X)
		if in.Low == nil && in.High == nil && in.Max == nil {
			if x.Op == "obj" {
				e.set(s, c, in, T.mk("slicing", "", in.Type(), 0, x))
			} else {
				e.set(s, c, in, x)
			}
			break
		}
		opt := func(v ssa.Value) *V {
			if v == nil {
				return T.nilv()
			}
			return e.val(s, c, v)
		}
		e.set(s, c, in, T.mk("substr", "", in.Type(), 0, x, opt(in.Low), opt(in.High)))
	case *ssa.UnOp:
		x := e.val(s, c, in.X)
		switch in.Op {
		case token.MUL:
			v := e.load(s, x, in.Type())
			if x.Op == "&[]" {
				e.client.Elem(e, s, v, c, in)
			}
			e.set(s, c, in, v)
		case token.NOT:
			e.set(s, c, in, e.not(x))
		default:
			if x.isConst() {
				e.set(s, c, in, T.konst(constant.UnaryOp(in.Op, x.C, 0), in.Type()))
			} else {
				e.set(s, c, in, T.mk("un", in.Op.String(), in.Type(), 0, x))
			}
		}
	case *ssa.BinOp:
		e.set(s, c, in, e.binop(s, in.Op, e.val(s, c, in.X), e.val(s, c, in.Y), in.Type()))
	case *ssa.ChangeType:
		e.set(s, c, in, e.val(s, c, in.X))
	case *ssa.Convert:
		x := e.val(s, c, in.X)
		if isStringT(in.Type()) && !isStringT(in.X.Type()) {
			if n, ok := x.constInt(); ok {
				x = T.str(string(rune(n)))
			} else if _, isSl := in.X.Type().Underlying().(*types.Slice); !isSl {
				x = T.mk("rune", "", in.Type(), 0, x)
			}
		}
		e.set(s, c, in, x)
	case *ssa.ChangeInterface:
		e.set(s, c, in, e.val(s, c, in.X))
	case *ssa.MakeInterface:
		x := e.val(s, c, in.X)
		if x.T == nil || !types.Identical(x.T, in.X.Type()) {
			if !x.isConst() && x.Op != "nil" {
				// remember the dynamic type
				if _, isI := x.T.(*types.Interface); x.T == nil || isI {
					x = T.mk("as", typeShort(in.X.Type()), in.X.Type(), 0, x)
				}
			}
		}
		if x.Op == "nil" {
			x = T.mk("as", typeShort(in.X.Type()), in.X.Type(), 0, x)
		}
		e.set(s, c, in, x)
	case *ssa.TypeAssert:
		x := e.val(s, c, in.X)
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if dt := e.dynType(s, x); dt != nil && !types.IsInterface(dt) {
				has := types.Implements(dt, it)
				if in.CommaOk {
					e.set(s, c, in, T.mk("tuple", "", in.Type(), 0, x, T.boolean(has)))
					break
				}
				if !has {
					return nil // panics here
				}
			}
			if in.CommaOk {
				e.set(s, c, in, T.mk("tuple", "", in.Type(), 0, x, T.mk("implements", typeShort(in.AssertedType), types.Typ[types.Bool], 0, x)))
			} else {
				e.set(s, c, in, x)
			}
			break
		}
		cond := e.isCond(x, in.AssertedType)
		r := x
		if dt := e.dynType(s, x); dt == nil || !(x.T != nil && types.Identical(x.T, in.AssertedType)) {
			r = T.mk("as", typeShort(in.AssertedType), in.AssertedType, 0, x)
		}
		if in.CommaOk {
			if b, ok := e.decide(s, cond); ok && !b {
				r = zeroOf(e, in.AssertedType)
			}
			e.set(s, c, in, T.mk("tuple", "", in.Type(), 0, r, cond))
		} else {
			if b, ok := e.decide(s, cond); ok {
				if !b {
					return nil // panics here
				}
			} else {
				e.assume(s, cond, true)
			}
			e.set(s, c, in, r)
		}
	case *ssa.Extract:
		x := e.val(s, c, in.Tuple)
		if x.Op == "tuple" && in.Index < len(x.Args) {
			e.set(s, c, in, x.Args[in.Index])
		} else {
			e.set(s, c, in, T.mk("ext", strconv.Itoa(in.Index), in.Type(), 0, x))
		}
	case *ssa.Store:
		a := e.val(s, c, in.Addr)
		v := e.val(s, c, in.Val)
		e.storeTo(s, a, v)
	case *ssa.MapUpdate:
		m, k, v := e.val(s, c, in.Map), e.val(s, c, in.Key), e.val(s, c, in.Value)
		e.mapUpdate(c, s, m, k, v, in)
	case *ssa.Range:
		site := e.siteOf(c, "range", in)
		s.mem.kill(site)
		e.set(s, c, in, T.mk("iter", "", in.Type(), site, e.val(s, c, in.X)))
	case *ssa.Next:
		it := e.val(s, c, in.Iter)
		site := e.siteOf(c, "next", in)
		s.mem.kill(site)
		m := it
		if it.Op == "iter" {
			m = it.Args[0]
		}
		var kt, vt types.Type
		if tp, ok := in.Type().(*types.Tuple); ok && tp.Len() == 3 {
			kt, vt = tp.At(1).Type(), tp.At(2).Type()
		}
		if bt, ok := kt.(*types.Basic); kt == nil || ok && bt.Kind() == types.Invalid {
			kt = types.Typ[types.String]
			if mt, ok := typeOf(m).(*types.Map); ok {
				kt = mt.Key()
			}
		}
		if bt, ok := vt.(*types.Basic); vt == nil || ok && bt.Kind() == types.Invalid {
			if mt, ok := typeOf(m).(*types.Map); ok {
				vt = mt.Elem()
			}
		}
		k := T.mk("rkey", "", kt, site, m)
		v := T.mk("rval", "", vt, site, m)
		e.set(s, c, in, T.mk("tuple", "", in.Type(), 0, T.mk("more", "", types.Typ[types.Bool], site, m), k, v))
		e.client.Elem(e, s, v, c, in)
	case *ssa.Call:
		return e.stepCall(c, s, in, in.Common(), in)
	case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send:
	case *ssa.SliceToArrayPointer, *ssa.MakeChan, *ssa.Select, *ssa.MultiConvert:
		e.set(s, c, in.(ssa.Value), T.mk("fresh", "?", in.(ssa.Value).Type(), e.siteOf(c, "x", in)))
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(s, c, v, T.mk("fresh", "?", v.Type(), e.siteOf(c, "x", in)))
		}
	}
	return one(s)
}

func typeOf(v *V) types.Type {
	if v == nil || v.T == nil {
		return nil
	}
	return v.T.Underlying()
}

func (e *Engine) isCond(x *V, t types.Type) *V {
	v := e.T.mk("is", t.String(), t, 0, x)
	return v
}

func (e *Engine) storeTo(s *State, a, v *V) {
	if a.Op == "&[]" && !a.Args[1].isConst() {
		// element store at an unknown index: weak
		if v.Op == "sv" {
			for k := range s.mem.store {
				if k.Op == "&." && k.Args[0] == a {
					delete(s.mem.store, k)
				}
			}
		}
		k := e.T.mk("elems", "", nil, 0, a.Args[0])
		if o, ok := s.mem.store[k]; ok && o != v {
			s.mem.store[k] = e.joinSym(e.T.site(fmt.Sprintf("weak|%d", a.Args[0].id)), derefT(a.T), o, v)
		} else {
			s.mem.store[k] = v
		}
		s.mem.store[a] = v
		return
	}
	if v.Op == "sv" {
		for k := range s.mem.store {
			if k.Op == "&." && k.Args[0] == a {
				delete(s.mem.store, k)
			}
		}
	}
	// a store to a cell invalidates what was known about its old content
	if old, ok := s.mem.store[a]; ok && old.Op == "join" {
		_ = old
	}
	if a.Op == "obj" { // whole object overwritten
		for k := range s.mem.store {
			if k.Op == "&." && k.Args[0] == a {
				delete(s.mem.store, k)
			}
		}
	}
	if !(a.Op == "obj" || a.Op == "&." && a.Args[0].Op == "obj") {
		// facts about the old value read through this path no longer hold
		old := e.load(s, a, derefT(a.T))
		for k := range s.mem.facts {
			if uses(k, old) {
				delete(s.mem.facts, k)
			}
		}
		for k := range s.mem.eq {
			if uses(k, old) {
				delete(s.mem.eq, k)
			}
		}
	}
	s.mem.store[a] = v
}

func uses(v, x *V) bool {
	if v == x {
		return true
	}
	for _, a := range v.Args {
		if a != nil && uses(a, x) {
			return true
		}
	}
	return false
}

func (e *Engine) mapUpdate(c *Ctx, s *State, m, k, v *V, in ssa.Instruction) {
	if k.isConst() {
		s.mem.store[e.T.mk("mapcell", "", nil, 0, m, k)] = v
	} else {
		s.mem.store[e.T.mk("mapany", "", nil, 0, m)] = e.T.boolean(true)
	}
	for f := range s.mem.facts {
		if f.Op == "has" && f.Args[0] == m {
			delete(s.mem.facts, f)
		}
	}
	e.client.MapUpdate(e, s, m, k, v, c, in)
}

func (e *Engine) binop(s *State, op token.Token, a, b *V, t types.Type) *V {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.cmp(s, op, a, b)
	case token.ADD:
		if isStringT(t) {
			return e.T.concat(a, b)
		}
	}
	if a.isConst() && b.isConst() && a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := b.constInt(); ok && n >= 0 && n < 64 {
				return e.T.konst(constant.Shift(a.C, op, uint(n)), t)
			}
		case token.QUO:
			if n, ok := b.constInt(); ok && n != 0 {
				return e.T.konst(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), t)
			}
		default:
			return e.T.konst(constant.BinaryOp(a.C, op, b.C), t)
		}
	}
	return e.T.mk("bin", op.String(), t, 0, a, b)
}

func (e *Engine) stepLookup(c *Ctx, s *State, in *ssa.Lookup) []*State {
	T := e.T
	m := e.val(s, c, in.X)
	k := s.resolve(e.val(s, c, in.Index))
	vt := in.Type()
	if in.CommaOk {
		vt = in.Type().(*types.Tuple).At(0).Type()
	}
	if _, isStr := in.X.Type().Underlying().(*types.Basic); isStr {
		e.set(s, c, in, T.mk("index", "", in.Type(), 0, m, k))
		return one(s)
	}
	ret := func(v, ok *V) {
		if in.CommaOk {
			e.set(s, c, in, T.mk("tuple", "", in.Type(), 0, v, ok))
		} else {
			e.set(s, c, in, v)
		}
	}
	// tables: package-level maps with constant contents that nobody changes
	if m.Op == "global" {
		if tab := e.constTable(m.S); tab != nil {
			if k.isConst() {
				v, ok := tab[k.C.ExactString()]
				if !ok {
					v = zeroOf(e, vt)
				}
				ret(v, T.boolean(ok))
				return one(s)
			}
			// key unknown: the possible results under the path facts
			sym := T.mk("lookup", "", vt, 0, m, k)
			has := T.mk("has", "", types.Typ[types.Bool], 0, m, k)
			ret(sym, has)
			return one(s)
		}
	}
	if k.isConst() {
		if v, ok := s.mem.store[T.mk("mapcell", "", nil, 0, m, k)]; ok {
			ret(v, T.boolean(true))
			return one(s)
		}
		if m.Op == "obj" && e.isMapFresh(s, m) {
			// nothing was stored under an unknown key: definitely absent
			if b, known := e.client.Cond(e, s, T.mk("has", "", types.Typ[types.Bool], 0, m, k)); known {
				ret(T.mk("lookup", "", vt, 0, m, k), T.boolean(b))
				return one(s)
			}
		}
	}
	ret(T.mk("lookup", "", vt, 0, m, k), T.mk("has", "", types.Typ[types.Bool], 0, m, k))
	return one(s)
}

func (e *Engine) isMapFresh(s *State, m *V) bool {
	_, any := s.mem.store[e.T.mk("mapany", "", nil, 0, m)]
	return !any
}

// tableAlts lists the entries of a constant table that the path facts allow for
// an unknown key.
func (e *Engine) tableAlts(s *State, v *V) ([]*V, bool) {
	if v.Op != "lookup" || v.Args[0].Op != "global" {
		return nil, false
	}
	tab := e.constTable(v.Args[0].S)
	if tab == nil {
		return nil, false
	}
	key := v.Args[1]
	var out []*V
	for _, kk := range e.tableKeys(v.Args[0].S) {
		cond := e.cmp(s, token.EQL, key, kk)
		if b, ok := e.decide(s, cond); ok && !b {
			continue
		}
		out = append(out, tab[kk.C.ExactString()])
	}
	return out, true
}

func (e *Engine) callArgs(c *Ctx, s *State, cc *ssa.CallCommon) []*V {
	var a []*V
	if cc.IsInvoke() {
		a = append(a, e.val(s, c, cc.Value))
	}
	for _, x := range cc.Args {
		a = append(a, e.val(s, c, x))
	}
	return a
}

// variadic returns the elements passed for a variadic parameter, if known.
func (e *Engine) variadic(s *State, v *V) ([]*V, bool) {
	if v.Op == "nil" {
		return nil, true
	}
	if v.Op != "slicing" || v.Args[0].Op != "obj" {
		return nil, false
	}
	at, ok := derefT(v.Args[0].T).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]*V, at.Len())
	for i := range out {
		k := e.T.mk("&[]", "", types.NewPointer(at.Elem()), 0, v.Args[0], e.T.integer(int64(i)))
		x, ok := s.mem.store[k]
		if !ok {
			return nil, false
		}
		out[i] = x
	}
	return out, true
}

func (e *Engine) callee(c *Ctx, s *State, cc *ssa.CallCommon, args []*V) (*ssa.Function, []*V) {
	if cc.IsInvoke() {
		if dt := e.dynType(s, args[0]); dt != nil {
			if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && !types.IsInterface(dt) && types.Implements(dt, it) {
				if fn := e.P.Prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
					return fn, nil
				}
			}
		}
		return nil, nil
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			v := e.val(s, c, mc)
			return f, v.Args
		}
		return f, nil
	}
	v := s.resolve(e.val(s, c, cc.Value))
	if v.Op == "fn" {
		return v.Fn, v.Args
	}
	return nil, nil
}

func (e *Engine) stepCall(c *Ctx, s *State, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) []*State {
	T := e.T
	args := e.callArgs(c, s, cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.stepBuiltin(c, s, in, b, args, res)
	}
	fn, binds := e.callee(c, s, cc, args)
	name := ""
	if fn != nil && cc.IsInvoke() {
		// the receiver converted to its concrete type
		if dt := e.dynType(s, args[0]); dt != nil && !(args[0].T != nil && types.Identical(args[0].T, dt)) {
			args[0] = T.mk("as", typeShort(dt), dt, 0, args[0])
		}
	}
	if fn != nil {
		name = calleeName(fn)
	} else if cc.IsInvoke() {
		name = "(" + typeShort(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	if e.prim != nil {
		if h, ok := e.prim[name]; ok {
			if rs, ok := h(e, s, cc, args, c, in); ok {
				return e.finishCall(c, s, rs, res)
			}
		}
	}
	if out, ok := e.model(c, s, in, cc, name, args, res); ok {
		return out
	}
	if fn != nil && e.P.isRepoFunc(fn) && len(fn.Blocks) > 0 {
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") && !strings.Contains(fn.Synthetic, "wrapper") && !strings.Contains(fn.Synthetic, "bound") && !strings.Contains(fn.Synthetic, "thunk") {
			goto opaque
		}
		if e.effect[fn] || e.closureArgs(args) {
			if c.count(fn) >= e.maxRec {
				// recursion bound: assume the deeper levels behave like the ones analysed
				e.setFresh(c, s, in, res, fn, args)
				return one(s)
			}
			return e.finishCall(c, s, e.exec(fn, args, binds, s, c, in), res)
		}
		e.set(s, c, res, e.pureCall(fn, args, binds, s, c, in))
		return one(s)
	}
opaque:
	if fn == nil && !cc.IsInvoke() {
		name = "dynamic"
	}
	if pureExternal(name) || cc.IsInvoke() && e.P.inRepo[cc.Method.Pkg()] {
		v := T.mk("call", name, res.Type(), 0, args...)
		e.set(s, c, res, e.spread(v, res.Type()))
		return one(s)
	}
	site := e.siteOf(c, "call", in)
	s.mem.kill(site)
	v := T.mk("call", name, res.Type(), site, args...)
	e.set(s, c, res, e.spread(v, res.Type()))
	return one(s)
}

func (e *Engine) closureArgs(args []*V) bool {
	for _, a := range args {
		if a != nil && a.Op == "fn" && a.Fn != nil && e.effect[a.Fn] {
			return true
		}
	}
	return false
}

// spread turns a multi-result call symbol into a tuple of symbols.
func (e *Engine) spread(v *V, t types.Type) *V {
	tp, ok := t.(*types.Tuple)
	if !ok {
		return v
	}
	var a []*V
	for i := 0; i < tp.Len(); i++ {
		a = append(a, e.T.mk("ext", strconv.Itoa(i), tp.At(i).Type(), 0, v))
	}
	return e.T.mk("tuple", "", t, 0, a...)
}

func (e *Engine) setFresh(c *Ctx, s *State, in ssa.Instruction, res ssa.Value, fn *ssa.Function, args []*V) {
	site := e.siteOf(c, "cut", in)
	s.mem.kill(site)
	t := res.Type()
	if tp, ok := t.(*types.Tuple); ok {
		var a []*V
		for i := 0; i < tp.Len(); i++ {
			if isErrorType(tp.At(i).Type()) {
				a = append(a, e.T.nilv())
			} else {
				a = append(a, e.T.mk("fresh", fn.Name()+"…", tp.At(i).Type(), e.T.site(fmt.Sprintf("cut%d|%d", site, i))))
			}
		}
		e.set(s, c, res, e.T.mk("tuple", "", t, 0, a...))
		return
	}
	if isErrorType(t) {
		e.set(s, c, res, e.T.nilv())
		return
	}
	e.set(s, c, res, e.T.mk("fresh", fn.Name()+"…", t, site))
}

func (e *Engine) finishCall(c *Ctx, s *State, rs []Result, res ssa.Value) []*State {
	var out []*State
	for _, r := range rs {
		n := &State{prop: r.st.prop, mem: r.st.mem, vals: append([]*V(nil), s.vals...)}
		if res != nil {
			switch len(r.ret) {
			case 0:
			case 1:
				e.set(n, c, res, r.ret[0])
			default:
				e.set(n, c, res, e.T.mk("tuple", "", res.Type(), 0, r.ret...))
			}
		}
		out = append(out, n)
	}
	return out
}

func calleeName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	s = strings.TrimPrefix(s, "hbuf/pkg/")
	s = strings.ReplaceAll(s, "(*hbuf/pkg/", "(*")
	s = strings.ReplaceAll(s, "(hbuf/pkg/", "(")
	return s
}

// pureCall analyses a call of a function without outside effects and reduces
// its result to one value: the value itself when the function determines it,
// otherwise the application symbol fn(args).
func (e *Engine) pureCall(fn *ssa.Function, args, binds []*V, s *State, c *Ctx, in ssa.Instruction) *V {
	T := e.T
	rt := fn.Signature.Results()
	sym := func() *V {
		var typ types.Type = rt
		if rt.Len() == 1 {
			typ = rt.At(0).Type()
		}
		v := T.mk("call", calleeName(fn), typ, 0, append(append([]*V{}, args...), binds...)...)
		return e.spread(v, typ)
	}
	if rt.Len() == 0 {
		return T.nilv()
	}
	fi := e.info(fn)
	if fi.hasLoop && !e.emptyArg(s, args) || c.count(fn) >= 3 || e.pureD > 6 || len(fn.Blocks) > 80 {
		return sym()
	}
	saved := e.client
	e.client = baseClient{}
	e.pureD++
	e.quiet++
	base := &State{prop: noProp{}, mem: s.mem, vals: nil}
	rs := e.exec(fn, args, binds, base, c, in)
	e.quiet--
	e.pureD--
	e.client = saved
	if len(rs) == 0 {
		return sym()
	}
	sv := sym()
	out := make([]*V, rt.Len())
	for i := range out {
		var one *V
		same := true
		for _, r := range rs {
			if one == nil {
				one = r.ret[i]
			} else if one != r.ret[i] {
				same = false
			}
		}
		local := same && e.localTo(one, c) && !(one.Op == "obj" && inMem(s.mem, one))
		if same && !local {
			out[i] = one
			continue
		}
		// several possible values: the application symbol, with its alternatives
		ov := sv
		if rt.Len() > 1 {
			ov = sv.Args[i]
		}
		out[i] = ov
		if isErrorType(rt.At(i).Type()) {
			// an error whichever way the call returns
			always := true
			for _, r := range rs {
				if x := r.ret[i]; !e.isNonNil(x) {
					if v, ok := e.decide(r.st, e.T.mk("==", "", types.Typ[types.Bool], 0, x, e.T.nilv())); !ok || v {
						always = false
					}
				}
			}
			if always {
				s.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, ov, e.T.nilv())] = false
			}
		}
		if !local || one.Op == "join" {
			ok := true
			var alts []*V
			for _, r := range rs {
				if e.T.altTop[r.ret[i]] || e.localTo(r.ret[i], c) && len(e.T.alts[r.ret[i]]) == 0 {
					ok = false
					break
				}
				for _, a := range e.Alts(r.ret[i]) {
					if e.localTo(a, c) {
						ok = false
					}
					alts = append(alts, a)
				}
			}
			if ok && len(alts) <= 16 && isStringT(rt.At(i).Type()) {
				// the alternatives depend on the facts of this call: remember them per path only when unconditional
				e.noteAlts(ov, alts)
			}
		}
	}
	if rt.Len() == 1 {
		return out[0]
	}
	return T.mk("tuple", "", rt, 0, out...)
}

func (e *Engine) noteAlts(v *V, alts []*V) {
	if e.T.altTop[v] {
		return
	}
	for _, a := range alts {
		if a == v {
			continue
		}
		dup := false
		for _, b := range e.T.alts[v] {
			if a == b {
				dup = true
			}
		}
		if !dup {
			e.T.alts[v] = append(e.T.alts[v], a)
		}
	}
	if len(e.T.alts[v]) > 16 {
		e.T.altTop[v] = true
		delete(e.T.alts, v)
	}
}

// localTo: does the value mention program points (joins, objects) of a callee?
func (e *Engine) localTo(v *V, c *Ctx) bool {
	return v.Op == "join" || v.Op == "unknown" || v.Op == "obj"
}

// inMem: the object is known before the call.
func inMem(m *Mem, o *V) bool {
	for _, v := range m.store {
		if v == o {
			return true
		}
	}
	return false
}

// emptyArg: is an argument a list known to be empty?
func (e *Engine) emptyArg(s *State, args []*V) bool {
	for _, a := range args {
		if a == nil || a.T == nil {
			continue
		}
		if _, ok := a.T.Underlying().(*types.Slice); !ok {
			continue
		}
		if a.Op == "nil" {
			return true
		}
		if v, ok := e.decide(s, e.nonempty(s, a)); ok && !v {
			return true
		}
	}
	return false
}

func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "utf8.", "unicode/utf8.", "path.", "path/filepath.", "filepath.", "(*regexp.Regexp).", "regexp.", "math.", "time.Parse", "(time.Time).", "fmt.Sprint", "slices.", "maps.", "errors.", "(error).Error"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) stepBuiltin(c *Ctx, s *State, in ssa.Instruction, b *ssa.Builtin, args []*V, res ssa.Value) []*State {
	T := e.T
	switch b.Name() {
	case "len":
		x := s.resolve(args[0])
		if str, ok := x.constStr(); ok {
			e.set(s, c, res, T.integer(int64(len(str))))
			return one(s)
		}
		if x.Op == "nil" {
			e.set(s, c, res, T.integer(0))
			return one(s)
		}
		if x.Op == "slice" && x.S == "make" {
			e.set(s, c, res, x.Args[0])
			return one(s)
		}
		if x.Op == "slicing" {
			if at, ok := derefT(x.Args[0].T).Underlying().(*types.Array); ok {
				e.set(s, c, res, T.integer(at.Len()))
				return one(s)
			}
		}
		e.set(s, c, res, T.mk("len", "", types.Typ[types.Int], 0, x))
		return one(s)
	case "append":
		base := args[0]
		site := e.siteOf(c, "append", in)
		o := T.mk("slice", "append", res.Type(), site)
		var el types.Type
		if sl, ok := res.Type().Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
		var vs []*V
		if vv, ok := e.variadic(s, args[1]); ok {
			vs = append(vs, vv...)
		} else {
			vs = append(vs, T.mk("index", "", el, 0, args[1], T.mk("any", "", nil, 0)))
		}
		if base.Op == "slice" && base.S == "append" || base.Op == "join" {
			if w, ok := s.mem.store[T.mk("elems", "", nil, 0, base)]; ok {
				vs = append(vs, w)
			}
			for _, a := range e.Alts(base) {
				if w, ok := s.mem.store[T.mk("elems", "", nil, 0, a)]; ok {
					vs = append(vs, w)
				}
			}
		} else if base.Op != "nil" && base.Op != "zero" {
			vs = append(vs, e.load(s, T.mk("&[]", "", types.NewPointer(el), 0, base, T.mk("any", "", nil, 0)), el))
		}
		k := T.mk("elems", "", nil, 0, o)
		if old, ok := s.mem.store[k]; ok {
			vs = append(vs, old)
		}
		r := vs[0]
		for _, v := range vs[1:] {
			if v != r {
				r = e.joinSym(T.site(fmt.Sprintf("app|%d", o.id)), el, r, v)
			}
		}
		s.mem.store[k] = r
		e.set(s, c, res, o)
		return one(s)
	case "panic":
		return nil
	case "delete":
		return one(s)
	}
	if res != nil {
		e.set(s, c, res, T.mk("call", "builtin."+b.Name(), res.Type(), 0, args...))
	}
	return one(s)
}
