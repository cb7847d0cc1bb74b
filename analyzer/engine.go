package main

// An abstract interpreter over go/ssa.
//
// It computes, for one entry function, a fixpoint over the function's control
// flow graph and (by context) the graphs of the in-repository functions it
// calls.  The abstract state at a program point is a set of pairs
// (property state, store), at most one store per property state: stores that
// reach the same point with the same property state are joined ("property
// simulation").  Values are constants, access paths, texts, objects; branch
// conditions are recorded as facts about access paths so that two tests of the
// same pure condition agree.  Nothing is executed and no solver is involved.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Prop interface{ Key() string }

type noProp struct{}

func (noProp) Key() string { return "" }

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	args   []*V
	depth  int
	loose  []*ssa.BasicBlock // loops of the caller round the call that are not followed trip by trip
}

// Client is the property being simulated.
type Client interface {
	Init() Prop
	// Emit: text is appended to sink (a string builder, buffer or file).
	Emit(e *Engine, st *State, sink, text *V, c *Ctx, in ssa.Instruction) []*State
	MapUpdate(e *Engine, st *State, m, k, v *V, c *Ctx, in ssa.Instruction)
	// Cond may decide a branch condition from the property state.
	Cond(e *Engine, st *State, cond *V) (val, known bool)
	// Enter/Leave: an in-repository function is entered / returns.
	Enter(e *Engine, st *State, c *Ctx)
	Leave(e *Engine, st *State, c *Ctx, ret []*V)
	// NewObj: an object is (re)allocated.
	NewObj(e *Engine, st *State, obj *V)
	// Elem: a new element symbol of a list is introduced (loop iteration).
	Elem(e *Engine, st *State, elem *V, c *Ctx, in ssa.Instruction)
	// LoopExit: a loop over the elements of a list has run out.
	LoopExit(e *Engine, st *State, list *V)
	// Edge: control passes from one block to another.
	Edge(e *Engine, st *State, c *Ctx, from, to *ssa.BasicBlock)
	// Content: the text accumulated in a builder, if the client knows it.
	Content(e *Engine, st *State, b *V) *V
}

type baseClient struct{}

func (baseClient) Init() Prop { return noProp{} }
func (baseClient) Emit(e *Engine, st *State, sink, text *V, c *Ctx, in ssa.Instruction) []*State {
	return nil
}
func (baseClient) MapUpdate(e *Engine, st *State, m, k, v *V, c *Ctx, in ssa.Instruction) {}
func (baseClient) Cond(e *Engine, st *State, cond *V) (bool, bool)                        { return false, false }
func (baseClient) Enter(e *Engine, st *State, c *Ctx)                                     {}
func (baseClient) Leave(e *Engine, st *State, c *Ctx, ret []*V)                           {}
func (baseClient) NewObj(e *Engine, st *State, obj *V)                                    {}
func (baseClient) Elem(e *Engine, st *State, elem *V, c *Ctx, in ssa.Instruction)         {}
func (baseClient) LoopExit(e *Engine, st *State, list *V)                                 {}
func (baseClient) Edge(e *Engine, st *State, c *Ctx, from, to *ssa.BasicBlock)            {}
func (baseClient) Content(e *Engine, st *State, b *V) *V                                  { return nil }

// Mem is the store plus the facts known on the path.
type Mem struct {
	store map[*V]*V
	facts map[*V]bool
	eq    map[*V]*V
	dyn   map[*V]types.Type
	owned bool
}

func newMem() *Mem {
	return &Mem{store: map[*V]*V{}, facts: map[*V]bool{}, eq: map[*V]*V{}, dyn: map[*V]types.Type{}}
}
func (m *Mem) clone() *Mem {
	n := &Mem{store: make(map[*V]*V, len(m.store)+4), facts: make(map[*V]bool, len(m.facts)+4), eq: make(map[*V]*V, len(m.eq)+2), dyn: make(map[*V]types.Type, len(m.dyn)+2)}
	for k, v := range m.store {
		n.store[k] = v
	}
	for k, v := range m.facts {
		n.facts[k] = v
	}
	for k, v := range m.eq {
		n.eq[k] = v
	}
	for k, v := range m.dyn {
		n.dyn[k] = v
	}
	return n
}

type State struct {
	prop Prop
	mem  *Mem
	vals []*V // current frame
}

func (s *State) fork() *State {
	return &State{prop: s.prop, mem: s.mem.clone(), vals: append([]*V(nil), s.vals...)}
}

type Result struct {
	st  *State
	ret []*V
}

type fnInfo struct {
	idx     map[ssa.Value]int
	n       int
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	types   []types.Type
	hasLoop bool
	loop    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // innermost loop round a block
	counted []counted
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

// counted is a loop driven by a counter that is compared with a bound in the
// header; with a constant start and a small constant bound it is followed trip
// by trip.
type counted struct {
	head  *ssa.BasicBlock
	phi   *ssa.Phi
	bound ssa.Value
	body  map[*ssa.BasicBlock]bool
}

const maxTrips = 16

func findCounted(fn *ssa.Function) []counted {
	var out []counted
	for h, body := range naturalLoops(fn) {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, xy := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			x := xy[0]
			if b, ok := x.(*ssa.BinOp); ok && b.Block() == h {
				if _, k := b.Y.(*ssa.Const); k {
					x = b.X
				}
			}
			if ph, ok := x.(*ssa.Phi); ok && ph.Block() == h && isIntT(ph.Type()) {
				if in, ok := xy[1].(ssa.Instruction); ok && body[in.Block()] {
					continue
				}
				out = append(out, counted{h, ph, xy[1], body})
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// exact: the counter of this loop is followed exactly in this state.
func (e *Engine) exact(s *State, c *Ctx, k counted) bool {
	n, ok := e.val(s, c, k.bound).constInt()
	return ok && n <= maxTrips && n >= -1
}

// looseLoops: the loops round a block that are not followed trip by trip.
func (e *Engine) looseLoops(s *State, c *Ctx, b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	fi := e.info(c.fn)
	if fi.loop[b] == nil {
		return nil
	}
	for h, body := range e.loopsOf(c.fn) {
		if !body[b] {
			continue
		}
		exact := false
		for _, k := range fi.counted {
			if k.head == h && len(s.vals) == fi.n {
				if v := s.vals[fi.idx[k.phi]]; v != nil {
					if _, ok := v.constInt(); ok && e.exact(s, c, k) {
						exact = true
					}
				}
			}
		}
		if !exact {
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fi.rpo[out[i]] < fi.rpo[out[j]] })
	return out
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	fi := e.info(fn)
	if fi.loops == nil {
		fi.loops = naturalLoops(fn)
	}
	return fi.loops
}

// tripKey names the trips of the counted loops round b.
func (e *Engine) tripKey(s *State, c *Ctx, b *ssa.BasicBlock) string {
	key := ""
	for _, k := range e.info(c.fn).counted {
		if !k.body[b] {
			continue
		}
		if v := s.vals[e.info(c.fn).idx[k.phi]]; v != nil {
			if n, ok := v.constInt(); ok && e.exact(s, c, k) {
				key += fmt.Sprintf("|%d:%d", k.head.Index, n)
			}
		}
	}
	return key
}

type primFn = func(*Engine, *State, *ssa.CallCommon, []*V, *Ctx, ssa.Instruction) ([]Result, bool)

type Engine struct {
	textJoin    map[*V]string // where a joined text comes from
	P           *Program
	T           *vtab
	client      Client
	ctxs        map[string]*Ctx
	infos       map[*ssa.Function]*fnInfo
	effect      map[*ssa.Function]bool // emits / writes memory it did not allocate / calls closures
	pureD       int
	Steps       int
	Max         int
	Inlined     map[*ssa.Function]bool
	Emits       int
	Undecided   []string
	fieldTypes  func(v *V) []types.Type // concrete dynamic types of an access path, or nil
	maxRec      int
	errIsNil    bool // assume calls outside the program succeed
	oneSpec     bool
	quiet       int
	globals     map[*ssa.Global]map[string]*V
	globalsKeys map[*ssa.Global][]*V
	prim        map[string]func(*Engine, *State, *ssa.CallCommon, []*V, *Ctx, ssa.Instruction) ([]Result, bool)
}

func newEngine(P *Program, cl Client) *Engine {
	e := &Engine{textJoin: map[*V]string{}, P: P, T: newVtab(), client: cl, ctxs: map[string]*Ctx{}, infos: map[*ssa.Function]*fnInfo{}, Max: 1500000, Inlined: map[*ssa.Function]bool{}, maxRec: 2, errIsNil: false, oneSpec: true}
	e.effect = effectFuncs(P)
	e.prim = stdPrims()
	e.loadGlobals()
	return e
}

func (e *Engine) undecided(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, x := range e.Undecided {
		if x == s {
			return
		}
	}
	e.Undecided = append(e.Undecided, s)
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}}
	for _, p := range fn.Params {
		i.idx[p] = i.n
		i.n++
	}
	for _, p := range fn.FreeVars {
		i.idx[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				i.idx[v] = i.n
				i.n++
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for k := len(post) - 1; k >= 0; k-- {
		i.rpo[post[k]] = len(i.order)
		i.order = append(i.order, post[k])
	}
	for _, b := range i.order {
		for _, s := range b.Succs {
			if i.rpo[s] <= i.rpo[b] {
				i.hasLoop = true
			}
		}
	}
	i.loop = computeLoops(fn)
	i.counted = findCounted(fn)
	e.infos[fn] = i
	return i
}

func (e *Engine) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function, args []*V) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, call, fn)
	if c, ok := e.ctxs[k]; ok {
		c.args = args
		return c
	}
	c := &Ctx{id: len(e.ctxs) + 1, parent: parent, call: call, fn: fn, args: args, depth: d}
	e.ctxs[k] = c
	return c
}

func (c *Ctx) count(fn *ssa.Function) int {
	n := 0
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			n++
		}
	}
	return n
}

func (e *Engine) siteOf(c *Ctx, what string, p any) int {
	return e.T.site(fmt.Sprintf("%d|%s|%p", c.id, what, p))
}

func (m *Mem) kill(site int) {
	for k := range m.facts {
		if k.mentions(site) {
			delete(m.facts, k)
		}
	}
	for k := range m.eq {
		if k.mentions(site) {
			delete(m.eq, k)
		}
	}
	for k := range m.dyn {
		if k.mentions(site) {
			delete(m.dyn, k)
		}
	}
	for k := range m.store {
		if k.mentions(site) {
			delete(m.store, k)
		}
	}
}

func zeroOf(e *Engine, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.T.str("")
		case u.Info()&types.IsBoolean != 0:
			return e.T.boolean(false)
		case u.Info()&types.IsInteger != 0:
			return e.T.integer(0)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return e.T.nilv()
	}
	return e.T.mk("zero", typeShort(t), t, 0)
}

// ---------- values

func (e *Engine) val(st *State, c *Ctx, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(e, v.Type())
		}
		return e.T.konst(v.Value, v.Type())
	case *ssa.Global:
		return e.T.mk("gaddr", v.String(), v.Type(), 0)
	case *ssa.Function:
		return e.T.fnv(v)
	case *ssa.Builtin:
		return e.T.mk("builtin", v.Name(), v.Type(), 0)
	}
	i, ok := e.info(c.fn).idx[v]
	if !ok {
		return e.T.mk("unknown", fmt.Sprintf("%s.%s", c.fn.Name(), v.Name()), v.Type(), e.siteOf(c, "u", v))
	}
	x := st.vals[i]
	if x == nil {
		x = e.T.mk("unknown", fmt.Sprintf("%s.%s", c.fn.Name(), v.Name()), v.Type(), e.siteOf(c, "u", v))
	}
	return x
}

func (e *Engine) set(st *State, c *Ctx, v ssa.Value, x *V) {
	st.vals[e.info(c.fn).idx[v]] = x
}

// resolve applies what the path facts say about a value.
func (st *State) resolve(v *V) *V {
	if k, ok := st.mem.eq[v]; ok && k.Op != "oneof" {
		return k
	}
	return v
}

// among: the constants the value is known to be one of.
func among(eq map[*V]*V, v *V) []*V {
	k := eq[v]
	switch {
	case k == nil:
		return nil
	case k.Op == "oneof":
		return k.Args
	case k.isConst():
		return []*V{k}
	}
	return nil
}

// oneOf is the set of both; nil if it is too large.
func (e *Engine) oneOf(a, b []*V) *V {
	set := map[*V]bool{}
	for _, x := range a {
		set[x] = true
	}
	for _, x := range b {
		set[x] = true
	}
	if len(a) == 0 || len(b) == 0 || len(set) > 8 {
		return nil
	}
	var out []*V
	for x := range set {
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return e.T.mk("oneof", "", out[0].T, 0, out...)
}

func (e *Engine) dynType(st *State, v *V) types.Type {
	if t, ok := st.mem.dyn[v]; ok {
		return t
	}
	if v.Op == "as" && v.T != nil {
		if _, isI := v.T.Underlying().(*types.Interface); !isI {
			return v.T
		}
		return e.dynType(st, v.Args[0])
	}
	if v.T != nil && v.Op != "nil" {
		if _, isI := v.T.Underlying().(*types.Interface); !isI {
			return v.T
		}
	}
	return nil
}

func (e *Engine) field(base *V, name string, t types.Type) *V {
	return e.T.mk("field", name, t, 0, base)
}

// snapshot reads a whole struct of the program as an immutable value.
func (e *Engine) snapshot(st *State, addr *V, t types.Type) *V {
	if n, ok := types.Unalias(t).(*types.Named); ok && (n.Obj().Pkg() == nil || !e.P.inRepo[n.Obj().Pkg()]) {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() > 40 {
		return nil
	}
	if addr.Op != "obj" {
		some := false
		for k := range st.mem.store {
			if k.Op == "&." && k.Args[0] == addr {
				some = true
				break
			}
		}
		if !some {
			return nil
		}
	}
	args := make([]*V, s.NumFields())
	for i := range args {
		ft := s.Field(i).Type()
		args[i] = e.load(st, e.T.mk("&.", s.Field(i).Name(), types.NewPointer(ft), 0, addr), ft)
	}
	return e.T.mk("sv", typeShort(t), t, 0, args...)
}

// isBuffer: a text buffer, whose copies are followed back to the original.
func isBuffer(t types.Type) bool {
	n := typeShort(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

func (e *Engine) load(st *State, addr *V, t types.Type) *V {
	if _, ok := t.Underlying().(*types.Struct); ok && (addr.Op == "obj" || addr.Op == "&." || addr.Op == "&[]") {
		if v := e.snapshot(st, addr, t); v != nil {
			return v
		}
	}
	if x, ok := st.mem.store[addr]; ok && !(x.Op == "zero" && addr.Op == "obj" && isBuffer(t)) {
		return x
	}
	switch addr.Op {
	case "obj":
		if _, ok := t.Underlying().(*types.Struct); ok {
			return e.T.mk("struct", "", t, 0, addr)
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return e.T.mk("struct", "", t, 0, addr)
		}
		return zeroOf(e, t)
	case "&.":
		base := addr.Args[0]
		switch base.Op {
		case "obj":
			if sv, ok := st.mem.store[base]; ok { // whole-struct value stored
				return e.fieldOfStruct(st, sv, addr.S, t)
			}
			if _, ok := t.Underlying().(*types.Struct); ok {
				return e.T.mk("struct", "", t, 0, addr)
			}
			return zeroOf(e, t)
		case "&.", "&[]":
			bt := derefT(base.T)
			if bt == nil {
				bt = t
			}
			var b *V
			if x, ok := st.mem.store[base]; ok {
				b = x
			} else if base.Op == "&[]" && (base.Args[0].Op == "obj" || base.Args[0].Op == "slice") {
				b = e.elemOf(st, base.Args[0], base.Args[1], bt)
			} else if base.Op == "&[]" {
				b = e.T.mk("index", "", bt, 0, base.Args[0], base.Args[1])
			} else {
				b = e.load(st, base, bt)
			}
			return e.fieldOfStruct(st, b, addr.S, t)
		case "gaddr":
			return e.field(e.load(st, base, derefT(base.T)), addr.S, t)
		}
		return e.field(base, addr.S, t)
	case "&[]":
		base, idx := addr.Args[0], addr.Args[1]
		if base.Op == "obj" || base.Op == "slice" {
			return e.elemOf(st, base, idx, t)
		}
		return e.T.mk("index", "", t, 0, base, idx)
	case "gaddr":
		return e.T.mk("global", addr.S, t, 0)
	}
	if addr.Op == "nil" {
		return e.T.mk("nilload", "", t, 0)
	}
	return e.T.mk("deref", "", t, 0, addr)
}

func (e *Engine) fieldOfStruct(st *State, sv *V, name string, t types.Type) *V {
	if sv.Op == "struct" {
		return e.load(st, e.T.mk("&.", name, types.NewPointer(t), 0, sv.Args[0]), t)
	}
	if sv.Op == "zero" {
		return zeroOf(e, t)
	}
	if sv.Op == "sv" {
		s := sv.T.Underlying().(*types.Struct)
		for i := range sv.Args {
			if s.Field(i).Name() == name {
				return sv.Args[i]
			}
		}
	}
	if sv.Op == "join" {
		if as := e.T.alts[sv]; len(as) > 0 && len(sv.sites) > 0 {
			ok := true
			for _, a := range as {
				ok = ok && a.Op == "sv"
			}
			if ok {
				r := e.fieldOfStruct(st, as[0], name, t)
				for _, a := range as[1:] {
					if f := e.fieldOfStruct(st, a, name, t); f != r {
						r = e.joinSym(e.T.site(fmt.Sprintf("fj|%d|%s", sv.id, name)), t, r, f)
					}
				}
				return r
			}
		}
	}
	return e.field(sv, name, t)
}

// elemOf reads an element of a slice or array allocated by the program itself.
func (e *Engine) elemOf(st *State, base, idx *V, t types.Type) *V {
	if x, ok := st.mem.store[e.T.mk("&[]", "", types.NewPointer(t), 0, base, idx)]; ok {
		return x
	}
	var got []*V
	for k, v := range st.mem.store {
		if k.Op == "&[]" && k.Args[0] == base {
			got = append(got, v)
		}
	}
	if w, ok := st.mem.store[e.T.mk("elems", "", nil, 0, base)]; ok {
		got = append(got, w)
	}
	if len(got) == 0 {
		return e.T.mk("index", "", t, 0, base, idx)
	}
	sort.Slice(got, func(i, j int) bool { return got[i].id < got[j].id })
	r := got[0]
	for _, g := range got[1:] {
		if g != r {
			return e.joinSym(e.T.site(fmt.Sprintf("elemjoin|%d", base.id)), t, r, g)
		}
	}
	return r
}

func (e *Engine) joinSym(site int, t types.Type, vs ...*V) *V {
	j := e.T.mk("join", "", t, site)
	if e.T.altTop[j] {
		return j
	}
	for _, v := range vs {
		cand := []*V{v}
		if v == j {
			continue
		}
		if v.Op == "join" {
			if e.T.altTop[v] {
				e.T.altTop[j] = true
				delete(e.T.alts, j)
				return j
			}
			cand = e.T.alts[v]
		}
		for _, x := range cand {
			if x == j {
				continue
			}
			dup := false
			for _, y := range e.T.alts[j] {
				if x == y {
					dup = true
				}
			}
			if !dup {
				e.T.alts[j] = append(e.T.alts[j], x)
			}
		}
	}
	if len(e.T.alts[j]) > 16 {
		e.T.altTop[j] = true
		delete(e.T.alts, j)
	}
	return j
}

// Alts returns the possible values of v if they are known, else just v.
func (e *Engine) Alts(v *V) []*V {
	if a, ok := e.T.alts[v]; ok && len(a) > 0 {
		return a
	}
	return []*V{v}
}

// ---------- conditions

func (e *Engine) not(c *V) *V {
	if b, ok := c.constBool(); ok {
		return e.T.boolean(!b)
	}
	if c.Op == "!" {
		return c.Args[0]
	}
	return e.T.mk("!", "", types.Typ[types.Bool], 0, c)
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) nonempty(st *State, v *V) *V {
	if v.Op == "call" && (v.S == "strings.TrimSpace#len") {
		return v
	}
	switch v.Op {
	case "cat":
		for _, p := range v.Args {
			if s, ok := p.constStr(); ok && s != "" {
				return e.T.boolean(true)
			}
		}
	case "const":
		if s, ok := v.constStr(); ok {
			return e.T.boolean(s != "")
		}
	case "nil", "zero":
		return e.T.boolean(false)
	case "slice":
		// a slice value built by append of at least one element
		if v.S == "append" {
			return e.T.boolean(true)
		}
	}
	return e.T.mk("nonempty", "", types.Typ[types.Bool], 0, v)
}

func (e *Engine) cmp(st *State, op token.Token, a, b *V) *V {
	a, b = st.resolve(a), st.resolve(b)
	if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() {
		return e.T.boolean(constant.Compare(a.C, op, b.C))
	}
	if a.isConst() && b.isConst() {
		x, y := constant.ToFloat(a.C), constant.ToFloat(b.C)
		if x.Kind() == y.Kind() && x.Kind() != constant.Unknown {
			return e.T.boolean(constant.Compare(x, op, y))
		}
	}
	switch op {
	case token.NEQ:
		return e.not(e.cmp(st, token.EQL, a, b))
	case token.GTR:
		return e.cmp(st, token.LSS, b, a)
	case token.LEQ:
		return e.not(e.cmp(st, token.LSS, b, a))
	case token.GEQ:
		return e.not(e.cmp(st, token.LSS, a, b))
	}
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL:
		if a == b && a.Op != "unknown" {
			return e.T.boolean(true)
		}
		if e.isNonNil(a) && b.Op == "nil" || e.isNonNil(b) && a.Op == "nil" {
			return e.T.boolean(false)
		}
		// string emptiness and length idioms
		if s, ok := b.constStr(); ok && s == "" {
			return e.not(e.nonempty(st, a))
		}
		if s, ok := a.constStr(); ok && s == "" {
			return e.not(e.nonempty(st, b))
		}
		if n, ok := b.constInt(); ok && n == 0 && a.Op == "len" {
			return e.not(e.nonempty(st, a.Args[0]))
		}
		if n, ok := a.constInt(); ok && n == 0 && b.Op == "len" {
			return e.not(e.nonempty(st, b.Args[0]))
		}
		if bb, ok := b.constBool(); ok {
			if bb {
				return a
			}
			return e.not(a)
		}
		if bb, ok := a.constBool(); ok {
			if bb {
				return b
			}
			return e.not(b)
		}
		if a.isConst() || a.Op == "nil" || (!b.isConst() && b.Op != "nil" && a.id > b.id) {
			a, b = b, a
		}
		return e.T.mk("==", "", bt, 0, a, b)
	case token.LSS:
		if n, ok := a.constInt(); ok && n == 0 && b.Op == "len" {
			return e.nonempty(st, b.Args[0])
		}
		if n, ok := b.constInt(); ok && n == 1 && a.Op == "len" {
			return e.not(e.nonempty(st, a.Args[0]))
		}
		if n, ok := b.constInt(); ok && n == 0 && a.Op == "len" {
			return e.T.boolean(false)
		}
		return e.T.mk("<", "", bt, 0, a, b)
	}
	return e.T.mk("cmp", op.String(), bt, 0, a, b)
}

func (e *Engine) isNonNil(v *V) bool {
	switch v.Op {
	case "obj", "fn", "&.", "&[]", "gaddr", "slice", "struct":
		return true
	}
	if v.Op == "as" && v.Args[0] != nil {
		return e.isNonNil(v.Args[0])
	}
	if v.S == "nonnil" && v.Op == "fresh" {
		return true
	}
	if v.T == nil || v.Op == "nil" {
		return false
	}
	switch b := v.T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true // as an interface value
	case *types.Basic:
		return b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer && b.Kind() != types.Invalid
	}
	return false
}

// decide evaluates a boolean under the path facts.
func (e *Engine) decide(st *State, c *V) (bool, bool) {
	if b, ok := c.constBool(); ok {
		return b, true
	}
	if c.Op == "!" {
		v, ok := e.decide(st, c.Args[0])
		return !v, ok
	}
	if v, ok := st.mem.facts[c]; ok {
		return v, true
	}
	switch c.Op {
	case "==":
		a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
		if a != c.Args[0] || b != c.Args[1] {
			if a == b {
				return true, true
			}
			if a.isConst() && b.isConst() {
				return constant.Compare(a.C, token.EQL, b.C), true
			}
			if (a.Op == "nil" && e.isNonNil(b)) || (b.Op == "nil" && e.isNonNil(a)) {
				return false, true
			}
		}
		if otherConst(c, st.mem.eq) {
			return false, true
		}
		if b.Op == "nil" {
			if v, ok := st.mem.facts[e.nonempty(st, a)]; ok && v {
				return false, true
			}
			if _, ok := st.mem.dyn[a]; ok {
				return false, true
			}
		}
		if s, ok := b.constStr(); ok && s != "" {
			if v, ok := st.mem.facts[e.nonempty(st, a)]; ok && !v {
				return false, true
			}
		}
	case "has":
		// a key in a constant table
		if g := c.Args[0]; g.Op == "global" && e.constTable(g.S) != nil {
			all := true
			for _, x := range among(st.mem.eq, c.Args[1]) {
				if e.constTable(g.S)[x.C.ExactString()] == nil {
					all = false
				}
			}
			if all && among(st.mem.eq, c.Args[1]) != nil {
				return true, true
			}
			none := true
			for _, kk := range e.tableKeys(g.S) {
				if b, ok := e.decide(st, e.cmp(st, token.EQL, c.Args[1], kk)); !ok || b {
					none = false
				}
			}
			if none {
				return false, true
			}
		}
	case "nonempty":
		x := c.Args[0]
		if x.Op == "call" && strings.HasPrefix(x.S, "(*regexp.Regexp).FindAll") {
			// the matches are nil or at least one
			if v, ok := st.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, x, e.T.nilv())]; ok && !v {
				return true, true
			}
		}
		if r := st.resolve(x); r != x {
			if s, ok := r.constStr(); ok {
				return s != "", true
			}
			if r.Op == "nil" {
				return false, true
			}
		}
		if v, ok := st.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, x, e.T.nilv())]; ok && v {
			return false, true
		}
	case "<":
		a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
		if a.isConst() && b.isConst() {
			return constant.Compare(a.C, token.LSS, b.C), true
		}
		if b.Op == "len" {
			// index < len(x): false when x is known to be empty
			if v, ok := e.decide(st, e.nonempty(st, b.Args[0])); ok && !v {
				return false, true
			}
		}
	case "is":
		x := c.Args[0]
		if t := e.dynType(st, x); t != nil {
			return types.Identical(t, c.T), true
		}
		if v, ok := st.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, x, e.T.nilv())]; ok && v {
			return false, true
		}
		if e.fieldTypes != nil {
			if ts := e.fieldTypes(x); ts != nil {
				may := false
				only := len(ts) == 1
				for _, t := range ts {
					if types.Identical(t, c.T) {
						may = true
					}
				}
				if !may {
					return false, true
				}
				if only {
					return true, true
				}
			}
		}
	}
	return e.client.Cond(e, st, c)
}

func (e *Engine) assume(st *State, c *V, b bool) {
	if c.Op == "!" {
		e.assume(st, c.Args[0], !b)
		return
	}
	if c.isConst() {
		return
	}
	st.mem.facts[c] = b
	switch c.Op {
	case "==":
		if b {
			a, k := c.Args[0], c.Args[1]
			if k.isConst() || k.Op == "nil" {
				st.mem.eq[a] = k
			}
		} else if o := st.mem.eq[c.Args[0]]; o != nil && o.Op == "oneof" && c.Args[1].isConst() {
			var rest []*V
			for _, x := range o.Args {
				if !constant.Compare(x.C, token.EQL, c.Args[1].C) {
					rest = append(rest, x)
				}
			}
			if j := e.oneOf(rest, rest); j != nil {
				st.mem.eq[c.Args[0]] = j
			}
		}
	case "nonempty":
		if !b && isStringT(c.Args[0].T) {
			st.mem.eq[c.Args[0]] = e.T.str("")
		}
	case "<":
		if b && c.Args[1].Op == "len" {
			st.mem.facts[e.nonempty(st, c.Args[1].Args[0])] = true
		}
	case "is":
		if b {
			st.mem.dyn[c.Args[0]] = c.T
			st.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, c.Args[0], e.T.nilv())] = false
		}
	}
	// the last open part of a compound known to be false is false
	var all []*V
	for k, v := range st.mem.facts {
		if k.Op == "and" && !v {
			all = append(all, k)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, k := range all {
		if !uses(k, c) {
			continue
		}
		var open *V
		n := 0
		for _, a := range k.Args {
			if v, ok := e.decide(st, a); !ok {
				open = a
				n++
			} else if !v {
				n = 2
			}
		}
		if n == 1 {
			e.assume(st, open, false)
		}
	}
}

// ---------- execution

type entry struct {
	st *State
}

func (e *Engine) joinState(c *Ctx, b string, old, nw *State) bool {
	changed := false
	fi := e.info(c.fn)
	_ = fi
	for i, o := range old.vals {
		n := nw.vals[i]
		if o == n || o == nil {
			continue
		}
		if n == nil {
			old.vals[i] = nil
			changed = true
			continue
		}
		var t types.Type
		t = o.T
		if t == nil || (n.T != nil && !types.Identical(t, n.T)) {
			t = e.valType(c.fn, i)
		} else if t2 := e.valType(c.fn, i); t2 != nil {
			t = t2
		}
		where := fmt.Sprintf("%d|%s|v%d", c.id, b, i)
		var j *V
		if o.Op == "tuple" && n.Op == "tuple" && len(o.Args) == len(n.Args) {
			args := make([]*V, len(o.Args))
			for x := range args {
				ct := n.Args[x].T
				if tp, ok := o.T.(*types.Tuple); ok && tp.Len() == len(args) {
					ct = tp.At(x).Type()
				}
				args[x] = e.joinRet(fmt.Sprintf("%s.%d", where, x), ct, o.Args[x], n.Args[x])
			}
			j = e.T.mk("tuple", "", o.T, 0, args...)
		} else {
			j = e.joinRet(where, t, o, n)
		}
		if j != o {
			old.vals[i] = j
			changed = true
		}
	}
	if e.joinMem(fmt.Sprintf("%d|%s", c.id, b), old.mem, nw.mem) {
		changed = true
	}
	return changed
}

// joinRet joins two results of a call; of two errors it is an error.
func (e *Engine) joinRet(where string, t types.Type, a, b *V) *V {
	if a == b {
		return a
	}
	if t == nil {
		t = a.T
	}
	if t != nil && isErrorType(t) && e.isNonNil(a) && e.isNonNil(b) {
		return e.T.mk("fresh", "nonnil", t, 0)
	}
	return e.joinSym(e.T.site(where), t, a, b)
}

func (e *Engine) valType(fn *ssa.Function, i int) types.Type {
	fi := e.info(fn)
	if fi.types == nil {
		fi.types = make([]types.Type, fi.n)
		for v, k := range fi.idx {
			fi.types[k] = v.Type()
		}
	}
	return fi.types[i]
}

// joinText joins two texts: their common beginning and end stay, and what is
// between them becomes a symbol for either.
// It also tells whether a symbol may now be more than before.
func (e *Engine) joinText(where string, o, n *V) (*V, bool) {
	if o == n {
		return o, false
	}
	a, b := textTokens(e, o), textTokens(e, n)
	p := 0
	for p < len(a) && p < len(b) && a[p] == b[p] {
		p++
	}
	head := a[:p]
	a, b = a[p:], b[p:]
	q := 0
	for q < len(a) && q < len(b) && a[len(a)-1-q] == b[len(b)-1-q] {
		q++
	}
	tail := a[len(a)-q:]
	a, b = a[:len(a)-q], b[:len(b)-q]
	h, t := e.T.concat(head...), e.T.concat(tail...)
	j := e.T.mk("join", "", types.Typ[types.String], e.T.site(fmt.Sprintf("%s|t%d|%d", where, h.id, t.id)))
	e.textJoin[j] = where
	grown := false
	for _, x := range [][]*V{a, b} {
		if len(x) == 1 && x[0] == j {
			continue
		}
		for _, y := range e.unfold(x, j) {
			if e.joinInto(j, y) {
				grown = true
			}
		}
	}
	return e.T.concat(h, j, t), grown
}

// unfold puts what they may be in the place of joined texts.
func (e *Engine) unfold(x []*V, j *V) []*V {
	out := [][]*V{nil}
	for _, p := range x {
		if e.textJoin[p] == "" || e.T.altTop[p] || p == j || len(e.T.alts[p]) == 0 || len(e.T.alts[p])*len(out) > 64 {
			for i := range out {
				out[i] = append(out[i], p)
			}
			continue
		}
		var next [][]*V
		for _, a := range e.T.alts[p] {
			for _, o := range out {
				next = append(next, append(append([]*V{}, o...), a))
			}
		}
		out = next
	}
	var r []*V
	for _, o := range out {
		r = append(r, e.T.concat(o...))
	}
	return r
}

// joinInto adds a value to those a join symbol may be.
func (e *Engine) joinInto(j, v *V) bool {
	if e.T.altTop[j] {
		return false
	}
	for _, y := range e.T.alts[j] {
		if y == v {
			return false
		}
	}
	if v == j {
		return false
	}
	if e.reaches(v, j, map[*V]bool{}) || len(e.T.alts[j]) >= 64 {
		// it would stand for itself, or for too much
		e.T.altTop[j] = true
		delete(e.T.alts, j)
		return true
	}
	e.T.alts[j] = append(e.T.alts[j], v)
	return true
}

// reaches: does v, or what its symbols may stand for, contain j?
func (e *Engine) reaches(v, j *V, seen map[*V]bool) bool {
	if v == j {
		return true
	}
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	for _, a := range v.Args {
		if e.reaches(a, j, seen) {
			return true
		}
	}
	for _, a := range e.T.alts[v] {
		if e.reaches(a, j, seen) {
			return true
		}
	}
	return false
}

// textTokens splits a text into lines and symbols.
func textTokens(e *Engine, v *V) []*V {
	var out []*V
	for _, p := range textParts(v) {
		s, ok := p.constStr()
		if !ok {
			out = append(out, p)
			continue
		}
		for _, l := range strings.SplitAfter(s, "\n") {
			if l != "" {
				out = append(out, e.T.str(l))
			}
		}
	}
	return out
}

// weakCell: a cell inside an element of an array or slice.
func weakCell(k *V) bool {
	for k != nil {
		switch k.Op {
		case "&[]", "elems":
			return true
		case "&.":
			k = k.Args[0]
			continue
		}
		return false
	}
	return false
}

func (e *Engine) joinMem(where string, o, n *Mem) bool {
	changed := false
	for k, v := range o.store {
		w, ok := n.store[k]
		if !ok {
			if k.Op == "mapcell" {
				delete(o.store, k)
				changed = true
			} else if weakCell(k) || k.sites == nil {
				// weak cells: keep
			} else {
				// not written on the other path: join with what a load would give
				t := derefT(k.T)
				if t == nil {
					t = v.T
				}
				var def *V
				if t != nil {
					def = e.load(&State{mem: n}, k, t)
				}
				if def != v {
					j := e.joinSym(e.T.site(fmt.Sprintf("%s|s%d", where, k.id)), t, v, def)
					if j != v {
						o.store[k] = j
						changed = true
					}
				}
			}
			continue
		}
		if v != w {
			t := derefT(k.T)
			if t == nil {
				t = v.T
			}
			if k.Op == "text" {
				if j, grown := e.joinText(fmt.Sprintf("%s|s%d", where, k.id), v, w); grown || j != v {
					o.store[k] = j
					changed = true
				}
				continue
			}
			j := e.joinSym(e.T.site(fmt.Sprintf("%s|s%d", where, k.id)), t, v, w)
			if j != v {
				o.store[k] = j
				changed = true
			}
		}
	}
	for k, w := range n.store {
		if _, ok := o.store[k]; ok || k.Op == "mapcell" {
			continue
		}
		if weakCell(k) {
			o.store[k] = w
			changed = true
			continue
		}
		t := derefT(k.T)
		if t == nil {
			t = w.T
		}
		var def *V
		if t != nil {
			def = e.load(&State{mem: o}, k, t)
		}
		if def != w {
			o.store[k] = e.joinSym(e.T.site(fmt.Sprintf("%s|s%d", where, k.id)), t, def, w)
			changed = true
		}
	}
	// what is known to equal one constant differs from the others
	for k, w := range n.facts {
		if _, ok := o.facts[k]; !ok && !w && otherConst(k, o.eq) {
			o.facts[k] = false
			changed = true
		}
	}
	for k, v := range o.facts {
		if w, ok := n.facts[k]; !ok && !v && otherConst(k, n.eq) {
			continue
		} else if !ok || v != w {
			delete(o.facts, k)
			changed = true
		}
	}
	for k, v := range o.eq {
		if w := n.eq[k]; v != w {
			j := e.oneOf(among(o.eq, k), among(n.eq, k))
			if j == nil {
				delete(o.eq, k)
			} else if o.eq[k] = j; j == v {
				continue
			}
			changed = true
		}
	}
	for k, v := range o.dyn {
		if w, ok := n.dyn[k]; !ok || !types.Identical(v, w) {
			delete(o.dyn, k)
			changed = true
		}
	}
	return changed
}

// otherConst: the comparison is false because its operand equals another
// constant.
func otherConst(c *V, eq map[*V]*V) bool {
	if c.Op != "==" || !c.Args[1].isConst() {
		return false
	}
	vs := among(eq, c.Args[0])
	for _, v := range vs {
		if constant.Compare(v.C, token.EQL, c.Args[1].C) {
			return false
		}
	}
	return len(vs) > 0
}

func retKey(e *Engine, r []*V) string {
	var sb strings.Builder
	for _, v := range r {
		switch {
		case v == nil:
			sb.WriteString("_;")
		case v.isConst() && v.C.Kind() == constant.Bool, v.Op == "nil":
			fmt.Fprintf(&sb, "%d;", v.id)
		case e.isNonNil(v) && v.Op != "obj":
			sb.WriteString("n;")
		case v.Op == "obj":
			fmt.Fprintf(&sb, "o%d;", v.id)
		default:
			sb.WriteString("s;")
		}
	}
	return sb.String()
}

// exec analyses fn called with the given abstract arguments from state st
// (whose frame is the caller's and is left alone).
func (e *Engine) exec(fn *ssa.Function, args, binds []*V, st *State, parent *Ctx, call ssa.Instruction) []Result {
	c := e.ctx(parent, call, fn, args)
	if parent != nil && call != nil {
		c.loose = e.looseLoops(st, parent, call.Block())
	}
	fi := e.info(fn)
	if e.quiet == 0 {
		e.Inlined[fn] = true
	}
	s0 := &State{prop: st.prop, mem: st.mem.clone(), vals: make([]*V, fi.n)}
	for i, p := range fn.Params {
		if i < len(args) {
			s0.vals[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			s0.vals[fi.idx[p]] = binds[i]
		}
	}
	e.client.Enter(e, s0, c)
	type node struct {
		b *ssa.BasicBlock
		k string
	}
	entries := map[node]*State{}
	var work []node
	push := func(b *ssa.BasicBlock, s *State) {
		n := node{b, s.prop.Key() + e.tripKey(s, c, b)}
		if old, ok := entries[n]; ok {
			if !e.joinState(c, fmt.Sprintf("b%d", b.Index), old, s) {
				return
			}
			for _, w := range work {
				if w == n {
					return
				}
			}
			work = append(work, n)
			return
		}
		entries[n] = s
		work = append(work, n)
	}
	push(fn.Blocks[0], s0)
	results := map[string]*Result{}
	var rorder []string
	for len(work) > 0 {
		// lowest reverse-postorder first
		best := 0
		for i := range work {
			if fi.rpo[work[i].b] < fi.rpo[work[best].b] {
				best = i
			}
		}
		n := work[best]
		work = append(work[:best], work[best+1:]...)
		e.Steps++
		if e.Steps > e.Max {
			e.undecided("analysis budget exhausted in %s", fnName(fn))
			break
		}
		states := []*State{entries[n].fork()}
		for _, in := range n.b.Instrs {
			if len(states) == 0 {
				break
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				for _, s := range states {
					e.branch(c, n.b, in, s, push)
				}
			case *ssa.Jump:
				for _, s := range states {
					e.edge(c, n.b, n.b.Succs[0], s, push)
				}
			case *ssa.Return:
				for _, s := range states {
					ret := make([]*V, len(in.Results))
					for i, r := range in.Results {
						ret[i] = e.val(s, c, r)
						if d, ok := s.mem.eq[ret[i]]; ok && d.Op == "nil" {
							ret[i] = d
						} else if f, ok := s.mem.facts[e.T.mk("==", "", types.Typ[types.Bool], 0, ret[i], e.T.nilv())]; ok && !f && isErrorType(r.Type()) {
							ret[i] = e.T.mk("fresh", "nonnil", r.Type(), 0)
						}
					}
					e.client.Leave(e, s, c, ret)
					k := s.prop.Key() + "|" + retKey(e, ret)
					if old, ok := results[k]; ok {
						for i := range ret {
							if old.ret[i] != ret[i] {
								old.ret[i] = e.joinRet(fmt.Sprintf("%d|ret%d|%s", c.id, i, retKey(e, ret)), in.Results[i].Type(), old.ret[i], ret[i])
							}
						}
						e.joinMem(fmt.Sprintf("%d|ret%s", c.id, retKey(e, ret)), old.st.mem, s.mem)
					} else {
						results[k] = &Result{st: s, ret: ret}
						rorder = append(rorder, k)
					}
				}
			case *ssa.Panic:
			default:
				var next []*State
				for _, s := range states {
					out := e.step(c, s, in)
					next = append(next, out...)
				}
				states = e.mergeInBlock(c, n.b, in, next)
			}
		}
	}
	var out []Result
	for _, k := range rorder {
		r := results[k]
		out = append(out, Result{st: r.st, ret: r.ret})
	}
	return out
}

// branch follows a conditional.  A chain of conditionals that share a target
// (the code of a && b && c, or a || b || c) is also remembered as one compound
// condition, so that a later test of the same compound agrees with this one.
func (e *Engine) branch(c *Ctx, b *ssa.BasicBlock, in *ssa.If, s *State, push func(*ssa.BasicBlock, *State)) {
	cond := e.val(s, c, in.Cond)
	v, known := e.decide(s, cond)
	if !known && e.oneSpec && e.secondSpec(s, cond) {
		e.edge(c, b, b.Succs[1], s, push)
		return
	}
	lit := func(v *V, cont bool) *V {
		if cont {
			return v
		}
		return e.not(v)
	}
	for _, cont := range []bool{true, false} {
		// cont: the value of the condition that continues the chain
		next, share := b.Succs[btoi(!cont)], b.Succs[btoi(cont)]
		qcont, okq := e.chainBlock(next, b, share)
		if !okq {
			continue
		}
		// evaluate the rest of the chain to name the compound
		args := []*V{lit(cond, cont)}
		t := s.fork()
		e.assume(t, cond, cont)
		ok := true
		for p, q := b, next; ok; {
			e.edgeVals(c, p, q, t)
			for _, i := range q.Instrs[:len(q.Instrs)-1] {
				if _, isPhi := i.(*ssa.Phi); isPhi {
					continue
				}
				ts := e.step(c, t, i)
				if len(ts) != 1 {
					ok = false
					break
				}
				t = ts[0]
			}
			if !ok {
				break
			}
			qc := e.val(t, c, q.Instrs[len(q.Instrs)-1].(*ssa.If).Cond)
			args = append(args, lit(qc, qcont))
			e.assume(t, qc, qcont)
			nn := q.Succs[btoi(!qcont)]
			nc, more := e.chainBlock(nn, q, share)
			if !more {
				break
			}
			p, q, qcont = q, nn, nc
		}
		if !ok {
			continue
		}
		comp := e.T.mk("and", "", types.Typ[types.Bool], 0, args...)
		if kv, ok := s.mem.facts[comp]; ok && !kv && !known {
			// the compound is known to be false: the chain leaves
			e.edge(c, b, share, s, push)
			return
		}
		if !known || v != cont {
			// leaving through the shared target settles the compound
			u := s.fork()
			if !known {
				e.assume(u, cond, !cont)
			}
			u.mem.facts[comp] = false
			for k := range u.mem.facts {
				if k.Op != "chain" {
					continue
				}
				// the middle link of a longer chain
				for _, a := range k.Args[0].Args {
					if a == lit(cond, cont) {
						delete(u.mem.facts, k)
						u.mem.facts[k.Args[0]] = false
					}
				}
			}
			e.edge(c, b, share, u, push)
		}
		if !known || v == cont {
			u := s.fork()
			if !known {
				e.assume(u, cond, cont)
			}
			u.mem.facts[e.T.mk("chain", "", nil, 0, comp)] = true
			e.edge(c, b, next, u, push)
		}
		return
	}
	// last link of a chain
	settle := func(u *State, took bool) {
		for k := range u.mem.facts {
			if k.Op != "chain" {
				continue
			}
			comp := k.Args[0]
			last := comp.Args[len(comp.Args)-1]
			if last == cond || last == e.not(cond) {
				delete(u.mem.facts, k)
				u.mem.facts[comp] = took == (last == cond)
			}
		}
	}
	if known {
		settle(s, v)
		e.edge(c, b, b.Succs[btoi(!v)], s, push)
		return
	}
	t := s.fork()
	e.assume(t, cond, true)
	settle(t, true)
	e.edge(c, b, b.Succs[0], t, push)
	e.assume(s, cond, false)
	settle(s, false)
	e.edge(c, b, b.Succs[1], s, push)
}

// chainBlock: q is reached only from p, computes nothing but a condition, and
// has the shared target as one successor; cont is the outcome that goes on.
func (e *Engine) chainBlock(q, p, share *ssa.BasicBlock) (cont, ok bool) {
	if q == share || len(q.Preds) != 1 || q.Preds[0] != p {
		return false, false
	}
	if _, isIf := q.Instrs[len(q.Instrs)-1].(*ssa.If); !isIf || len(q.Instrs) > 14 {
		return false, false
	}
	switch share {
	case q.Succs[1]:
		cont = true
	case q.Succs[0]:
		cont = false
	default:
		return false, false
	}
	for _, in := range q.Instrs[:len(q.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Next, *ssa.Range, *ssa.TypeAssert:
			return false, false
		case *ssa.Call:
			f := in.Call.StaticCallee()
			if f == nil {
				if _, bi := in.Call.Value.(*ssa.Builtin); !bi {
					return false, false
				}
			} else if e.effect[f] || !e.P.isRepoFunc(f) && !pureExternal(calleeName(f)) {
				return false, false
			}
		}
	}
	return cont, true
}

func (e *Engine) edgeVals(c *Ctx, from, to *ssa.BasicBlock, s *State) {
	pi := 0
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s.vals[e.info(c.fn).idx[ph]] = e.val(s, c, ph.Edges[pi])
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// secondSpec: the declarations of a file are analysed one at a time; a second
// trip through a loop over them adds nothing (each starts from the same state).
func (e *Engine) secondSpec(st *State, cond *V) bool {
	if cond.Op != "<" || cond.Args[1].Op != "len" {
		return false
	}
	l := cond.Args[1].Args[0]
	if l.Op != "field" || l.S != "Specs" {
		return false
	}
	n, ok := cond.Args[0].constInt()
	return !ok || n > 0
}

func (e *Engine) edge(c *Ctx, from, to *ssa.BasicBlock, s *State, push func(*ssa.BasicBlock, *State)) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*V
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(s, c, ph.Edges[pi]))
	}
	fi := e.info(c.fn)
	back := fi.rpo[to] <= fi.rpo[from]
	for i, ph := range phis {
		v := vals[i]
		idx := fi.idx[ph]
		// loop-carried values: after the first trip they are symbols of the loop
		if back && v != nil && s.vals[idx] != nil && v != s.vals[idx] && !keepExact(v) && !e.exactPhi(s, c, ph, v) {
			v = e.joinSym(e.T.site(fmt.Sprintf("%d|b%d|v%d", c.id, to.Index, idx)), ph.Type(), s.vals[idx], v)
		}
		s.vals[idx] = v
		if v.Op == "join" {
			for _, st := range v.sites {
				if st == e.T.site(fmt.Sprintf("%d|b%d|v%d", c.id, to.Index, idx)) {
					s.mem.kill(st)
				}
			}
		}
		if back && v.Op == "join" {
			e.laterTrip(s, ph, v)
		}
	}
	e.client.Edge(e, s, c, from, to)
	push(to, s)
}

// laterTrip: a counter that only goes up has left its start behind.
func (e *Engine) laterTrip(s *State, ph *ssa.Phi, v *V) {
	if !isIntT(ph.Type()) {
		return
	}
	start, up := int64(0), false
	for _, x := range ph.Edges {
		if n, ok := constInt(x); ok {
			if !up {
				start = n
			} else if n != start {
				return
			}
			up = true
			continue
		}
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return
		}
		if n, ok := constInt(b.Y); !ok || n <= 0 {
			return
		}
	}
	if !up {
		return
	}
	for _, in := range ph.Block().Instrs {
		b, ok := in.(*ssa.BinOp)
		if ok && b.Op == token.ADD && b.X == ssa.Value(ph) {
			if n, ok := constInt(b.Y); ok {
				x := e.binop(s, b.Op, v, e.T.integer(n), b.Type())
				e.assume(s, e.cmp(s, token.EQL, x, e.T.integer(start+n)), false)
				e.assume(s, e.cmp(s, token.LSS, e.T.integer(start+n), x), true)
			}
		}
	}
	e.assume(s, e.cmp(s, token.EQL, v, e.T.integer(start)), false)
	e.assume(s, e.cmp(s, token.LSS, e.T.integer(start), v), true)
}

// exactPhi: the counter, and other constants carried round, of a loop that is
// followed trip by trip.
func (e *Engine) exactPhi(s *State, c *Ctx, ph *ssa.Phi, v *V) bool {
	for _, k := range e.info(c.fn).counted {
		if k.head == ph.Block() && e.exact(s, c, k) {
			if k.phi != ph {
				return true
			}
			n, ok := v.constInt()
			return ok && n <= maxTrips+1 && n >= -2
		}
	}
	return false
}

// keepExact: loop-carried flags stay exact (they are finite); counters and
// accumulated texts become symbols.
func keepExact(v *V) bool {
	if _, ok := v.constBool(); ok {
		return true
	}
	if v.Op == "nil" || v.Op == "obj" || v.Op == "fn" {
		return true
	}
	return false
}

func (e *Engine) mergeInBlock(c *Ctx, b *ssa.BasicBlock, in ssa.Instruction, ss []*State) []*State {
	if len(ss) <= 1 {
		return ss
	}
	m := map[string]*State{}
	var order []string
	idx := -1
	if v, ok := in.(ssa.Value); ok {
		idx = e.info(c.fn).idx[v]
	}
	for _, s := range ss {
		k := s.prop.Key()
		if idx >= 0 && s.vals[idx] != nil {
			v := s.vals[idx]
			if v.Op == "tuple" {
				k += "|" + retKey(e, v.Args)
			} else {
				k += "|" + retKey(e, []*V{v})
			}
		}
		if o, ok := m[k]; ok {
			at := 0
			for at < len(b.Instrs) && b.Instrs[at] != in {
				at++
			}
			e.joinState(c, fmt.Sprintf("b%d.%d", b.Index, at), o, s)
			continue
		}
		m[k] = s
		order = append(order, k)
	}
	sort.Strings(order)
	var out []*State
	for _, k := range order {
		out = append(out, m[k])
	}
	return out
}

// computeLoops finds, for each block, the innermost natural loop round it.
func computeLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, body := range naturalLoops(fn) {
		for x := range body {
			if o := loop[x]; o == nil || len(body) < len(o) {
				loop[x] = body
			}
		}
	}
	return loop
}

// naturalLoops: one loop per header, whatever number of back edges it has.
func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	bodies := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := bodies[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				bodies[h] = body
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if body[x] {
					continue
				}
				body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return bodies
}
