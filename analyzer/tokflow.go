package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The flow of tokens through the parser. The functions reached from ParseFile
// are followed path by path over an unknown sequence of tokens: the kind of
// the current token is a set that shrinks where the code tests it. States meet
// where a token is taken, so that sequences of every length are covered.

// kset is a set of token kinds.
type kset uint64

func (k kset) has(n int64) bool { return n >= 0 && n < 64 && k&(1<<uint(n)) != 0 }

// tv is a value of the parser's code.
type tv struct {
	k    byte
	n    int
	c    constant.Value
	t    types.Type
	path string
	l    []tv
	fn   *ssa.Function
	g    *ssa.Global
}

// kinds of tv:
// u unknown, c constant (nil without value), p pointer to object n at path,
// i interface (dynamic type t, value l[0]), s slice with elements l,
// S slice of unknown content, m map object n, t tuple, K kind of token n,
// L text of token n, P position of token n, D comment ahead of token n,
// f function, g address of a global, A non-nil pointer of type t,
// F address within something unknown, v parameter n of the root.

var tvU = tv{k: 'u'}

func tvBool(b bool) tv { return tv{k: 'c', c: constant.MakeBool(b)} }
func tvInt(n int64) tv { return tv{k: 'c', c: constant.MakeInt64(n)} }
func tvNil() tv        { return tv{k: 'c'} }

type pobj struct {
	t    types.Type // the type of the object (not of the pointer)
	f    map[string]tv
	keys []tv // of a map
	vals []tv
	vary map[string]bool // numbers that change
	opq  int             // the part of the grammar that it was found to be, 0 none
}

func (o *pobj) clone() *pobj {
	n := &pobj{t: o.t, opq: o.opq, f: make(map[string]tv, len(o.f)), keys: append([]tv{}, o.keys...), vals: append([]tv{}, o.vals...)}
	for k, v := range o.f {
		n.f[k] = v
	}
	if o.vary != nil {
		n.vary = make(map[string]bool, len(o.vary))
		for k := range o.vary {
			n.vary[k] = true
		}
	}
	return n
}

type pframe struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	i      int
	prev   *ssa.BasicBlock
	env    map[ssa.Value]tv
	call   ssa.Value // in the caller: the call that this frame answers
	defers []tv
	took   bool // a token was taken since it began
}

type pstate struct {
	fr    []*pframe
	heap  map[int]*pobj
	cur   int
	next  int
	kinds map[int]kset
	ref   *gstate
	dead  string // the sequence so far is not in the grammar
	erred bool
	soft  bool // a condition that is not about tokens was met since the last token
	forks int
	seen  *seenKey
	id    int
	took  bool // a token was taken on this segment
}

type seenKey struct {
	key   string
	forks int
	b     *ssa.BasicBlock
	up    *seenKey
}

func (s *pstate) clone() *pstate {
	n := *s
	n.fr = make([]*pframe, len(s.fr))
	for i, f := range s.fr {
		g := *f
		g.env = make(map[ssa.Value]tv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]tv{}, f.defers...)
		n.fr[i] = &g
	}
	n.heap = make(map[int]*pobj, len(s.heap))
	for k, o := range s.heap {
		n.heap[k] = o.clone()
	}
	n.kinds = make(map[int]kset, len(s.kinds))
	for k, v := range s.kinds {
		n.kinds[k] = v
	}
	if s.ref != nil {
		n.ref = s.ref.clone()
	}
	return &n
}

func (s *pstate) top() *pframe { return s.fr[len(s.fr)-1] }

// tokFlow explores the parser.
type tokFlow struct {
	P       *Program
	rep     *Report
	root    *ssa.Function
	params  []tv
	tree    bool
	all     kset
	eof     int64
	names   map[int64]string
	gram    *grammar
	visited map[string]int
	edges   map[int][]int // between states at the end of the text
	where   map[int]string
	work    []*pstate
	steps   int
	states  int
	tokens  int
	pruned  int
	accepts int
	refused int
	// Which findings are told; all where it is nil.
	want func(key string) bool
	// From the state at hand to the next token: the tokens refused, and those
	// taken without an error.
	refusal  map[int64]refusal
	accepted kset
	funcs    map[*ssa.Function]bool
	live     map[*ssa.Function]*liveInfo
	maps     map[*ssa.Global]*pobj
	full     bool
	reports  map[*ssa.Function]bool
	finds    int
}

func (w *tokFlow) find(key, msg string) {
	w.finds++
	if w.want == nil || w.want(key) {
		w.rep.add(key, msg)
	}
}

// ---- liveness

type liveInfo struct {
	out map[*ssa.BasicBlock]map[ssa.Value]bool
	mem map[[2]int][]ssa.Value
}

func (w *tokFlow) liveAt(fn *ssa.Function, b *ssa.BasicBlock, i int) []ssa.Value {
	li := w.live[fn]
	if li == nil {
		li = &liveInfo{out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, mem: map[[2]int][]ssa.Value{}}
		in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, x := range fn.Blocks {
			li.out[x] = map[ssa.Value]bool{}
			in[x] = map[ssa.Value]bool{}
		}
		for ch := true; ch; {
			ch = false
			for k := len(fn.Blocks) - 1; k >= 0; k-- {
				x := fn.Blocks[k]
				for _, s := range x.Succs {
					for v := range in[s] {
						if !li.out[x][v] {
							li.out[x][v] = true
							ch = true
						}
					}
					pi := -1
					for j, p := range s.Preds {
						if p == x {
							pi = j
						}
					}
					for _, ins := range s.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok {
							e := ph.Edges[pi]
							if isLocal(e) && !li.out[x][e] {
								li.out[x][e] = true
								ch = true
							}
						}
					}
				}
				n := backLive(x, 0, li.out[x])
				for v := range n {
					if !in[x][v] {
						in[x][v] = true
						ch = true
					}
				}
			}
		}
		w.live[fn] = li
	}
	key := [2]int{b.Index, i}
	if r, ok := li.mem[key]; ok {
		return r
	}
	set := backLive(b, i, li.out[b])
	var r []ssa.Value
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(x, y int) bool { return r[x].Name() < r[y].Name() })
	li.mem[key] = r
	return r
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func backLive(b *ssa.BasicBlock, from int, out map[ssa.Value]bool) map[ssa.Value]bool {
	set := map[ssa.Value]bool{}
	for v := range out {
		set[v] = true
	}
	for k := len(b.Instrs) - 1; k >= from; k-- {
		ins := b.Instrs[k]
		if v, ok := ins.(ssa.Value); ok {
			delete(set, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && isLocal(*op) {
				set[*op] = true
			}
		}
	}
	return set
}

// ---- canonical form

type canon struct {
	w   *tokFlow
	s   *pstate
	sb  strings.Builder
	obj map[int]int
	tok map[int]int
	que []int
}

func (c *canon) token(n int) string {
	if n == c.s.cur {
		return "cur"
	}
	if !c.w.tree {
		return "old"
	}
	if _, ok := c.tok[n]; !ok {
		c.tok[n] = len(c.tok)
	}
	return fmt.Sprint("k", c.tok[n])
}

func (c *canon) val(v tv) {
	switch v.k {
	case 'c':
		if v.c == nil {
			c.sb.WriteString("nil")
		} else {
			c.sb.WriteString(v.c.ExactString())
		}
	case 'p', 'm':
		if _, ok := c.obj[v.n]; !ok {
			c.obj[v.n] = len(c.obj)
			c.que = append(c.que, v.n)
		}
		fmt.Fprintf(&c.sb, "%c%d%s", v.k, c.obj[v.n], v.path)
	case 'i', 't', 's':
		c.sb.WriteByte(v.k)
		if v.t != nil {
			c.sb.WriteString(v.t.String())
		}
		c.sb.WriteByte('(')
		for _, x := range v.l {
			c.val(x)
			c.sb.WriteByte(',')
		}
		c.sb.WriteByte(')')
	case 'K':
		if n := c.s.kinds[v.n]; v.n != c.s.cur && bits.OnesCount64(uint64(n)) == 1 {
			fmt.Fprintf(&c.sb, "K=%d", bits.TrailingZeros64(uint64(n)))
			if c.w.tree {
				c.sb.WriteString(c.token(v.n))
			}
			return
		}
		c.sb.WriteString("K" + c.token(v.n))
	case 'L', 'P', 'D':
		c.sb.WriteByte(v.k)
		c.sb.WriteString(c.token(v.n))
	case 'f':
		c.sb.WriteString("f" + v.fn.String())
		for _, x := range v.l {
			c.val(x)
		}
	case 'g':
		c.sb.WriteString("g" + v.g.String())
	case 'A':
		c.sb.WriteString("A" + v.t.String())
	case 'v':
		fmt.Fprint(&c.sb, "v", v.n)
	default:
		c.sb.WriteByte(v.k)
	}
}

func (w *tokFlow) key(s *pstate) string {
	c := &canon{w: w, s: s, obj: map[int]int{}, tok: map[int]int{}}
	fmt.Fprintf(&c.sb, "%d %v %v %v|", s.kinds[s.cur], s.erred, s.soft, s.dead != "")
	for _, f := range s.fr {
		fmt.Fprintf(&c.sb, "\n%s %d.%d %v:", f.fn.String(), f.b.Index, f.i, f.took && s.ref == nil)
		for _, v := range w.liveAt(f.fn, f.b, f.i) {
			x, ok := f.env[v]
			if !ok {
				continue
			}
			c.sb.WriteString(v.Name() + "=")
			c.val(x)
			c.sb.WriteByte(' ')
		}
		for _, d := range f.defers {
			c.val(d)
		}
	}
	if s.ref != nil {
		s.ref.canon(c)
	}
	for len(c.que) > 0 {
		n := c.que[0]
		c.que = c.que[1:]
		o := s.heap[n]
		fmt.Fprintf(&c.sb, "\n#%d %s ", c.obj[n], o.t.String())
		if o.opq != 0 {
			c.sb.WriteString("=" + s.ref.name(c, o.opq))
			continue
		}
		var ks []string
		for k := range o.f {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.sb.WriteString(k + "=")
			c.val(o.f[k])
			c.sb.WriteByte(' ')
		}
		for i := range o.keys {
			c.val(o.keys[i])
			c.sb.WriteString("->")
			c.val(o.vals[i])
			c.sb.WriteByte(' ')
		}
	}
	return c.sb.String()
}

// ---- values

func (w *tokFlow) eval(s *pstate, f *pframe, v ssa.Value) tv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.IsNil() {
				return tvNil()
			}
			return w.zero(v.Type())
		}
		return tv{k: 'c', c: v.Value}
	case *ssa.Global:
		return tv{k: 'g', g: v}
	case *ssa.Function:
		return tv{k: 'f', fn: v}
	case *ssa.Builtin:
		return tvU
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return tvU
}

func (w *tokFlow) zero(t types.Type) tv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tvBool(false)
		case u.Info()&types.IsString != 0:
			return tv{k: 'c', c: constant.MakeString("")}
		case u.Info()&types.IsNumeric != 0:
			return tvInt(0)
		}
	case *types.Struct, *types.Array:
		return tvU
	}
	return tvNil()
}

// typeAt is the type of the part of an object that a path names.
func typeAt(t types.Type, path string) types.Type {
	for _, p := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p == "" {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var n int
			fmt.Sscan(p, &n)
			if n >= u.NumFields() {
				return nil
			}
			t = u.Field(n).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (w *tokFlow) load(s *pstate, p tv) tv {
	switch p.k {
	case 'p':
		o := s.heap[p.n]
		if o == nil || o.opq != 0 {
			return tvU
		}
		t := typeAt(o.t, p.path)
		if t != nil {
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == "ErrorList" {
				if s.erred {
					return tvU
				}
				return tv{k: 's'}
			}
			if pt, ok := t.(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "ast.CommentGroup") {
				if n, ok := o.t.(*types.Named); ok && n.Obj().Name() == "parser" {
					if u, ok := n.Underlying().(*types.Struct); ok {
						var k int
						fmt.Sscan(strings.TrimPrefix(p.path, "."), &k)
						if strings.HasPrefix(u.Field(k).Name(), "lead") && w.tree {
							return tv{k: 'D', n: s.cur}
						}
						return tvU
					}
				}
			}
		}
		if v, ok := o.f[p.path]; ok {
			return v
		}
		// A part was written on its own.
		if t == nil {
			return tvU
		}
		if st, ok := t.Underlying().(*types.Struct); ok && w.tree {
			v := tv{k: 'W'}
			for i := 0; i < st.NumFields(); i++ {
				v.l = append(v.l, w.load(s, tv{k: 'p', n: p.n, path: p.path + fmt.Sprint(".", i)}))
			}
			return v
		}
		return w.zero(t)
	case 'g':
		if _, ok := p.g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok {
			if o := w.globalMap(p.g); o != nil {
				return tv{k: 'g', g: p.g, path: "*"}
			}
		}
		if pt, ok := p.g.Type().(*types.Pointer).Elem().(*types.Pointer); ok {
			return tv{k: 'A', t: pt, g: p.g}
		}
	}
	return tvU
}

// globalMap gives the entries of a map that only the initialisation of its
// package fills, with constants.
func (w *tokFlow) globalMap(g *ssa.Global) *pobj {
	if o, ok := w.maps[g]; ok {
		return o
	}
	w.maps[g] = nil
	init := g.Pkg.Func("init")
	var mk ssa.Value
	for _, fn := range w.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g && fn != init {
					return nil
				}
			}
		}
	}
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
				mk = st.Val
			}
		}
	}
	m, ok := mk.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	o := &pobj{t: m.Type()}
	for _, r := range *m.Referrers() {
		if up, ok := r.(*ssa.MapUpdate); ok {
			kc, ok1 := up.Key.(*ssa.Const)
			vc, ok2 := up.Value.(*ssa.Const)
			if !ok1 || !ok2 {
				return nil
			}
			o.keys = append(o.keys, tv{k: 'c', c: kc.Value})
			o.vals = append(o.vals, tv{k: 'c', c: vc.Value})
		}
	}
	w.maps[g] = o
	return o
}

func (w *tokFlow) store(s *pstate, p, v tv) {
	if p.k != 'p' {
		return
	}
	o := s.heap[p.n]
	if o == nil || o.opq != 0 {
		return
	}
	for k := range o.f {
		if strings.HasPrefix(k, p.path+".") {
			delete(o.f, k)
		}
	}
	if v.k == 'W' {
		delete(o.f, p.path)
		for i, x := range v.l {
			w.store(s, tv{k: 'p', n: p.n, path: p.path + fmt.Sprint(".", i)}, x)
		}
		return
	}
	if !w.tree && v.k == 'c' && v.c != nil && v.c.Kind() == constant.Int {
		old, ok := o.f[p.path]
		if o.vary == nil {
			o.vary = map[string]bool{}
		}
		if same, known := sameTv(old, v); ok && (!known || !same) || !ok && v.c.ExactString() == "0" {
			o.vary[p.path] = true
		}
	}
	o.f[p.path] = v
}

func (w *tokFlow) alloc(s *pstate, t types.Type) tv {
	s.next++
	s.heap[s.next] = &pobj{t: t, f: map[string]tv{}}
	return tv{k: 'p', n: s.next}
}

// keep tells whether the content of a new object is followed.
func (w *tokFlow) keep(t types.Type) bool {
	if w.tree {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Interface, *types.Slice, *types.Signature:
		return true
	case *types.Struct:
		// The parser's own state.
		for i := 0; i < u.NumFields(); i++ {
			if n, ok := u.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Scanner" {
				return true
			}
		}
	}
	return false
}

func isNilTv(v tv) (nilness, known bool) {
	switch v.k {
	case 'c':
		return v.c == nil, true
	case 'p', 'A', 'i', 'm', 'f', 'g', 't':
		return false, true
	case 's':
		return false, len(v.l) > 0
	}
	return false, false
}

func sameTv(a, b tv) (same, known bool) {
	if a.k == 'c' && b.k == 'c' {
		if a.c == nil || b.c == nil {
			return a.c == nil && b.c == nil, true
		}
		return constant.Compare(a.c, token.EQL, b.c), true
	}
	if b.k == 'L' && a.k == 'c' {
		a, b = b, a
	}
	if a.k == 'L' && b.k == 'c' && b.c != nil && b.c.Kind() == constant.String && constant.StringVal(b.c) == "_" {
		return false, true // names that are not left out
	}
	if a.k == 'i' && len(a.l) == 1 {
		if b.k == 'i' {
			return sameTv(a.l[0], b.l[0])
		}
	}
	if a.k == b.k && (a.k == 'p' || a.k == 'L' || a.k == 'P' || a.k == 'v') {
		if a.k == 'L' && a.n != b.n {
			return false, false
		}
		return a.n == b.n && a.path == b.path, true
	}
	if a.k == 'A' && b.k == 'A' && a.g != nil && a.g == b.g {
		return true, true
	}
	if a.k == 'A' && a.g != nil && b.k == 'p' || b.k == 'A' && b.g != nil && a.k == 'p' {
		return false, true
	}
	return false, false
}

// ---- running

func (w *tokFlow) run() {
	s := &pstate{heap: map[int]*pobj{}, kinds: map[int]kset{}}
	s.ref = w.gram.start()
	f := &pframe{fn: w.root, b: w.root.Blocks[0], env: map[ssa.Value]tv{}}
	for i, p := range w.root.Params {
		f.env[p] = w.params[i]
	}
	s.fr = []*pframe{f}
	w.funcs[w.root] = true
	w.visited = map[string]int{}
	w.edges = map[int][]int{}
	w.where = map[int]string{}
	w.work = []*pstate{s}
	for len(w.work) > 0 {
		s := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		w.segment(s)
		if os.Getenv("HBUF_TOK") != "" && w.states%500 < 3 {
			fmt.Println(w.states, w.steps, len(w.work), w.finds, len(s.fr), w.where[s.id], s.dead, s.erred)
			if w.states > 3000 && os.Getenv("HBUF_TOK") == "2" {
				fmt.Println(w.key(s))
			}
		}
		if w.states > 100000 || w.steps > 200000000 || w.finds > 40 {
			if w.finds == 0 {
				w.rep.undecide(fmt.Sprintf("the parser has too many states: %d", w.states))
			}
			return
		}
	}
	w.full = true
	if os.Getenv("HBUF_TOK") == "4" {
		cnt := map[string]int{}
		for k, id := range w.visited {
			_ = k
			cnt[w.where[id]]++
		}
		best := ""
		for k, n := range cnt {
			if n > cnt[best] {
				best = k
			}
		}
		fmt.Println(best, cnt[best])
		n := 0
		for k, id := range w.visited {
			if w.where[id] == best {
				if n++; n < 5 {
					fmt.Println(k)
				}
			}
		}
	}
	w.endless()
}

// segment follows a state until it takes a token or ends.
//
// A token that the grammar has here, and for which every path records an error,
// whatever the conditions that are not about tokens give, is refused.
func (w *tokFlow) segment(s *pstate) {
	w.refusal, w.accepted = map[int64]refusal{}, 0
	w.paths(s)
	var ks []int64
	for k := range w.refusal {
		if !w.accepted.has(k) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		r := w.refusal[k]
		w.find("refuse "+w.names[k]+" "+r.place, fmt.Sprintf("%s: an error is recorded at %s %s", w.P.pos(r.pos), w.names[k], r.text))
	}
}

type refusal struct {
	place, text string
	pos         token.Pos
}

func (w *tokFlow) paths(s *pstate) {
	local := []*pstate{s}
	n := 0
	for len(local) > 0 {
		x := local[len(local)-1]
		local = local[:len(local)-1]
		for {
			n++
			w.steps++
			if n > 400000 {
				w.rep.undecide("paths without a token in " + x.top().fn.String())
				return
			}
			next, done := w.step(x)
			if done {
				break
			}
			if len(next) == 0 {
				continue
			}
			x = next[0]
			local = append(local, next[1:]...)
		}
	}
}

// split restricts the kinds of a token; nil where nothing is left.
func (s *pstate) split(id int, k kset) *pstate {
	if s.kinds[id]&k == 0 {
		return nil
	}
	if s.kinds[id]&^k == 0 {
		return s
	}
	n := s.clone()
	n.kinds[id] &= k
	return n
}

// step runs one instruction. done: the path ends. Several states: a fork, the
// instruction of which has run in each.
func (w *tokFlow) step(s *pstate) (out []*pstate, done bool) {
	f := s.top()
	ins := f.b.Instrs[f.i]
	set := func(v tv) {
		f.env[ins.(ssa.Value)] = v
		f.i++
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		if _, arr := t.Underlying().(*types.Array); !w.keep(t) && !arr {
			set(tv{k: 'A', t: ins.Type()})
		} else {
			set(w.alloc(s, t))
		}
	case *ssa.UnOp:
		x := w.eval(s, f, ins.X)
		switch ins.Op {
		case token.MUL:
			set(w.load(s, x))
		case token.NOT:
			if x.k == 'c' && x.c != nil {
				set(tvBool(!constant.BoolVal(x.c)))
			} else {
				set(tvU)
			}
		case token.SUB:
			if x.k == 'c' && x.c != nil {
				set(tv{k: 'c', c: constant.UnaryOp(token.SUB, x.c, 0)})
			} else {
				set(tvU)
			}
		default:
			set(tvU)
		}
	case *ssa.BinOp:
		return w.binop(s, f, ins)
	case *ssa.FieldAddr:
		x := w.eval(s, f, ins.X)
		if x.k == 'c' && x.c == nil {
			at := "a text"
			if s.ref != nil {
				at = "a text with " + s.ref.text(w)
			}
			w.find("crash "+fnName(f.fn), fmt.Sprintf("%s: %s takes a part of nothing (nil) for %s (%s)", w.P.pos(ins.Pos()), fnName(f.fn), at, f.chain(s)))
			return nil, true
		}
		if x.k == 'p' {
			set(tv{k: 'p', n: x.n, path: x.path + fmt.Sprint(".", ins.Field)})
		} else {
			set(tv{k: 'F'})
		}
	case *ssa.Field:
		x := w.eval(s, f, ins.X)
		if x.k == 'W' && ins.Field < len(x.l) {
			set(x.l[ins.Field])
		} else {
			set(tvU)
		}
	case *ssa.IndexAddr:
		x := w.eval(s, f, ins.X)
		i := w.eval(s, f, ins.Index)
		if x.k == 'p' && i.k == 'c' && i.c != nil {
			set(tv{k: 'p', n: x.n, path: x.path + "." + i.c.ExactString()})
		} else if x.k == 's' && i.k == 'c' && i.c != nil {
			n, _ := constant.Int64Val(i.c)
			if int(n) >= 0 && int(n) < len(x.l) {
				a := w.alloc(s, ins.Type().(*types.Pointer).Elem())
				s.heap[a.n].f[""] = x.l[n]
				set(a)
			} else {
				return nil, true // out of range: a panic
			}
		} else {
			set(tv{k: 'F'})
		}
	case *ssa.Store:
		w.store(s, w.eval(s, f, ins.Addr), w.eval(s, f, ins.Val))
		f.i++
	case *ssa.MakeInterface:
		x := w.eval(s, f, ins.X)
		if x.k == 'u' {
			set(tv{k: 'i', t: ins.X.Type(), l: []tv{tvU}})
		} else {
			set(tv{k: 'i', t: ins.X.Type(), l: []tv{x}})
		}
	case *ssa.ChangeInterface:
		set(w.eval(s, f, ins.X))
	case *ssa.ChangeType:
		set(w.eval(s, f, ins.X))
	case *ssa.Convert:
		x := w.eval(s, f, ins.X)
		if x.k == 'K' || x.k == 'P' || x.k == 'c' && x.c != nil && x.c.Kind() == constant.Int {
			if b, ok := ins.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				set(x)
				break
			}
		}
		set(tvU)
	case *ssa.TypeAssert:
		x := w.eval(s, f, ins.X)
		ok, known := false, false
		val := tvU
		if x.k == 'c' && x.c == nil {
			known = true
			val = w.zero(ins.AssertedType)
		} else if x.k == 'i' {
			known = true
			if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(x.t, it)
				val = x
			} else {
				ok = types.Identical(x.t, ins.AssertedType)
				val = x.l[0]
			}
			if !ok {
				val = w.zero(ins.AssertedType)
			}
		}
		if !ins.CommaOk {
			if known && !ok {
				return nil, true
			}
			set(val)
			break
		}
		if known {
			set(tv{k: 't', l: []tv{val, tvBool(ok)}})
			break
		}
		n := s.clone()
		n.forks++
		n.soft = true
		s.forks++
		s.soft = true
		yes := tvU
		if p, isP := ins.AssertedType.(*types.Pointer); isP {
			yes = tv{k: 'A', t: p}
		}
		set(tv{k: 't', l: []tv{yes, tvBool(true)}})
		nf := n.top()
		nf.env[ins] = tv{k: 't', l: []tv{w.zero(ins.AssertedType), tvBool(false)}}
		nf.i++
		return []*pstate{s, n}, false
	case *ssa.Extract:
		x := w.eval(s, f, ins.Tuple)
		if x.k == 't' && ins.Index < len(x.l) {
			set(x.l[ins.Index])
		} else {
			set(tvU)
		}
	case *ssa.Phi:
		// All phis of the block at once.
		vals := map[ssa.Value]tv{}
		pi := -1
		for j, p := range f.b.Preds {
			if p == f.prev {
				pi = j
			}
		}
		i := f.i
		for ; i < len(f.b.Instrs); i++ {
			ph, ok := f.b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			vals[ph] = w.eval(s, f, ph.Edges[pi])
		}
		for k, v := range vals {
			f.env[k] = v
		}
		f.i = i
	case *ssa.MakeMap:
		byKind := false
		if m, ok := ins.Type().Underlying().(*types.Map); ok {
			b, ok := m.Key().Underlying().(*types.Basic)
			byKind = ok && b.Info()&types.IsInteger != 0
		}
		if w.tree || byKind {
			s.next++
			s.heap[s.next] = &pobj{t: ins.Type(), f: map[string]tv{}}
			set(tv{k: 'm', n: s.next})
		} else {
			set(tv{k: 'A', t: ins.Type()})
		}
	case *ssa.MapUpdate:
		m := w.eval(s, f, ins.Map)
		if m.k == 'm' {
			o := s.heap[m.n]
			k, v := w.eval(s, f, ins.Key), w.eval(s, f, ins.Value)
			done := false
			for i := range o.keys {
				if same, known := sameTv(o.keys[i], k); known && same {
					o.vals[i] = v
					done = true
				}
			}
			if !done {
				o.keys = append(o.keys, k)
				o.vals = append(o.vals, v)
			}
		}
		f.i++
	case *ssa.Lookup:
		return w.lookup(s, f, ins)
	case *ssa.MakeSlice:
		if n := w.eval(s, f, ins.Len); w.tree && n.k == 'c' && n.c != nil && n.c.ExactString() == "0" {
			set(tv{k: 's'})
		} else {
			set(tv{k: 'S'})
		}
	case *ssa.Slice:
		x := w.eval(s, f, ins.X)
		if x.k == 'p' && ins.Low == nil && ins.High == nil {
			if at, ok := typeAt(s.heap[x.n].t, x.path).Underlying().(*types.Array); ok {
				r := tv{k: 's'}
				for i := int64(0); i < at.Len(); i++ {
					r.l = append(r.l, w.load(s, tv{k: 'p', n: x.n, path: x.path + fmt.Sprint(".", i)}))
				}
				set(r)
				break
			}
		}
		if x.k == 'p' && ins.Low == nil && ins.High != nil && w.tree {
			if h := w.eval(s, f, ins.High); h.k == 'c' && h.c != nil && h.c.ExactString() == "0" {
				set(tv{k: 's'})
				break
			}
		}
		if x.k == 's' || x.k == 'c' && x.c == nil {
			lo, hi := int64(0), int64(len(x.l))
			ok := true
			if ins.Low != nil {
				v := w.eval(s, f, ins.Low)
				if v.k == 'c' && v.c != nil {
					lo, _ = constant.Int64Val(v.c)
				} else {
					ok = false
				}
			}
			if ins.High != nil {
				v := w.eval(s, f, ins.High)
				if v.k == 'c' && v.c != nil {
					hi, _ = constant.Int64Val(v.c)
				} else {
					ok = false
				}
			}
			if ok && lo >= 0 && lo <= hi && hi <= int64(len(x.l)) {
				set(tv{k: 's', l: append([]tv{}, x.l[lo:hi]...)})
				break
			}
		}
		set(tvU)
	case *ssa.MakeClosure:
		v := tv{k: 'f', fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			v.l = append(v.l, w.eval(s, f, b))
		}
		set(v)
	case *ssa.Defer:
		d := tv{k: 't', l: []tv{w.eval(s, f, ins.Call.Value)}}
		for _, a := range ins.Call.Args {
			d.l = append(d.l, w.eval(s, f, a))
		}
		f.defers = append(f.defers, d)
		f.i++
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.l[0].k == 'f' && len(d.l[0].fn.Blocks) > 0 {
				w.push(s, d.l[0].fn, d.l[0].l, d.l[1:], nil)
			}
			return nil, false
		}
		f.i++
	case *ssa.Call:
		return w.call(s, f, ins)
	case *ssa.Panic:
		return nil, true
	case *ssa.If:
		c := w.eval(s, f, ins.Cond)
		if c.k == 'c' && c.c != nil {
			if constant.BoolVal(c.c) {
				return w.jump(s, f.b.Succs[0])
			}
			return w.jump(s, f.b.Succs[1])
		}
		n := s.clone()
		s.soft, n.soft = true, true
		s.forks++
		n.forks++
		_, d1 := w.jump(s, f.b.Succs[0])
		_, d2 := w.jump(n, n.top().b.Succs[1])
		if !d1 {
			out = append(out, s)
		}
		if !d2 {
			out = append(out, n)
		}
		return out, len(out) == 0
	case *ssa.Jump:
		return w.jump(s, f.b.Succs[0])
	case *ssa.Return:
		var r tv
		switch len(ins.Results) {
		case 0:
		case 1:
			r = w.eval(s, f, ins.Results[0])
		default:
			r = tv{k: 't'}
			for _, x := range ins.Results {
				r.l = append(r.l, w.eval(s, f, x))
			}
		}
		if len(s.fr) == 1 {
			if s.ref != nil && s.cur != 0 && !s.erred {
				w.accepted |= s.kinds[s.cur]
			}
			w.finish(s, r)
			return nil, true
		}
		s.fr = s.fr[:len(s.fr)-1]
		up := s.top()
		up.took = up.took || f.took
		if f.call != nil {
			up.env[f.call] = r
			up.i++
		}
	case *ssa.Next:
		n := s.clone()
		s.soft, n.soft = true, true
		s.forks++
		n.forks++
		set(tv{k: 't', l: []tv{tvBool(true), tvU, tvU}})
		nf := n.top()
		nf.env[ins] = tv{k: 't', l: []tv{tvBool(false), tvU, tvU}}
		nf.i++
		return []*pstate{s, n}, false
	default:
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = tvU
		}
		f.i++
	}
	return nil, false
}

// jump enters a block. A loop that comes back in the same state without having
// taken a token and without a choice does not end.
func (w *tokFlow) jump(s *pstate, b *ssa.BasicBlock) ([]*pstate, bool) {
	f := s.top()
	f.prev = f.b
	back := b.Dominates(f.b)
	f.b = b
	f.i = 0
	// Evaluate the phis at once, so that the state can be compared.
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			w.step(s)
		}
	}
	if back {
		// A counter of a loop that goes on for long.
		n := 0
		for x := s.seen; x != nil; x = x.up {
			if x.b == b {
				n++
			}
		}
		if n >= 4 {
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					if v := f.env[ph]; v.k == 'c' && v.c != nil && v.c.Kind() == constant.Int {
						f.env[ph] = tvU
					}
				}
			}
		}
		k := w.key(s)
		if os.Getenv("HBUF_TOK") == "3" {
			fmt.Println(f.fn, k)
		}
		for x := s.seen; x != nil; x = x.up {
			if x.key == k {
				if x.forks == s.forks {
					w.find("endless "+f.fn.String(), fmt.Sprintf("%s: the loop %s goes round again without taking a token (token: %s)", w.P.pos(f.fn.Pos()), f.fn.String(), w.kindsText(s.kinds[s.cur])))
				}
				return nil, true
			}
		}
		s.seen = &seenKey{k, s.forks, b, s.seen}
	}
	return nil, false
}

func (w *tokFlow) kindsText(k kset) string {
	var out []string
	for n, name := range w.names {
		if k.has(n) {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		return fmt.Sprintf("%s and %d more", strings.Join(out[:4], " "), len(out)-4)
	}
	return strings.Join(out, " ")
}

func (w *tokFlow) binop(s *pstate, f *pframe, ins *ssa.BinOp) ([]*pstate, bool) {
	x, y := w.eval(s, f, ins.X), w.eval(s, f, ins.Y)
	set := func(v tv) ([]*pstate, bool) {
		f.env[ins] = v
		f.i++
		return nil, false
	}
	op := ins.Op
	if y.k == 'K' && x.k == 'c' {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if x.k == 'K' && y.k == 'c' && y.c != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			var yes, no kset
			for n := range w.names {
				if !s.kinds[x.n].has(n) {
					continue
				}
				if constant.Compare(constant.MakeInt64(n), op, y.c) {
					yes |= 1 << uint(n)
				} else {
					no |= 1 << uint(n)
				}
			}
			if no == 0 {
				return set(tvBool(true))
			}
			if yes == 0 {
				return set(tvBool(false))
			}
			n := s.clone()
			s.kinds[x.n] = yes
			n.kinds[x.n] = no
			nf := n.top()
			nf.env[ins] = tvBool(false)
			nf.i++
			set(tvBool(true))
			return []*pstate{s, n}, false
		}
		return set(tvU)
	}
	if x.k == 'c' && y.k == 'c' && x.c != nil && y.c != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return set(tvBool(constant.Compare(x.c, op, y.c)))
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.c); ok {
				return set(tv{k: 'c', c: constant.Shift(x.c, op, uint(n))})
			}
		case token.QUO:
			return set(tvU)
		default:
			return set(tv{k: 'c', c: constant.BinaryOp(x.c, op, y.c)})
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var same, known bool
		if y.k == 'c' && y.c == nil {
			same, known = isNilTv(x)
		} else if x.k == 'c' && x.c == nil {
			same, known = isNilTv(y)
		} else {
			same, known = sameTv(x, y)
		}
		if known {
			return set(tvBool(same == (op == token.EQL)))
		}
	case token.GTR, token.LSS, token.GEQ, token.LEQ:
		if op == token.LSS || op == token.LEQ {
			x, y = y, x
		}
		eq := op == token.GEQ || op == token.LEQ
		if x.k == 'P' && y.k == 'P' {
			return set(tvBool(x.n > y.n || eq && x.n == y.n))
		}
		if x.k == 'P' && y.k == 'c' && y.c != nil && y.c.ExactString() == "0" {
			return set(tvBool(true))
		}
		if y.k == 'P' && x.k == 'c' && x.c != nil && x.c.ExactString() == "0" {
			return set(tvBool(false))
		}
	}
	return set(tvU)
}

func (w *tokFlow) lookup(s *pstate, f *pframe, ins *ssa.Lookup) ([]*pstate, bool) {
	m, k := w.eval(s, f, ins.X), w.eval(s, f, ins.Index)
	var o *pobj
	if m.k == 'm' {
		o = s.heap[m.n]
	} else if m.k == 'g' && m.path == "*" {
		o = w.maps[m.g]
	}
	elem := types.Type(types.Typ[types.Invalid])
	if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
		elem = mt.Elem()
	}
	res := func(st *pstate, v tv, ok bool) {
		g := st.top()
		if ins.CommaOk {
			v = tv{k: 't', l: []tv{v, tvBool(ok)}}
		}
		g.env[ins] = v
		g.i++
	}
	if o == nil {
		if ins.CommaOk {
			n := s.clone()
			s.soft, n.soft = true, true
			s.forks++
			n.forks++
			res(s, tvU, true)
			res(n, w.zero(elem), false)
			return []*pstate{s, n}, false
		}
		f.env[ins] = tvU
		f.i++
		return nil, false
	}
	if k.k == 'K' {
		groups := map[string]kset{}
		vals := map[string]tv{}
		found := map[string]bool{}
		for n := range w.names {
			if !s.kinds[k.n].has(n) {
				continue
			}
			v, ok, at := w.zero(elem), false, 0
			for i := range o.keys {
				if same, known := sameTv(o.keys[i], tvInt(n)); known && same {
					v, ok, at = o.vals[i], true, i
				}
			}
			key := fmt.Sprint(v.c, ok)
			if ok && v.k != 'c' {
				key = fmt.Sprint(at)
			}
			groups[key] |= 1 << uint(n)
			vals[key], found[key] = v, ok
		}
		var ks []string
		for key := range groups {
			ks = append(ks, key)
		}
		sort.Strings(ks)
		var out []*pstate
		for _, key := range ks {
			if n := s.split(k.n, groups[key]); n != nil {
				if n == s {
					n = s.clone()
				}
				res(n, vals[key], found[key])
				out = append(out, n)
			}
		}
		return out, len(out) == 0
	}
	for i := range o.keys {
		if same, known := sameTv(o.keys[i], k); known && same {
			res(s, o.vals[i], true)
			return nil, false
		}
	}
	// Names of different tokens are taken to differ.
	res(s, w.zero(elem), false)
	return nil, false
}

func (w *tokFlow) push(s *pstate, fn *ssa.Function, free, args []tv, call ssa.Value) {
	w.funcs[fn] = true
	g := &pframe{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]tv{}, call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			g.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			g.env[v] = free[i]
		}
	}
	s.fr = append(s.fr, g)
}

func (w *tokFlow) call(s *pstate, f *pframe, ins *ssa.Call) ([]*pstate, bool) {
	c := ins.Common()
	set := func(v tv) ([]*pstate, bool) {
		f.env[ins] = v
		f.i++
		return nil, false
	}
	var args []tv
	for _, a := range c.Args {
		args = append(args, w.eval(s, f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if w.tree && len(args) == 2 && (args[0].k == 's' || args[0].k == 'c') && (args[1].k == 's' || args[1].k == 'c' && args[1].c == nil) {
				return set(tv{k: 's', l: append(append([]tv{}, args[0].l...), args[1].l...)})
			}
			return set(tv{k: 'S'})
		case "len":
			switch {
			case args[0].k == 's':
				return set(tvInt(int64(len(args[0].l))))
			case args[0].k == 'c' && args[0].c == nil:
				return set(tvInt(0))
			case args[0].k == 'c' && args[0].c.Kind() == constant.String:
				return set(tvInt(int64(len(constant.StringVal(args[0].c)))))
			case args[0].k == 'm':
				return set(tvInt(int64(len(s.heap[args[0].n].keys))))
			}
			return set(tvU)
		case "recover":
			return set(tvNil())
		}
		return set(tvU)
	}
	if c.IsInvoke() {
		x := w.eval(s, f, c.Value)
		if x.k == 'i' {
			if m := w.P.Prog.LookupMethod(x.t, c.Method.Pkg(), c.Method.Name()); m != nil && len(m.Blocks) > 0 && w.P.inRepo[m.Pkg.Pkg] {
				w.push(s, m, nil, append([]tv{x.l[0]}, args...), ins)
				return nil, false
			}
		}
		return set(tvU)
	}
	fn := c.StaticCallee()
	var free []tv
	if fn == nil {
		x := w.eval(s, f, c.Value)
		if x.k == 'f' {
			fn, free = x.fn, x.l
		}
	} else if x := w.eval(s, f, c.Value); x.k == 'f' {
		free = x.l
	}
	if fn == nil {
		return set(tvU)
	}
	if kindOfToken(fn) >= 0 {
		return w.take(s, f, ins, fn)
	}
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if n, ok := rt.(*types.Named); ok && n.Obj().Name() == "ErrorList" {
			switch fn.Name() {
			case "Add":
				w.refuse(s)
				if w.tree {
					return nil, true // only texts of the grammar are followed here
				}
				return set(tvU)
			case "Err":
				if s.erred {
					return set(tv{k: 'A', t: n})
				}
				return set(tvNil())
			case "Len":
				if s.erred {
					return set(tv{k: 'v', n: -1})
				}
				return set(tvInt(0))
			}
			return set(tvU)
		}
	}
	if bound := fn.Pkg == nil && fn.Object() != nil && w.P.inRepo[fn.Object().Pkg()] && len(fn.Blocks) > 0; bound {
		w.push(s, fn, free, args, ins) // the wrapper of a method value
		return nil, false
	}
	if len(fn.Blocks) == 0 || fn.Pkg == nil || !w.P.inRepo[fn.Pkg.Pkg] || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/scanner") {
		return set(tvU)
	}
	if strings.HasSuffix(fn.Pkg.Pkg.Path(), "/token") && fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if n, ok := rt.(*types.Named); ok {
			if _, st := n.Underlying().(*types.Struct); st {
				return set(tvU)
			}
		}
	}
	if s.erred && !w.tree && w.reporter(fn) {
		return set(tvU) // one error more
	}
	// Recursion: the same function a fourth time.
	deep := 0
	took := false
	for i := len(s.fr) - 1; i >= 0; i-- {
		took = took || s.fr[i].took
		if s.fr[i].fn == fn {
			if deep++; deep == 1 && !took {
				// Entered again before a token was taken.
				same := true
				for j, p := range fn.Params {
					v, ok := s.fr[i].env[p]
					if !ok {
						continue
					}
					if eq, known := sameTv(v, args[j]); !known || !eq {
						same = false
					}
				}
				if same && s.fr[i].entryForks(s) {
					w.find("recursion "+fn.String(), fmt.Sprintf("%s: %s calls itself without taking a token", w.P.pos(fn.Pos()), fn.String()))
					return nil, true
				}
			}
		}
	}
	if deep >= 3 || deep >= 1 && s.ref == nil && took {
		w.pruned++
		return nil, true
	}
	w.push(s, fn, free, args, ins)
	return nil, false
}

// reporter: the function and what it calls write nothing and take no token, and
// give no result: it can only record errors.
func (w *tokFlow) reporter(fn *ssa.Function) bool {
	if r, ok := w.reports[fn]; ok {
		return r
	}
	w.reports[fn] = false
	if fn.Signature.Results().Len() > 0 {
		return false
	}
	ok := w.quiet(fn, map[*ssa.Function]bool{})
	w.reports[fn] = ok
	return ok
}

func (w *tokFlow) quiet(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if kindOfToken(fn) >= 0 {
		return false
	}
	if fn.Pkg == nil || !w.P.inRepo[fn.Pkg.Pkg] || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/scanner") || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/token") {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				a := ins.Addr
				for {
					if x, ok := a.(*ssa.FieldAddr); ok {
						a = x.X
					} else if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Go:
				return false
			case *ssa.Call:
				c := ins.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() {
					continue
				}
				g := c.StaticCallee()
				if g == nil || !w.quiet(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func (f *pframe) entryForks(s *pstate) bool { return !s.soft }

// kindOfToken: the function gives the next token of the text: which result is
// its kind.
func kindOfToken(fn *ssa.Function) int {
	if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/scanner") {
		return -1
	}
	r := fn.Signature.Results()
	if r.Len() < 3 {
		return -1
	}
	for i := 0; i < r.Len(); i++ {
		if n, ok := r.At(i).Type().(*types.Named); ok && n.Obj().Name() == "Token" {
			return i
		}
	}
	return -1
}

// take consumes the current token: the place where states meet.
func (w *tokFlow) take(s *pstate, f *pframe, ins *ssa.Call, fn *ssa.Function) ([]*pstate, bool) {
	w.tokens++
	if s.ref != nil && s.cur != 0 && !s.erred {
		w.accepted |= s.kinds[s.cur]
	}
	type nxt struct {
		s   *pstate
		eof bool
	}
	var outs []nxt
	if s.cur == 0 {
		outs = append(outs, nxt{s, false})
	} else if s.ref == nil {
		k := s.kinds[s.cur]
		if k.has(w.eof) {
			if n := s.split(s.cur, 1<<uint(w.eof)); n != nil {
				if n == s {
					n = s.clone()
				}
				outs = append(outs, nxt{n, true})
			}
		}
		if n := s.split(s.cur, ^kset(1<<uint(w.eof))); n != nil {
			outs = append(outs, nxt{n.clone(), false})
		}
	} else {
		var ks []int64
		for n := range w.names {
			if s.kinds[s.cur].has(n) {
				ks = append(ks, n)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var bad kset
		for _, k := range ks {
			n := s.clone()
			n.kinds[n.cur] = 1 << uint(k)
			switch n.ref.take(k, n.cur, w.tree) {
			case gOK:
				outs = append(outs, nxt{n, k == w.eof})
			case gBound:
				w.pruned++
			default:
				bad |= 1 << uint(k)
			}
		}
		if bad != 0 && !w.tree {
			n := s.clone()
			n.kinds[n.cur] = bad
			n.dead = fmt.Sprintf("%s after %s [%s]", w.kindsText(bad), n.ref.text(w), f.chain(s))
			n.ref = nil
			if b := bad & (1 << uint(w.eof)); b != 0 {
				m := n.clone()
				m.kinds[m.cur] = b
				outs = append(outs, nxt{m, true})
				n.kinds[n.cur] &^= b
			}
			if n.kinds[n.cur] != 0 {
				outs = append(outs, nxt{n, false})
			}
		}
	}
	for _, o := range outs {
		n := o.s
		old := s.id
		if n.ref != nil && w.tree {
			w.collapse(n)
		}
		if !o.eof {
			n.next++
			n.cur = n.next
			n.kinds[n.cur] = w.all
		}
		n.soft = false
		n.forks = 0
		n.seen = nil
		if !w.tree {
			for _, o := range n.heap {
				for k, v := range o.f {
					if o.vary[k] || v.k == 'K' || v.k == 'L' || v.k == 'S' || v.k == 's' {
						o.f[k] = tvU
					}
					if t := typeAt(o.t, k); t != nil {
						switch t.Underlying().(type) {
						case *types.Slice, *types.Map:
							o.f[k] = tvU
						case *types.Interface:
							if n.ref == nil {
								o.f[k] = tvU
							}
						}
					}
				}
			}
		}
		for _, fr := range n.fr {
			fr.took = !o.eof
			if !w.tree {
				for k, v := range fr.env {
					if _, ok := k.Type().Underlying().(*types.Slice); ok || v.k == 'L' || v.k == 'D' {
						fr.env[k] = tvU
					}
				}
			}
			if n.ref == nil && !w.tree {
				// The text is refused: only the control flow matters.
				for k, v := range fr.env {
					switch v.k {
					case 'A', 'S', 's', 'D', 'L', 'i':
						fr.env[k] = tvU
					case 'c':
						if v.c == nil || v.c.Kind() == constant.String {
							fr.env[k] = tvU
						}
					}
				}
			}
		}
		g := n.top()
		r := tv{k: 't'}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			switch t := res.At(i).Type().(type) {
			case *types.Named:
				if t.Obj().Name() == "Token" {
					r.l = append(r.l, tv{k: 'K', n: n.cur})
				} else {
					r.l = append(r.l, tv{k: 'P', n: n.cur})
				}
			default:
				r.l = append(r.l, tv{k: 'L', n: n.cur})
			}
		}
		g.env[ins] = r
		g.i++
		// Forget what nothing names any more.
		n.gc()
		k := w.key(n)
		id, ok := w.visited[k]
		if !ok {
			w.states++
			id = w.states
			w.visited[k] = id
			w.where[id] = f.chain(n)
			n.id = id
			w.work = append(w.work, n)
		}
		if o.eof {
			w.edges[old] = append(w.edges[old], id)
		}
	}
	return nil, true
}

func (f *pframe) chain(s *pstate) string {
	var out []string
	for i := len(s.fr) - 1; i >= 0 && len(out) < 4; i-- {
		out = append(out, s.fr[i].fn.Name())
	}
	return strings.Join(out, " < ")
}

func (s *pstate) gc() {
	mark := map[int]bool{}
	toks := map[int]bool{s.cur: true}
	var visit func(v tv)
	var obj func(n int)
	visit = func(v tv) {
		switch v.k {
		case 'p', 'm':
			obj(v.n)
		case 'K', 'L', 'P', 'D':
			toks[v.n] = true
		}
		for _, x := range v.l {
			visit(x)
		}
	}
	obj = func(n int) {
		if mark[n] {
			return
		}
		mark[n] = true
		if o := s.heap[n]; o != nil {
			for _, v := range o.f {
				visit(v)
			}
			for i := range o.keys {
				visit(o.keys[i])
				visit(o.vals[i])
			}
		}
	}
	for _, f := range s.fr {
		for _, v := range f.env {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d)
		}
	}
	for n := range s.heap {
		if !mark[n] {
			delete(s.heap, n)
		}
	}
	if s.ref != nil {
		for _, t := range s.ref.tokens() {
			toks[t] = true
		}
	}
	for t := range s.kinds {
		if !toks[t] {
			delete(s.kinds, t)
		}
	}
}

// refuse: the code records an error.
func (w *tokFlow) refuse(s *pstate) {
	w.refused++
	if s.ref != nil && s.cur != 0 && !s.erred {
		for n := range w.names {
			if s.kinds[s.cur].has(n) && s.ref.allows(n) {
				if _, ok := w.refusal[n]; !ok {
					w.refusal[n] = refusal{s.ref.place(), fmt.Sprintf("after %s, which the grammar allows (%s)", s.ref.text(w), s.top().chain(s)), s.top().fn.Pos()}
				}
			}
		}
	}
	s.erred = true
	s.ref = nil
}

// endless reports cycles at the end of the text.
func (w *tokFlow) endless() {
	color := map[int]int{}
	var visit func(n int)
	visit = func(n int) {
		color[n] = 1
		for _, m := range w.edges[n] {
			switch color[m] {
			case 0:
				visit(m)
			case 1:
				w.find("endless at the end "+w.where[m], "at the end of the text the parser goes round for ever: "+w.where[m])
			}
		}
		color[n] = 2
	}
	var ns []int
	for n := range w.edges {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		if color[n] == 0 {
			visit(n)
		}
	}
}
