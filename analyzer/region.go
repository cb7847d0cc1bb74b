package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Regions: the text a generator writes for one member of a declaration.
//
// The property state keeps, per text buffer, the text written since the
// innermost loop over members (fields, enum items, methods, inherited
// declarations) came to its current element.  When the element is done the text
// is recorded for that loop.  A scenario fixes what is known of the member (its
// kind of type, whether it is nullable, which tags it has), so that the texts
// recorded are those written for every member of that shape.

type frame struct {
	elem *V
	list *V
	c    *Ctx
	in   ssa.Instruction
	lead map[*V]*V // text before the region
}

type regProp struct {
	stack []frame
	w     map[*V]*V   // text since the region began
	spec  *frame      // the declaration being generated
	seen  string      // member loops run for it so far, sorted, each followed by ;
	full  map[*V]bool // w is everything ever written to that buffer
	key   string
}

func (p *regProp) Key() string {
	if p.key != "" {
		return p.key
	}
	var ks []string
	for v, w := range p.w {
		f := ""
		if p.full[v] {
			f = "f"
		}
		ks = append(ks, fmt.Sprintf("%d:%d%s", v.id, w.id, f))
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, f := range p.stack {
		fmt.Fprintf(&sb, "%d/%p/%d[", f.elem.id, f.in, f.c.id)
		var ls []string
		for v, w := range f.lead {
			ls = append(ls, fmt.Sprintf("%d:%d", v.id, w.id))
		}
		sort.Strings(ls)
		sb.WriteString(strings.Join(ls, " ") + "]")
	}
	if p.spec != nil {
		fmt.Fprintf(&sb, "#%d/%p/%s", p.spec.c.id, p.spec.in, p.seen)
	}
	p.key = sb.String() + "|" + strings.Join(ks, " ") + "."
	return p.key
}

func (p *regProp) clone() *regProp {
	n := &regProp{spec: p.spec, seen: p.seen, stack: append([]frame(nil), p.stack...), w: make(map[*V]*V, len(p.w)+1), full: make(map[*V]bool, len(p.full)+1)}
	for k, v := range p.w {
		n.w[k] = v
	}
	for k, v := range p.full {
		n.full[k] = v
	}
	return n
}

// Region is one recorded text.
type Region struct {
	Kind  string // type of the innermost element
	Outer string // type of the enclosing element, if any
	Sink  string // stable description of the buffer
	Func  string // function the loop is in
	Lead  string // text written just before
	Text  string
	At    string
	Root  *V
}

// Trip is what one way through the body of a member loop writes: a text per
// buffer (no entry: nothing).
type Trip struct {
	Kind, Outer, Func, At, List string
	In                          ssa.Instruction
	Text                        map[string]string
	Lead                        map[string]string
	Of                          string // whose members a local list of fields holds: "spec", "other" or "both"
	Ctx                         int    // the call it happened in
}

type regClient struct {
	baseClient
	P      *Program
	onElem func(e *Engine, st *State, elem *V)
	onSpec func(k scen, spec *V)
	out    map[string]Region
	trips  map[string]Trip
	decls  map[string]bool // sets of member loops run for one declaration
	render func(v *V) string
	doc    bool // also keep text outside member loops (bounded)
	maxTop int
	elems  map[*V]bool
	wins   map[string]bool // pieces of the text outside member loops
	winLen int
	tails  map[*V]bool // with widen: texts outside member loops that end a block
	widen  bool        // text written in a loop that is no member loop becomes one mark
	marks  map[*V]map[string]bool
	member func(elem *V) bool // further member loops
	ret    []string
}

func newRegClient(P *Program) *regClient {
	return &regClient{elems: map[*V]bool{}, P: P, out: map[string]Region{}, trips: map[string]Trip{}, decls: map[string]bool{}, tails: map[*V]bool{}, render: renderText, maxTop: 160}
}

func (r *regClient) Init() Prop {
	return &regProp{w: map[*V]*V{}, full: map[*V]bool{}}
}

func memberType(t types.Type) bool {
	switch namedOf(t) {
	case "ast.Field", "ast.EnumItem", "ast.FuncType", "ast.Extends", "build.DBField", "ast.DataType", "ast.ServerType":
		return true
	}
	n, ok := types.Unalias(derefT(t)).(*types.Named)
	if !ok {
		return false
	}
	_, isS := n.Underlying().(*types.Struct)
	pk := n.Obj().Pkg()
	return isS && pk != nil && strings.HasPrefix(pk.Path(), modPath+"/") && pk.Name() != "ast" && pk.Name() != "build" && pk.Name() != "token"
}

var wsRun = regexp.MustCompile(`[ \t]+`)

func (r *regClient) norm(e *Engine, v *V) *V {
	var out []*V
	ch := false
	for _, p := range textParts(v) {
		if s, ok := p.constStr(); ok {
			n := wsRun.ReplaceAllString(s, " ")
			if n != s {
				ch = true
			}
			out = append(out, e.T.str(n))
		} else {
			out = append(out, p)
		}
	}
	if !ch {
		return v
	}
	return e.T.concat(out...)
}

func (r *regClient) NewObj(e *Engine, st *State, obj *V) {
	p := st.prop.(*regProp)
	touched := false
	for k := range p.w {
		if k == obj || uses(k, obj) {
			touched = true
		}
	}
	n := typeShort(derefT(obj.T))
	buf := n == "strings.Builder" || n == "bytes.Buffer"
	if buf && len(p.stack) == 0 {
		st.mem.store[r.cell(e, obj)] = e.T.str("")
	}
	if !touched && !(buf && len(p.stack) > 0) {
		return
	}
	q := p.clone()
	for k := range p.w {
		if k == obj || uses(k, obj) {
			delete(q.w, k)
			delete(q.full, k)
		}
	}
	if buf && len(p.stack) > 0 {
		q.full[obj] = true
	}
	st.prop = q
}

// cell holds the text a buffer got outside the member loops.
func (r *regClient) cell(e *Engine, sink *V) *V {
	return e.T.mk("text", "", types.NewPointer(types.Typ[types.String]), 0, sink)
}

const cut = "⋯"

func (r *regClient) Content(e *Engine, st *State, b *V) *V {
	p := st.prop.(*regProp)
	if p.full[b] {
		if w := p.w[b]; w != nil {
			return w
		}
		return e.T.str("")
	}
	if w, ok := st.mem.store[r.cell(e, b)]; ok && len(p.stack) == 0 {
		if x, ok := textParts(w)[0].constStr(); ok && strings.HasPrefix(x, cut) {
			return nil
		}
		return w
	}
	return nil
}

func (r *regClient) Emit(e *Engine, st *State, sink, text *V, c *Ctx, in ssa.Instruction) []*State {
	sink = e.builderOf(st, sink)
	if isFileSink(sink) {
		return nil
	}
	p := st.prop.(*regProp)
	if r.widen {
		if l, lc := r.looseLoop(e, st, c, in); l != nil {
			if e.quiet > 0 {
				return nil
			}
			m := e.T.mk("mark", "", types.Typ[types.String], e.siteOf(lc, "mark", l))
			if r.marks[m] == nil {
				r.marks[m] = map[string]bool{}
			}
			origins(text, r.marks[m])
			var w *V
			if len(p.stack) == 0 {
				w = st.mem.store[r.cell(e, sink)]
			} else {
				w = p.w[sink]
			}
			if w != nil {
				ps := textParts(w)
				last := ps[len(ps)-1]
				if last == m {
					return nil
				}
				if len(p.stack) == 0 && e.textJoin[last] != "" {
					st.mem.store[r.cell(e, sink)] = appendOnce(e, w, m)
					return []*State{st}
				}
			}
			text = m
		}
	}
	q := p.clone()
	t := text
	if (t.Op == "join" && e.textJoin[t] == "") || t.Op == "call" {
		if a := e.Alts(t); len(a) > 1 {
			// several texts: one state each
			var out []*State
			for _, x := range a {
				s := st.fork()
				out = append(out, r.Emit(e, s, sink, x, c, in)...)
				if len(out) == 0 || out[len(out)-1] != s {
					out = append(out, s)
				}
			}
			return out
		}
	}
	if len(p.stack) == 0 {
		k := r.cell(e, sink)
		w, ok := st.mem.store[k]
		if !ok {
			w = e.T.str(cut)
		}
		if r.widen {
			var ps []*V
			for _, x := range textParts(t) {
				ps = append(ps, known1(e, st, x))
			}
			t = e.T.concat(ps...)
			if x, ok := ps[0].constStr(); ok && strings.HasPrefix(x, "func (") {
				w = e.T.str(cut) // one generated function at a time
			}
		}
		w = r.norm(e, e.T.concat(w, t))
		if len(textParts(w)) > r.maxTop/4 || len(r.render(w)) > 2000+r.maxTop {
			w = e.T.concat(e.T.str(cut), r.tail(e, w, r.maxTop))
		}
		if r.widen && e.quiet == 0 {
			if ps := textParts(w); len(ps) > 0 {
				if x, ok := ps[len(ps)-1].constStr(); ok && strings.HasSuffix(strings.TrimRight(x, "\n"), "}") {
					r.tails[w] = true
				}
			}
		} else if r.wins != nil && e.quiet == 0 {
			r.wins[normText(r.render(r.tail(e, w, r.winLen)))] = true
		}
		st.mem.store[k] = w
		return []*State{st}
	}
	var parts []*V
	if w := p.w[sink]; w != nil {
		parts = append(parts, w)
	}
	for _, x := range textParts(t) {
		parts = append(parts, st.resolve(x))
	}
	w := r.norm(e, e.T.concat(parts...))
	if n := len(textParts(w)); n > 2000 {
		w = r.tail(e, w, r.maxTop)
		q.full[sink] = false
	}
	q.w[sink] = w
	st.prop = q
	return []*State{st}
}

// known1 puts in what is known of a part of a text.
func known1(e *Engine, st *State, x *V) *V {
	x = st.resolve(x)
	if x.Op != "call" {
		return x
	}
	var args []*V
	ch := false
	for _, a := range x.Args {
		b := a
		if a != nil {
			b = st.resolve(a)
		}
		ch = ch || a != b
		args = append(args, b)
	}
	if !ch {
		return x
	}
	return e.T.mk("call", x.S, x.T, 0, args...)
}

// looseLoop is the outermost loop round an instruction, inside the member loop
// (or declaration) being generated, that is neither a member loop nor followed
// trip by trip.
func (r *regClient) looseLoop(e *Engine, st *State, c *Ctx, in ssa.Instruction) (*ssa.BasicBlock, *Ctx) {
	p := st.prop.(*regProp)
	var fr *frame
	if n := len(p.stack); n > 0 {
		fr = &p.stack[n-1]
	} else {
		fr = p.spec
	}
	var at *ssa.BasicBlock
	var atc *Ctx
	blk := in.Block()
	loose := e.looseLoops(st, c, blk)
	for x := c; x != nil; x = x.parent {
		if fr != nil && fr.c == x {
			if _, call := fr.in.(*ssa.Call); !call {
				for _, h := range loose {
					if !e.loopsOf(x.fn)[h][fr.in.Block()] {
						return h, x
					}
				}
			}
			return at, atc
		}
		if len(loose) > 0 {
			at, atc = loose[0], x
		}
		loose = x.loose
	}
	return at, atc
}

// origins collects the paths of the schema a text is made from.
func origins(v *V, out map[string]bool) {
	seen := map[*V]bool{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "field" {
			if p := x.typedPath(); !strings.HasPrefix(p, "?") {
				out[p] = true
				return
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(v)
}

// tail keeps the end of a text.
func (r *regClient) tail(e *Engine, w *V, n int) *V {
	ps := textParts(w)
	var keep []*V
	l := 0
	for i := len(ps) - 1; i >= 0 && l < n; i-- {
		if s, ok := ps[i].constStr(); ok {
			if len(s) > n-l {
				s = s[len(s)-(n-l):]
			}
			l += len(s)
			keep = append([]*V{e.T.str(s)}, keep...)
		} else {
			l += 12
			keep = append([]*V{ps[i]}, keep...)
		}
	}
	return e.T.concat(keep...)
}

func listOf(elem *V) *V {
	x := elem
	for x != nil {
		switch x.Op {
		case "index", "rval", "rkey":
			return x.Args[0]
		case "as", "deref":
			x = x.Args[0]
			continue
		}
		return nil
	}
	return nil
}

func (r *regClient) Elem(e *Engine, st *State, elem *V, c *Ctx, in ssa.Instruction) {
	if elem == nil || elem.T == nil {
		return
	}
	if namedOf(elem.T) == "ast.Spec" {
		if r.onSpec != nil {
			r.onSpec(scen{e, st}, elem)
		}
		if e.quiet == 0 && e.info(c.fn).loop[in.Block()] != nil {
			r.endSpec(e, st)
			q := st.prop.(*regProp).clone()
			q.spec = &frame{elem: elem, list: listOf(elem), c: c, in: in}
			st.prop = q
		}
	}
	if !memberType(elem.T) && (r.member == nil || !r.member(elem)) {
		return
	}
	if r.onElem != nil {
		r.onElem(e, st, elem)
	}
	if u, ok := in.(*ssa.UnOp); ok {
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if _, k := ia.Index.(*ssa.Const); k || e.info(c.fn).loop[in.Block()] == nil {
			return // one particular element, not a loop
		}
	}
	if e.quiet > 0 {
		return
	}
	p := st.prop.(*regProp)
	for i := len(p.stack) - 1; i >= 0; i-- {
		if p.stack[i].in == in && p.stack[i].c == c {
			r.closeTo(e, st, i)
			break
		}
	}
	q := st.prop.(*regProp).clone()
	lead := map[*V]*V{}
	for k, w := range q.w {
		lead[k] = w
	}
	r.elems[elem] = true
	q.stack = append(q.stack, frame{elem: elem, list: listOf(elem), c: c, in: in, lead: lead})
	q.w = map[*V]*V{}
	q.full = map[*V]bool{}
	st.prop = q
}

// closeTo records and removes the regions from depth i on.
func (r *regClient) closeTo(e *Engine, st *State, i int) {
	q := st.prop.(*regProp).clone()
	for len(q.stack) > i {
		f := q.stack[len(q.stack)-1]
		outer := ""
		if n := len(q.stack); n > 1 {
			outer = namedOf(q.stack[n-2].elem.T)
		}
		t := Trip{Of: listOrigin(e, st, f.list), Ctx: f.c.id, In: f.in, List: renderList(f.list), Kind: namedOf(f.elem.T), Outer: outer, Func: fnName(f.c.fn), At: e.P.instrPos(f.in), Text: map[string]string{}, Lead: map[string]string{}}
		for sink, w := range q.w {
			if q.full[sink] {
				continue // a buffer of the element itself; counted where it is inserted
			}
			g := r.record(e, st, f, outer, sink, w)
			id := fmt.Sprint(sink.id)
			t.Text[id], t.Lead[id] = g.Text, g.Lead
		}
		if len(q.stack) == 1 && q.spec != nil && !r.widen {
			q.see(t.At)
		}
		key := fmt.Sprint(t.Kind, "\x00", t.At, "\x00", t.Text, "\x00", t.Lead)
		if r.widen {
			key = fmt.Sprint(t.Ctx, "\x00", key)
		}
		r.trips[key] = t
		// what was written stays as text of the enclosing region
		nw := map[*V]*V{}
		for k, l := range f.lead {
			nw[k] = l
		}
		if len(q.stack) > 1 {
			for k, w := range q.w {
				if q.full[k] {
					continue
				}
				add := e.T.concat(e.T.str("«"), w, e.T.str("»"))
				if r.widen {
					add = r.loopSym(e, t, k)
				}
				if !strings.HasSuffix(r.render(e.T.concat(nw[k])), r.render(add)) {
					nw[k] = e.T.concat(nw[k], add)
				}
			}
		}
		if len(q.stack) == 1 && r.widen {
			for k, w := range q.w {
				if q.full[k] || w == nil {
					continue
				}
				m := r.loopSym(e, t, k)
				cl := r.cell(e, k)
				old, ok := st.mem.store[cl]
				if !ok {
					old = e.T.str(cut)
				}
				st.mem.store[cl] = appendOnce(e, old, m)
			}
		}
		q.w = nw
		q.full = map[*V]bool{}
		q.stack = q.stack[:len(q.stack)-1]
	}
	st.prop = q
}

// listOrigin tells whose members a list of database fields holds: those of the
// declaration generated ("spec"), of one looked up ("other"), or both.
func listOrigin(e *Engine, st *State, list *V) string {
	got := map[string]bool{}
	seen := map[*V]bool{}
	var members func(v *V)
	members = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Op == "members" && len(v.Args) > 0 {
			if specOf(v.Args[0]) {
				got["spec"] = true
			} else {
				got["other"] = true
			}
			return
		}
		for _, a := range v.Args {
			members(a)
		}
		for _, a := range e.T.alts[v] {
			members(a)
		}
		if w, ok := st.mem.store[v]; ok {
			members(w)
		}
		for k, w := range st.mem.store {
			if (k.Op == "elems" || k.Op == "&[]" || k.Op == "&.") && len(k.Args) > 0 && k.Args[0] == v {
				members(w)
			}
		}
	}
	if list != nil && namedOf(sliceElem(list.T)) == "build.DBField" {
		members(list)
	}
	return strings.Join(sortedSet(got), "+")
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// appendOnce adds what a loop writes to a text that may end with it already.
func appendOnce(e *Engine, w, m *V) *V {
	ps := textParts(w)
	last := ps[len(ps)-1]
	if last == m {
		return w
	}
	if e.textJoin[last] == "" || e.T.altTop[last] {
		return e.T.concat(w, m)
	}
	var nw *V
	for _, a := range e.unfold([]*V{last}, nil) {
		if as := textParts(a); len(as) == 0 || as[len(as)-1] != m {
			a = e.T.concat(a, m)
		}
		a = e.T.concat(append(append([]*V{}, ps[:len(ps)-1]...), a)...)
		if nw == nil {
			nw = a
		} else {
			nw, _ = e.joinText(fmt.Sprintf("mark|%d|%d", m.id, last.id), nw, a)
		}
	}
	return nw
}

// loopSym stands for what a member loop writes into a buffer.
func (r *regClient) loopSym(e *Engine, t Trip, sink *V) *V {
	return e.T.mk("loop", fmt.Sprintf("%s#%d#%d", t.At, t.Ctx, sink.id), types.Typ[types.String], 0)
}

// endSpec records which member loops ran for a declaration.
func (r *regClient) endSpec(e *Engine, st *State) {
	p := st.prop.(*regProp)
	if p.spec == nil {
		return
	}
	r.decls[e.P.instrPos(p.spec.in)+"|"+p.seen] = true
	q := p.clone()
	q.spec, q.seen = nil, ""
	st.prop = q
}

func (p *regProp) see(at string) {
	ks := map[string]bool{at: true}
	for _, x := range strings.Split(p.seen, ";") {
		if x != "" {
			ks[x] = true
		}
	}
	var l []string
	for k := range ks {
		l = append(l, k)
	}
	sort.Strings(l)
	p.seen = strings.Join(l, ";") + ";"
}

// renderList names the list a loop goes over.
func renderList(l *V) string {
	if l == nil {
		return "?"
	}
	switch l.Op {
	case "members":
		return "members(" + renderHole(l.Args[0]) + ")"
	case "field":
		if p := l.typedPath(); !strings.HasPrefix(p, "?") {
			return p
		}
	}
	return l.String()
}

func (r *regClient) record(e *Engine, st *State, f frame, outer string, sink, w *V) Region {
	g := Region{Kind: namedOf(f.elem.T), Outer: outer, Func: fnName(f.c.fn), Text: r.renderOwn(st, f, w), At: e.P.instrPos(f.in), Sink: sink.String(), Root: sink}
	if l := f.lead[sink]; l != nil {
		g.Lead = r.render(l)
	} else if l, ok := st.mem.store[r.cell(e, sink)]; ok {
		g.Lead = r.render(r.tail(e, l, r.maxTop))
	}
	r.out[g.Kind+"\x00"+g.Sink+"\x00"+fmt.Sprint(sink.id)+"\x00"+g.At+"\x00"+g.Lead+"\x00"+g.Text] = g
	return g
}

// renderOwn renders text written for an element; what comes from another member
// than one a loop is at is marked.
func (r *regClient) renderOwn(st *State, f frame, w *V) string {
	var sb strings.Builder
	at := map[*V]bool{f.elem: true}
	for _, x := range st.prop.(*regProp).stack {
		at[x.elem] = true
	}
	for _, p := range textParts(w) {
		t := r.render(p)
		if p.Op != "const" && strings.HasPrefix(t, "‹") && r.foreign(at, f, p) {
			t = "‹other:" + strings.TrimPrefix(t, "‹")
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// foreign: v is computed from a field, item or method that no loop is at.
func (r *regClient) foreign(at map[*V]bool, f frame, v *V) bool {
	found, own := false, false
	seen := map[*V]bool{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil || seen[x] || own {
			return
		}
		seen[x] = true
		if at[x] || r.elems[x] && namedOf(x.T) != namedOf(f.elem.T) {
			own = true
			return
		}
		switch x.Op {
		case "index", "rval":
			switch namedOf(x.T) {
			case "ast.Field", "ast.EnumItem", "ast.FuncType":
				found = true
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(v)
	return found && !own
}

func (r *regClient) tripList() []Trip {
	var ks []string
	for k := range r.trips {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Trip
	for _, k := range ks {
		out = append(out, r.trips[k])
	}
	return out
}

func (r *regClient) LoopExit(e *Engine, st *State, list *V) {
	if e.quiet > 0 {
		return
	}
	p, ok := st.prop.(*regProp)
	if !ok {
		return
	}
	for i := range p.stack {
		if p.stack[i].list == list {
			r.closeTo(e, st, i)
			return
		}
	}
}

func (r *regClient) Edge(e *Engine, st *State, c *Ctx, from, to *ssa.BasicBlock) {
	if e.quiet > 0 {
		return
	}
	p, ok := st.prop.(*regProp)
	if !ok {
		return
	}
	for i := range p.stack {
		f := p.stack[i]
		if f.c != c {
			continue
		}
		if _, call := f.in.(*ssa.Call); call {
			continue
		}
		if l := e.info(c.fn).loop[f.in.Block()]; l != nil && l[from] && !l[to] {
			if r.widen && fails(e, st, c, to) {
				q := p.clone() // nothing is generated
				q.stack, q.w, q.full = q.stack[:i], map[*V]*V{}, map[*V]bool{}
				st.prop = q
				break
			}
			r.closeTo(e, st, i)
			break
		}
	}
	if p := st.prop.(*regProp); p.spec != nil && p.spec.c == c {
		if l := e.info(c.fn).loop[p.spec.in.Block()]; l != nil && l[from] && !l[to] {
			r.endSpec(e, st)
		}
	}
}

// fails: block b only returns an error.
func fails(e *Engine, st *State, c *Ctx, b *ssa.BasicBlock) bool {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) == 0 {
		return false
	}
	x := ret.Results[len(ret.Results)-1]
	if !isErrorType(x.Type()) {
		return false
	}
	if in, ok := x.(ssa.Instruction); ok && in.Block() == b {
		if m, ok := x.(*ssa.MakeInterface); ok {
			x = m.X
			if in, ok := x.(ssa.Instruction); ok && in.Block() == b {
				_, al := x.(*ssa.Alloc)
				_, isS := x.Type().Underlying().(*types.Struct)
				return al || isS
			}
		} else {
			return false
		}
	}
	v := e.val(st, c, x)
	if v.Op == "nil" {
		return false
	}
	if e.isNonNil(v) {
		return true
	}
	f, known := e.decide(st, e.cmp(st, token.EQL, v, e.T.nilv()))
	return known && !f
}

func (r *regClient) Leave(e *Engine, st *State, c *Ctx, ret []*V) {
	if e.quiet > 0 {
		return
	}
	p, ok := st.prop.(*regProp)
	if !ok {
		return
	}
	for i := range p.stack {
		if p.stack[i].c == c {
			r.closeTo(e, st, i)
			break
		}
	}
	if p := st.prop.(*regProp); p.spec != nil && p.spec.c == c {
		if n := len(ret); n > 0 && isErrorType(lastResult(c.fn)) && ret[n-1].Op != "nil" {
			return // generation failed
		}
		r.endSpec(e, st)
	}
}

func lastResult(f *ssa.Function) types.Type {
	r := f.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return r.At(r.Len() - 1).Type()
}

func (r *regClient) regions() []Region {
	var ks []string
	for k := range r.out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Region
	for _, k := range ks {
		out = append(out, r.out[k])
	}
	return out
}

// ---------- rendering

func renderText(v *V) string {
	var sb strings.Builder
	for _, p := range textParts(v) {
		if s, ok := p.constStr(); ok {
			sb.WriteString(s)
			continue
		}
		sb.WriteString("‹" + renderHole(p) + "›")
	}
	return sb.String()
}

func renderHole(v *V) string {
	switch v.Op {
	case "mark":
		return "mark" + fmtInt(v.id)
	case "loop":
		return "loop " + v.S
	case "call":
		n := v.S
		switch n {
		case "build.StringToHumpName":
			n = "Hump"
		case "build.StringToFirstLower":
			n = "lower"
		case "build.StringToUnderlineName":
			n = "under"
		case "build.StringToAllUpper":
			n = "upper"
		}
		var a []string
		for _, x := range v.Args {
			a = append(a, renderText1(x))
		}
		return n + "(" + strings.Join(a, ",") + ")"
	case "field", "as":
		if p := v.typedPath(); !strings.HasPrefix(p, "?") {
			return p
		}
	case "index", "rval":
		return "elem(" + renderHole(v.Args[0]) + ")"
	case "join":
		return "?"
	}
	return v.String()
}

func renderText1(v *V) string {
	if s, ok := v.constStr(); ok {
		return fmt.Sprintf("%q", s)
	}
	if v.Op == "cat" {
		return renderText(v)
	}
	return renderHole(v)
}

// renderAlts is renderText with the texts a joined part may be: ⦃a|b⦄.
func renderAlts(e *Engine, v *V, depth int) string {
	var sb strings.Builder
	for _, p := range textParts(v) {
		if s, ok := p.constStr(); ok {
			sb.WriteString(s)
			continue
		}
		if p.Op == "join" && depth < 3 {
			if as := e.T.alts[p]; len(as) > 0 && !e.T.altTop[p] {
				var o []string
				for _, a := range as {
					o = append(o, renderAlts(e, a, depth+1))
				}
				sort.Strings(o)
				sb.WriteString("⦃" + strings.Join(o, "|") + "⦄")
				continue
			}
		}
		sb.WriteString("‹" + renderHole(p) + "›")
	}
	return sb.String()
}

// holeAlts is renderHole with what joined arguments may be.
func holeAlts(e *Engine, p *V) string {
	if p.Op == "call" && strings.HasPrefix(p.S, "strconv.") && len(p.Args) > 0 && p.Args[0] != nil && p.Args[0].Op == "join" && !e.T.altTop[p.Args[0]] {
		var o []string
		for _, a := range e.T.alts[p.Args[0]] {
			o = append(o, renderText1(a))
		}
		sort.Strings(o)
		return p.S + "(" + strings.Join(o, "|") + ")"
	}
	return renderHole(p)
}

// blocks lists the texts a piece of output may be, from the last place where
// begin occurs to its end.  ok is false if they are too many.
func blocks(e *Engine, w *V, begin string, max int) (out []string, ok bool) {
	seen := map[string]bool{}
	steps := 0
	type cell struct {
		ps   []*V
		up   *cell
		join *V // the joined part being expanded
	}
	type choice struct {
		join, is *V
		up       *choice
	}
	var rec func(c *cell, acc string, ch *choice) bool
	rec = func(c *cell, acc string, ch *choice) bool {
		steps++
		if steps > max {
			return false
		}
		for c != nil && len(c.ps) == 0 {
			c = c.up
		}
		if c == nil {
			return true // begins earlier
		}
		p := c.ps[len(c.ps)-1]
		rest := &cell{c.ps[:len(c.ps)-1], c.up, c.join}
		if s, isC := p.constStr(); isC {
			acc = s + acc
			if i := strings.LastIndex(acc, begin); i >= 0 {
				seen[acc[i:]] = true
				return true
			}
			return rec(rest, acc, ch)
		}
		if p.Op == "join" {
			for x := rest; x != nil; x = x.up {
				if x.join == p {
					return true // once is enough
				}
			}
			for x := ch; x != nil; x = x.up {
				if x.join == p {
					// the same value as before
					return rec(&cell{textParts(x.is), rest, p}, acc, ch)
				}
			}
			if as := e.T.alts[p]; len(as) > 0 && !e.T.altTop[p] {
				for _, a := range as {
					if !rec(&cell{textParts(a), rest, p}, acc, &choice{p, a, ch}) {
						return false
					}
				}
				return true
			}
		}
		return rec(rest, "‹"+holeAlts(e, p)+"›"+acc, ch)
	}
	ok = rec(&cell{ps: textParts(w)}, "", nil)
	return sortedSet(seen), ok
}
