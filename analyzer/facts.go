package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Must-facts: what is known about the syntax tree whenever a function returns
// with a given outcome. Values are named by access paths over the parameters
// ($0.Fields.List[*].Name.Name); facts are "kind|path|path".

// FState is what is known at a point.
type FState struct {
	facts map[string]bool
	vac   map[string]bool   // path prefixes that denote nothing here
	typ   map[string]string // interface path -> possible dynamic types, "A,B"
	from  map[string]string // path -> the places its value was taken from, "p,q"
}

func newFState() *FState {
	return &FState{facts: map[string]bool{}, vac: map[string]bool{}, typ: map[string]string{}, from: map[string]string{}}
}

func (s *FState) clone() *FState {
	t := newFState()
	for k := range s.facts {
		t.facts[k] = true
	}
	for k := range s.vac {
		t.vac[k] = true
	}
	for k, v := range s.typ {
		t.typ[k] = v
	}
	for k, v := range s.from {
		t.from[k] = v
	}
	return t
}

func (s *FState) equal(t *FState) bool {
	if t == nil || len(s.facts) != len(t.facts) || len(s.vac) != len(t.vac) || len(s.typ) != len(t.typ) || len(s.from) != len(t.from) {
		return false
	}
	for k := range s.facts {
		if !t.facts[k] {
			return false
		}
	}
	for k := range s.vac {
		if !t.vac[k] {
			return false
		}
	}
	for k, v := range s.typ {
		if t.typ[k] != v {
			return false
		}
	}
	for k, v := range s.from {
		if t.from[k] != v {
			return false
		}
	}
	return true
}

var anyIndex = regexp.MustCompile(`\[[^\[\]]*\]`)

// under: path p lies under the prefix v; [*] in v stands for every index.
func under(p, v string) bool {
	if strings.HasPrefix(p, v) {
		rest := p[len(v):]
		return rest == "" || strings.HasSuffix(v, "[") || rest[0] == '.' || rest[0] == '[' || rest[0] == '{'
	}
	if !strings.Contains(v, "[*]") {
		return false
	}
	re := regexp.QuoteMeta(v)
	re = strings.ReplaceAll(re, `\[\*\]`, `\[[^\[\]]*\]`)
	m := cachedRe("^" + re).FindString(p)
	if m == "" {
		return false
	}
	rest := p[len(m):]
	return rest == "" || rest[0] == '.' || rest[0] == '[' || rest[0] == '{'
}

var reCache = map[string]*regexp.Regexp{}

func cachedRe(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		reCache[s] = r
	}
	return r
}

func (s *FState) vacuous(p string) bool {
	for v := range s.vac {
		if under(p, v) {
			return true
		}
	}
	// seen as a type that it does not have
	for q, ts := range s.typ {
		if strings.HasPrefix(p, q+".(") {
			rest := p[len(q)+2:]
			if k := strings.IndexByte(rest, ')'); k >= 0 && interTypes(ts, rest[:k]) == "" {
				return true
			}
		}
	}
	return false
}

// inner paths used as keys: a{b} is vacuous when b is
func (s *FState) vacuousDeep(p string) bool {
	if s.vacuous(p) {
		return true
	}
	for i := strings.Index(p, "{"); i >= 0; {
		d, j := 0, i
		for ; j < len(p); j++ {
			if p[j] == '{' {
				d++
			} else if p[j] == '}' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j < len(p) && s.vacuousDeep(p[i+1:j]) {
			return true
		}
		k := strings.Index(p[i+1:], "{")
		if k < 0 {
			break
		}
		i += 1 + k
	}
	return false
}

// parentVacuous: what p would be a part of does not exist.
func (s *FState) parentVacuous(p string) bool {
	d := 0
	for i := len(p) - 1; i > 0; i-- {
		switch p[i] {
		case '}', ']', ')':
			d++
		case '{', '[', '(':
			d--
		}
		if d > 0 || !strings.ContainsRune(".[{", rune(p[i])) {
			continue
		}
		q := p[:i]
		if strings.HasPrefix(p[i:], ".(") {
			return s.vacuousDeep(p)
		}
		if p[i] == '[' {
			q = p[:i+1]
		}
		return s.vacuousDeep(q)
	}
	return false
}

// strict facts say that something exists: its not existing does not make them true.
var strict = map[string]bool{"nonnil": true, "allset": true, "set": true}

func (s *FState) holds(f string) bool {
	if s.facts[f] {
		return true
	}
	ps := strings.Split(f, "|")
	for k, p := range ps[1:] {
		if strict[ps[0]] && k == 0 {
			if s.parentVacuous(p) {
				return true
			}
			continue
		}
		if s.vacuousDeep(p) {
			return true
		}
	}
	if ps[0] == "neq" && s.facts["neq|"+ps[2]+"|"+ps[1]] {
		return true
	}
	if ps[0] == "neq" {
		for g := range s.facts {
			if strings.HasPrefix(g, "same|") {
				q := strings.Split(g, "|")
				a := strings.ReplaceAll(ps[1], "["+q[1]+"]", "["+q[2]+"]")
				b := strings.ReplaceAll(ps[2], "["+q[1]+"]", "["+q[2]+"]")
				if a == b {
					return true
				}
			}
		}
	}
	// instances of a universal fact
	if strings.Contains(f, "[#") || strings.Contains(f, "{#") {
		for g := range s.facts {
			if strings.HasPrefix(g, ps[0]+"|") && strings.Contains(g, "[*]") {
				re := strings.ReplaceAll(regexp.QuoteMeta(g), `\[\*\]`, `\[[^\[\]]*\]`)
				if cachedRe("^" + re + "$").MatchString(f) {
					return true
				}
			}
		}
	}
	return false
}

func meetF(a, b *FState) *FState {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	t := newFState()
	for f := range a.facts {
		if b.holds(f) {
			t.facts[f] = true
		}
	}
	for f := range b.facts {
		if a.holds(f) {
			t.facts[f] = true
		}
	}
	for v := range a.vac {
		if b.vacuousDeep(v) {
			t.vac[v] = true
		}
	}
	for v := range b.vac {
		if a.vacuousDeep(v) {
			t.vac[v] = true
		}
	}
	for p, x := range a.typ {
		if y, ok := b.typ[p]; ok {
			t.typ[p] = unionTypes(x, y)
		} else if b.vacuousDeep(p) {
			t.typ[p] = x
		}
	}
	for p, y := range b.typ {
		if _, ok := a.typ[p]; !ok && a.vacuousDeep(p) {
			t.typ[p] = y
		}
	}
	for p, x := range a.from {
		if y, ok := b.from[p]; ok {
			t.from[p] = unionTypes(x, y)
		} else if b.parentVacuous(p) {
			t.from[p] = x
		}
	}
	for p, y := range b.from {
		if _, ok := a.from[p]; !ok && a.parentVacuous(p) {
			t.from[p] = y
		}
	}
	return t
}

func unionTypes(a, b string) string {
	m := map[string]bool{}
	for _, x := range strings.Split(a, ",") {
		m[x] = true
	}
	for _, x := range strings.Split(b, ",") {
		m[x] = true
	}
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// mapPaths rewrites every path of the state.
func (s *FState) mapPaths(f func(string) string) *FState {
	t := newFState()
	for k := range s.facts {
		ps := strings.Split(k, "|")
		for i := 1; i < len(ps); i++ {
			ps[i] = f(ps[i])
		}
		t.facts[strings.Join(ps, "|")] = true
	}
	for k := range s.vac {
		t.vac[f(k)] = true
	}
	for k, v := range s.typ {
		t.typ[f(k)] = v
	}
	for k, v := range s.from {
		t.from[f(k)] = mapList(v, f)
	}
	return t
}

func (s *FState) addAll(t *FState) {
	for k := range t.facts {
		s.facts[k] = true
	}
	for k := range t.vac {
		s.vac[k] = true
	}
	for k, v := range t.typ {
		if o, ok := s.typ[k]; ok {
			v = interTypes(o, v)
		}
		s.typ[k] = v
	}
	for k, v := range t.from {
		s.from[k] = v
	}
}

func interTypes(a, b string) string {
	m := map[string]bool{}
	for _, x := range strings.Split(a, ",") {
		m[x] = true
	}
	var l []string
	for _, x := range strings.Split(b, ",") {
		if m[x] {
			l = append(l, x)
		}
	}
	return strings.Join(l, ",")
}

// contradiction: the state describes no execution.
func (s *FState) contradiction() bool {
	for p, ts := range s.typ {
		if s.vacuousDeep(p) {
			return true
		}
		left := ""
		for _, t := range strings.Split(ts, ",") {
			if t != "" && !s.vacuous(p+".("+t+")") {
				left += "," + t
			}
		}
		if left == "" {
			return true
		}
		s.typ[p] = left[1:]
	}
	for f := range s.facts {
		if strings.HasPrefix(f, "nonnil|") && s.vacuous(f[7:]) && !s.parentVacuous(f[7:]) {
			return true
		}
	}
	return false
}

func mapList(l string, f func(string) string) string {
	m := map[string]bool{}
	for _, x := range strings.Split(l, ",") {
		m[f(x)] = true
	}
	var o []string
	for x := range m {
		o = append(o, x)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

// drop removes what mentions a path for which bad holds.
func (s *FState) drop(bad func(string) bool) {
	for f := range s.facts {
		ref := strings.HasPrefix(f, "ref:")
		for _, p := range strings.Split(f, "|")[1:] {
			if bad(p) || ref && (bad(p+".Obj") || bad(p+".Name")) {
				delete(s.facts, f)
				break
			}
		}
	}
	for v := range s.vac {
		if bad(v) {
			delete(s.vac, v)
		}
	}
	for p := range s.typ {
		if bad(p) {
			delete(s.typ, p)
		}
	}
	for p, l := range s.from {
		gone := bad(p)
		for _, x := range strings.Split(l, ",") {
			gone = gone || bad(x)
		}
		if gone {
			delete(s.from, p)
		}
	}
}

// FactEngine computes the summaries.
type FactEngine struct {
	P      *Program
	F      *Flow
	ids    map[*ssa.Function]int
	sum    map[*ssa.Function]map[string]*FState
	busy   map[*ssa.Function]bool
	ret    map[*ssa.Function]string
	retB   map[*ssa.Function]bool
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*floop
	wr     map[*ssa.Function]map[weffect]bool
	meth   map[string]*ssa.Function
	at     func(fn *ssa.Function, in ssa.Instruction, s *FState) // observer
	derive func(s *FState)                                       // facts that follow from others
	lblk   map[*ssa.Function]map[*ssa.BasicBlock]bool
	nFn    int
	mapIn  map[string]*ssa.BasicBlock // where a map of a function is made
	lists  map[string]ssa.Value       // lists built in a function
	conc   map[string]string          // fields of the tree that have one concrete type: VType -> VarType
}

type floop struct {
	id    string // "#f.h"
	body  map[*ssa.BasicBlock]bool
	list  ssa.Value // what is ranged over (nil: a map)
	idx   map[ssa.Value]bool
	from  ssa.Value // the loop starts behind this index
	below ssa.Value // the loop ends before this index of an outer loop
	butl  bool      // stops before the last element
	exit  int       // successor of the header when exhausted
	m     ssa.Value // map ranged over
	next  *ssa.Next
	valid bool
}

func newFactEngine(F *Flow) *FactEngine {
	E := &FactEngine{P: F.P, F: F, ids: map[*ssa.Function]int{}, sum: map[*ssa.Function]map[string]*FState{}, busy: map[*ssa.Function]bool{}, ret: map[*ssa.Function]string{}, retB: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*floop{}, wr: map[*ssa.Function]map[weffect]bool{}, meth: map[string]*ssa.Function{}, lblk: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, mapIn: map[string]*ssa.BasicBlock{}, lists: map[string]ssa.Value{}}
	E.conc = concreteFields(F.P)
	for i, f := range F.Fns {
		E.ids[f] = i
		if f.Signature.Recv() != nil {
			E.meth[tname(f.Signature.Recv().Type())+"."+f.Name()] = f
		}
	}
	for _, f := range F.P.Funcs {
		if f.Signature.Recv() != nil {
			k := tname(f.Signature.Recv().Type()) + "." + f.Name()
			if E.meth[k] == nil {
				E.meth[k] = f
			}
		}
	}
	return E
}

// concreteFields lists the fields of the tree whose type is no interface, in every node that has them.
func concreteFields(P *Program) map[string]string {
	m := map[string]string{}
	bad := map[string]bool{}
	for _, p := range P.SSA {
		if p.Pkg.Name() != "ast" {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				pt, ok := f.Type().(*types.Pointer)
				if !ok {
					bad[f.Name()] = true
					continue
				}
				t := tname(pt)
				if o, ok := m[f.Name()]; ok && o != t {
					bad[f.Name()] = true
				}
				m[f.Name()] = t
			}
		}
	}
	for f := range bad {
		delete(m, f)
	}
	return m
}

func tname(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func (E *FactEngine) id(f *ssa.Function) int {
	if _, ok := E.ids[f]; !ok {
		E.ids[f] = 10000 + len(E.ids)
	}
	return E.ids[f]
}

// loopsOf recognises the counted loops of f.
func (E *FactEngine) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*floop {
	if l, ok := E.loops[f]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*floop{}
	E.loops[f] = out
	for h, body := range naturalLoops(f) {
		L := &floop{id: fmt.Sprintf("#%d.%d", E.id(f), h.Index), body: body, idx: map[ssa.Value]bool{}}
		out[h] = L
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if e, ok := iff.Cond.(*ssa.Extract); ok && e.Index == 0 {
			if nx, ok := e.Tuple.(*ssa.Next); ok && !nx.IsString {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					L.m, L.next, L.valid = r.X, nx, true
					L.exit = 1
				}
			}
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := c.X, c.Y, c.Op
		if op == token.GTR {
			x, y, op = y, x, token.LSS
		}
		if op == token.NEQ {
			op = token.LSS
		}
		if op != token.LSS || !body[h.Succs[0]] || body[h.Succs[1]] {
			continue
		}
		// the bound
		n := y
		if b, ok := n.(*ssa.BinOp); ok && b.Op == token.SUB {
			if k, ok := constInt(b.Y); ok && k == 1 {
				L.butl = true
				n = b.X
			}
		}
		if k, ok := constInt(y); ok {
			_ = k
			continue
		}
		if cl, ok := n.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				continue
			}
			L.list = cl.Call.Args[0]
		} else if L.butl || definedIn(n, body) {
			continue
		} else {
			L.below = n
		}
		// the index
		var ph *ssa.Phi
		rangeForm := false
		if p, ok := x.(*ssa.Phi); ok && p.Block() == h {
			ph = p
		} else if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if k, ok := constInt(b.Y); ok && k == 1 {
					ph = p
					rangeForm = true
				}
			}
		}
		if ph == nil {
			continue
		}
		good := true
		var init ssa.Value
		for i, e := range ph.Edges {
			if body[h.Preds[i]] {
				if rangeForm {
					if e != x {
						good = false
					}
				} else if b, ok := e.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
					good = false
				} else if k, ok := constInt(b.Y); !ok || k != 1 {
					good = false
				}
			} else if init == nil {
				init = e
			} else if init != e {
				good = false
			}
		}
		if !good || init == nil {
			continue
		}
		k, isC := constInt(init)
		switch {
		case rangeForm && isC && k == -1, !rangeForm && isC && k == 0:
		case !rangeForm && !isC:
			b, ok := init.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				continue
			}
			if k, ok := constInt(b.Y); !ok || k != 1 {
				continue
			}
			if L.below != nil {
				continue
			}
			L.from = b.X
		default:
			continue
		}
		L.idx[x] = true
		L.exit, L.valid = 1, true
	}
	return out
}

// path names a value.
func (E *FactEngine) path(v ssa.Value, s *FState) string { return E.pathD(v, s, 0) }

func (E *FactEngine) local(v ssa.Value) string {
	f := v.Parent()
	if f == nil {
		return "%?" + v.Name()
	}
	m := ""
	if _, ok := v.(*ssa.MakeMap); ok {
		m = "°" // a map of its own
	}
	return fmt.Sprintf("%%%d.%s%s", E.id(f), v.Name(), m)
}

func (E *FactEngine) pathD(v ssa.Value, s *FState, d int) string {
	if d > 40 {
		return E.local(v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("$%d", i)
			}
		}
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return "'" + strings.NewReplacer("|", "¦", "[", "⟦", "]", "⟧", "{", "⟨", "}", "⟩").Replace(constant.StringVal(x.Value)) + "'"
		}
		return x.Value.String()
	case *ssa.Global:
		return "@" + x.Pkg.Pkg.Name() + "." + x.Name()
	case *ssa.Alloc:
		return E.local(v)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return E.addr(x.X, s, d+1)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return "&" + E.addr(v, s, d+1)
	case *ssa.Field:
		return E.norm(E.pathD(x.X, s, d+1)+"."+structOf(x.X.Type()).Field(x.Field).Name(), s)
	case *ssa.TypeAssert:
		if types.IsInterface(x.AssertedType) {
			return E.pathD(x.X, s, d+1)
		}
		return E.norm(E.pathD(x.X, s, d+1)+".("+tname(x.AssertedType)+")", s)
	case *ssa.ChangeInterface:
		return E.pathD(x.X, s, d+1)
	case *ssa.ChangeType:
		return E.pathD(x.X, s, d+1)
	case *ssa.MakeInterface:
		return E.pathD(x.X, s, d+1)
	case *ssa.Convert:
		if isStringT(x.Type()) && isStringT(x.X.Type()) {
			return E.pathD(x.X, s, d+1)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return E.elem(E.pathD(x.X, s, d+1), E.pathD(x.Index, s, d+1))
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				if types.IsInterface(t.AssertedType) {
					return E.pathD(t.X, s, d+1)
				}
				return E.norm(E.pathD(t.X, s, d+1)+".("+tname(t.AssertedType)+")", s)
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return E.elem(E.pathD(t.X, s, d+1), E.pathD(t.Index, s, d+1))
			}
		case *ssa.Next:
			for _, L := range E.loopsOf(x.Parent()) {
				if L.next == t && L.m != nil {
					m := E.pathD(L.m, s, d+1)
					if x.Index == 1 {
						return "keys(" + m + ")[" + L.id + "]"
					}
					return m + "{" + L.id + "}"
				}
			}
		}
	case *ssa.Phi, *ssa.BinOp:
		for _, L := range E.loopsOf(v.Parent()) {
			if L.valid && L.idx[v] {
				return L.id
			}
		}
		if ph, ok := v.(*ssa.Phi); ok {
			same := ""
			for _, e := range ph.Edges {
				if e == v {
					continue
				}
				if _, isPhi := e.(*ssa.Phi); isPhi && d > 10 {
					return E.local(v)
				}
				p := E.pathD(e, s, d+8)
				if same == "" {
					same = p
				} else if same != p {
					return E.local(v)
				}
			}
			if same != "" {
				return same
			}
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return E.pathD(x.X, s, d+1)
		}
	case *ssa.Call:
		if p := E.callPath(&x.Call, s, d); p != "" {
			return p
		}
	}
	return E.local(v)
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct)
}

func (E *FactEngine) addr(v ssa.Value, s *FState, d int) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return E.norm(E.pathD(x.X, s, d+1)+"."+structOf(x.X.Type()).Field(x.Field).Name(), s)
	case *ssa.IndexAddr:
		l := E.pathD(x.X, s, d+1)
		if strings.HasPrefix(l, "%") {
			E.lists[l] = x.X
		}
		for _, L := range E.loopsOf(v.Parent()) {
			if L.valid && L.idx[x.Index] && L.below != nil {
				return l + "[<" + E.pathD(L.below, s, d+1) + L.id + "]"
			}
			if !L.valid || !L.idx[x.Index] || L.list == nil {
				continue
			}
			// the rest of a list behind an index, or the part before it
			if sl, ok := x.X.(*ssa.Slice); ok && x.X == L.list && L.from == nil && !L.butl && isSliceT(sl.X.Type()) && sl.Max == nil {
				base := E.pathD(sl.X, s, d+1)
				switch {
				case sl.Low == nil && sl.High == nil:
					return base + "[" + L.id + "]"
				case sl.Low == nil:
					return base + "[<" + E.pathD(sl.High, s, d+1) + L.id + "]"
				case sl.High == nil:
					if b, ok := sl.Low.(*ssa.BinOp); ok && b.Op == token.ADD {
						if k, ok := constInt(b.Y); ok && k == 1 {
							return base + "[>" + E.pathD(b.X, s, d+1) + L.id + "]"
						}
					}
				}
			}
			if E.pathD(L.list, s, d+1) != l {
				return l + "[?" + x.Index.Name() + "]"
			}
			switch {
			case L.from != nil:
				return l + "[>" + E.pathD(L.from, s, d+1) + L.id + "]"
			case L.butl:
				return l + "[-" + L.id + "]"
			}
			return l + "[" + L.id + "]"
		}
		return l + "[?" + E.pathD(x.Index, s, d+1) + "]"
	case *ssa.Alloc:
		var val ssa.Value
		n := 0
		for _, st := range cellStores(x) {
			n++
			val = st.Val
		}
		if n == 1 && val.Parent() == x.Parent() {
			return E.pathD(val, s, d+1)
		}
		return E.local(v)
	case *ssa.Global:
		return "@" + x.Pkg.Pkg.Name() + "." + x.Name()
	}
	return "*" + E.pathD(v, s, d+1)
}

func isTrue(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func definedIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && body[in.Block()]
}

// elem is an element of a map; a lookup at one of the map's own keys is that element.
func (E *FactEngine) elem(m, k string) string {
	if strings.HasPrefix(k, "keys("+m+")[#") {
		return m + "{" + strings.TrimSuffix(k[len("keys("+m+")["):], "]") + "}"
	}
	return m + "{" + k + "}"
}

var methodRe = regexp.MustCompile(`\.\((\w+)\)\.(\w+)\(\)`)
var openMethodRe = regexp.MustCompile(`^(.*)\.(\w+)\(\)(.*)$`)

// norm resolves calls of getters on values of known type.
func (E *FactEngine) norm(p string, s *FState) string {
	for f, t := range E.conc {
		p = strings.ReplaceAll(p, "."+f+".("+t+")", "."+f)
		if i := strings.Index(p, "."+f+"."); i >= 0 && strings.Contains(p[i:], "()") {
			// a getter of a field of known type: below as for any other
			p = cachedRe(`\.`+f+`\.(\w+)\(\)`).ReplaceAllString(p, "."+f+".("+t+").$1()")
		}
	}
	was := p
	p = E.normD(p, s)
	if p != was {
		for f, t := range E.conc {
			p = strings.ReplaceAll(p, "."+f+".("+t+")", "."+f)
		}
	}
	return p
}

func (E *FactEngine) normD(p string, s *FState) string {
	for i := 0; i < 10; i++ {
		m := methodRe.FindStringSubmatchIndex(p)
		if m == nil {
			break
		}
		t, name := p[m[2]:m[3]], p[m[4]:m[5]]
		f := E.meth[t+"."+name]
		r := ""
		if f != nil {
			r = E.retPath(f)
		}
		if r == "" || !strings.HasPrefix(r, "$0") || strings.Count(r, "$") > 1 {
			break
		}
		recv := p[:m[3]+1]
		p = recv + r[2:] + p[m[1]:]
	}
	if s != nil {
		if m := openMethodRe.FindStringSubmatch(p); m != nil {
			// the path that the call is made on begins behind the last open brace
			head := ""
			for i, d := len(m[1])-1, 0; i >= 0; i-- {
				if m[1][i] == '}' {
					d++
				} else if m[1][i] == '{' {
					if d--; d < 0 {
						head, m[1] = m[1][:i+1], m[1][i+1:]
						break
					}
				}
			}
			if head != "" {
				if q := E.norm(m[1]+"."+m[2]+"()", s); !strings.Contains(q, "()") {
					return E.norm(head+q+m[3], s)
				}
				return p
			}
			if ts := s.typ[m[1]]; ts != "" && !strings.Contains(ts, ",") {
				q := m[1] + ".(" + ts + ")." + m[2] + "()" + m[3]
				if r := E.norm(q, nil); !strings.Contains(r, "()") {
					return r
				}
			}
		}
	}
	return p
}

func (E *FactEngine) callPath(cc *ssa.CallCommon, s *FState, d int) string {
	if cc.IsInvoke() {
		if len(cc.Args) == 0 {
			return E.norm(E.pathD(cc.Value, s, d+1)+"."+cc.Method.Name()+"()", s)
		}
		return ""
	}
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return ""
	}
	if E.isKeys(g) && len(cc.Args) == 1 {
		return "keys(" + E.pathD(cc.Args[0], s, d+1) + ")"
	}
	r := E.retPath(g)
	if r == "" {
		return ""
	}
	var as []string
	for _, a := range cc.Args {
		as = append(as, E.pathD(a, s, d+1))
	}
	return E.subst(r, as, "", s)
}

// retPath: the function just returns something reachable from its parameters.
func (E *FactEngine) retPath(g *ssa.Function) string {
	if r, ok := E.ret[g]; ok {
		return r
	}
	if E.retB[g] {
		return ""
	}
	E.retB[g] = true
	defer delete(E.retB, g)
	res := ""
	n := 0
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) != 1 {
			res = ""
			break
		}
		p := E.path(r.Results[0], nil)
		n++
		if n > 1 && p != res || strings.Contains(p, "%") || strings.Contains(p, "#") || !strings.Contains(p, "$") || strings.HasPrefix(p, "&") {
			res = ""
			break
		}
		res = p
	}
	// only getters: nothing else of note may happen
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := rootOf(x.Addr).(*ssa.Alloc); !local {
					res = ""
				}
			case *ssa.MapUpdate, *ssa.Send:
				res = ""
			}
		}
	}
	E.ret[g] = res
	return res
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// isKeys: the function returns exactly the keys of the map it is given.
func (E *FactEngine) isKeys(g *ssa.Function) bool {
	if len(g.Params) != 1 || g.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := g.Params[0].Type().Underlying().(*types.Map); !ok {
		return false
	}
	if _, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for h, L := range E.loopsOf(g) {
		if !L.valid || L.next == nil || L.m != ssa.Value(g.Params[0]) {
			continue
		}
		var key ssa.Value
		for _, r := range *L.next.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
				key = e
			}
		}
		if key == nil {
			return false
		}
		// the key is stored or appended in every round, and nothing leaves the loop early
		for b := range L.body {
			for _, sc := range b.Succs {
				if !L.body[sc] && b != h {
					return false
				}
			}
		}
		for _, r := range *key.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Val != key {
				continue
			}
			all := true
			for _, p := range h.Preds {
				if L.body[p] && p != st.Block() && !st.Block().Dominates(p) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

var paramRe = regexp.MustCompile(`\$\d+`)

// subst puts the arguments' paths in the place of the parameters'.
func (E *FactEngine) subst(p string, args []string, ret string, s *FState) string {
	p = paramRe.ReplaceAllStringFunc(p, func(m string) string {
		k := 0
		fmt.Sscanf(m[1:], "%d", &k)
		if k < len(args) {
			return args[k]
		}
		return m
	})
	if ret != "" && strings.HasPrefix(p, "ret") && (len(p) == 3 || p[3] == '.' || p[3] == '[' || p[3] == '{') {
		p = ret + p[3:]
	}
	// a lookup at a map's own key
	for {
		i := strings.Index(p, "{keys(")
		if i < 0 {
			break
		}
		d, j := 0, i
		for ; j < len(p); j++ {
			if p[j] == '{' {
				d++
			}
			if p[j] == '}' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j == len(p) {
			break
		}
		q := E.elem(p[:i], p[i+1:j])
		if q == p[:j+1] {
			break
		}
		p = q + p[j+1:]
	}
	return E.norm(p, s)
}

// --- the dataflow ----------------------------------------------------------

// summary: what holds when g returns with each outcome.
func (E *FactEngine) summary(g *ssa.Function) map[string]*FState {
	if s, ok := E.sum[g]; ok {
		return s
	}
	if E.busy[g] {
		return nil
	}
	E.busy[g] = true
	E.nFn++
	out := E.run(g)
	delete(E.busy, g)
	id := fmt.Sprintf("%d.", E.id(g))
	for _, s := range out {
		s.drop(func(p string) bool {
			return strings.Contains(p, "%"+id) || strings.Contains(p, "#"+id) || strings.Contains(p, "[?")
		})
	}
	if E.at == nil {
		E.sum[g] = out
	}
	E.sum[g] = out
	return out
}

func (E *FactEngine) run(f *ssa.Function) map[string]*FState {
	loops := E.loopsOf(f)
	// edge states
	type edge struct{ p, s *ssa.BasicBlock }
	edges := map[edge]*FState{}
	iter := map[*ssa.BasicBlock]*FState{} // facts of every finished round
	dead := map[edge]bool{}
	in := map[*ssa.BasicBlock]*FState{}
	order := rpo(f)
	outcome := map[string]*FState{}
	pass := 0
	process := func(final bool) bool {
		changed := false
		for _, b := range order {
			var st *FState
			if b == f.Blocks[0] {
				st = newFState()
			} else {
				for _, p := range b.Preds {
					e := edges[edge{p, b}]
					if e == nil {
						continue // not reached (yet)
					}
					x := e
					if L := loops[b]; L != nil && L.body[p] {
						x = e.clone()
						x.drop(func(q string) bool { return strings.Contains(q, L.id) && boundedId(q, L.id) })
					}
					if st == nil {
						st = x.clone()
					} else {
						st = meetF(st, x)
					}
				}
				if st == nil {
					continue
				}
			}
			if L := loops[b]; L != nil {
				var it *FState
				for _, p := range b.Preds {
					if e := edges[edge{p, b}]; L.body[p] && e != nil {
						if it == nil {
							it = e.clone()
						} else {
							it = meetF(it, e)
						}
					}
				}
				iter[b] = it
			}
			if o := in[b]; o == nil || !st.equal(o) {
				changed = true
				in[b] = st.clone()
			}
			cur := st.clone()
			for _, i := range b.Instrs {
				if E.at != nil && final {
					E.at(f, i, cur)
				}
				E.instr(f, i, cur)
			}
			last := b.Instrs[len(b.Instrs)-1]
			for k, sc := range b.Succs {
				u := cur.clone()
				ok := true
				if iff, isIf := last.(*ssa.If); isIf {
					ok = E.assume(iff.Cond, k == 0, u, b, func(p *ssa.BasicBlock) *FState { return edges[edge{p, b}] })
				}
				if L := loops[b]; L != nil && L.valid && k == L.exit && iter[b] != nil {
					E.generalise(L, iter[b], u)
				} else if L != nil && L.valid && k == L.exit && pass < 6 {
					// the rounds are not known yet
					continue
				} else if L != nil && L.valid && k == L.exit {
					// no round was ever finished: only the empty list gets here
					E.generaliseEmpty(L, u)
				}
				if ok && u.contradiction() {
					ok = false
				}
				if ok && E.derive != nil {
					E.derive(u)
				}
				ed := edge{b, sc}
				if !ok {
					if edges[ed] != nil {
						changed = true
					}
					edges[ed] = nil
					dead[ed] = true
					continue
				}
				edges[ed] = u
			}
			if r, ok := last.(*ssa.Return); ok && final {
				E.outcomes(f, r, cur, outcome, func(p *ssa.BasicBlock) *FState { return edges[edge{p, b}] })
			}
		}
		return changed
	}
	for process(false) || pass < 8 {
		pass++
		if pass > 80 {
			return map[string]*FState{}
		}
	}
	process(true)
	return outcome
}

func boundedId(q, id string) bool {
	for i := 0; ; {
		k := strings.Index(q[i:], id)
		if k < 0 {
			return false
		}
		e := i + k + len(id)
		if e == len(q) || q[e] < '0' || q[e] > '9' {
			return true
		}
		i = e
	}
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// generalise turns what held in every round into facts about all elements.
func (E *FactEngine) generalise(L *floop, it *FState, u *FState) {
	gen := func(p string) string {
		p = strings.ReplaceAll(p, "[-"+L.id+"]", "[*]")
		p = strings.ReplaceAll(p, "["+L.id+"]", "[*]")
		p = strings.ReplaceAll(p, "{"+L.id+"}", "{*}")
		p = strings.ReplaceAll(p, L.id+"]", "]")
		return p
	}
	has := func(p string) bool { return boundedId(p, L.id) }
	for f := range it.facts {
		ps := strings.Split(f, "|")
		use := false
		for _, p := range ps[1:] {
			use = use || has(p)
		}
		if !use {
			continue
		}
		// a list element against all later ones
		if ps[0] == "neq" && len(ps) == 3 {
			if d := distinctOf(ps[1], ps[2], L); d != "" {
				u.facts[d] = true
				continue
			}
			if d := distinctOf(ps[2], ps[1], L); d != "" {
				u.facts[d] = true
				continue
			}
		}
		if ps[0] == "notin" && it.facts["added|"+ps[1]+"|"+ps[2]] && strings.HasPrefix(ps[1], "%") && E.mapIn[ps[1]] != nil && !L.body[E.mapIn[ps[1]]] {
			q := gen(ps[2])
			u.facts["distinct|"+q+"|"+q] = true
			continue
		}
		if L.butl || ps[0] == "nonnil" && strings.HasPrefix(ps[1], "%") || ps[0] == "same" || ps[0] == "added" || ps[0] == "eq" && false {
			continue
		}
		var q []string
		for _, p := range ps[1:] {
			q = append(q, gen(p))
		}
		g := ps[0] + "|" + strings.Join(q, "|")
		if boundedId(g, L.id) {
			continue
		}
		u.facts[g] = true
	}
	if L.butl {
		return
	}
	for v := range it.vac {
		if has(v) {
			if g := gen(v); !boundedId(g, L.id) {
				u.vac[g] = true
			}
		}
	}
	for p, t := range it.typ {
		if has(p) {
			if g := gen(p); !boundedId(g, L.id) {
				u.typ[g] = t
			}
		}
	}
	for p, l := range it.from {
		if has(p) {
			g, m := gen(p), mapList(l, gen)
			if !boundedId(g, L.id) && !boundedId(m, L.id) {
				u.from[g] = m
			}
		}
	}
	// a universal type statement is not one about an existing value
	for p := range u.typ {
		if strings.Contains(p, "[*]") || strings.Contains(p, "{*}") {
			u.facts["all:"+u.typ[p]+"|"+p] = true
			delete(u.typ, p)
		}
	}
	for f := range u.facts {
		if strings.HasPrefix(f, "nonnil|") && (strings.Contains(f, "[*]") || strings.Contains(f, "{*}")) {
			delete(u.facts, f)
			u.facts["allset|"+f[7:]] = true
		}
	}
}

func (E *FactEngine) generaliseEmpty(L *floop, u *FState) {
	if L.list != nil && L.from == nil && !L.butl {
		u.vac[E.path(L.list, u)+"["] = true
	}
}

// distinctOf: a is about the elements behind the current one of loop L, b about the current one.
func distinctOf(a, b string, L *floop) string {
	// a = l[>#L].x (all j > i) or l[#K].x still ranging over all (generalised to [*])
	for _, mark := range []string{"[>" + L.id + "]", "[<" + L.id + "]"} {
		i := strings.Index(a, mark)
		if i < 0 {
			continue
		}
		l, fa := a[:i], a[i+len(mark):]
		for _, m2 := range []string{"[" + L.id + "]", "[-" + L.id + "]"} {
			if strings.HasPrefix(b, l+m2) {
				fb := b[len(l)+len(m2):]
				if !strings.Contains(fa+fb, L.id) {
					return "distinct|" + l + "[*]" + fa + "|" + l + "[*]" + fb
				}
			}
		}
	}
	return ""
}

// inLoop is the set of blocks of f that lie in a loop.
func (E *FactEngine) inLoop(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := E.lblk[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	for _, body := range naturalLoops(f) {
		for b := range body {
			m[b] = true
		}
	}
	E.lblk[f] = m
	return m
}

// instr applies the effect of an instruction.
func (E *FactEngine) instr(f *ssa.Function, in ssa.Instruction, s *FState) {
	if v, ok := in.(ssa.Value); ok && E.inLoop(f)[in.Block()] {
		// a new value under the old name
		n := fmt.Sprintf("%%%d.%s", E.id(f), v.Name())
		s.drop(func(q string) bool { return boundedId(q, n) })
	}
	switch x := in.(type) {
	case *ssa.Store:
		p := E.addr(x.Addr, s, 0)
		if _, ok := x.Addr.(*ssa.Alloc); ok {
			return
		}
		v := E.path(x.Val, s)
		s.drop(func(q string) bool { return under(q, p) || strings.Contains(q, p+".") || strings.Contains(q, p+"[") })
		if v != p && !isNilConst(x.Val) {
			t := newFState()
			for k := range s.facts {
				ps := strings.Split(k, "|")
				hit := false
				for i := 1; i < len(ps); i++ {
					if under(ps[i], v) {
						ps[i] = p + ps[i][len(v):]
						hit = true
					}
				}
				if hit {
					t.facts[strings.Join(ps, "|")] = true
				}
			}
			for k := range s.vac {
				if under(k, v) {
					t.vac[p+k[len(v):]] = true
				}
			}
			for k, ty := range s.typ {
				if under(k, v) {
					t.typ[p+k[len(v):]] = ty
				}
			}
			for k, ty := range s.from {
				if under(k, v) {
					t.from[p+k[len(v):]] = ty
				}
			}
			if _, ok := t.from[p]; !ok && !strings.HasPrefix(v, "%") {
				t.from[p] = v
			}
			s.addAll(t)
			s.facts["set|"+p+"|"+v] = true
			if known := E.knownNonNil(x.Val, v, s); known {
				s.facts["nonnil|"+p] = true
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk && !types.IsInterface(x.AssertedType) {
			// it panics otherwise
			p, tn := E.path(x.X, s), tname(x.AssertedType)
			if !strings.HasPrefix(p, "%") {
				if o, ok := s.typ[p]; ok {
					tn = interTypes(o, tn)
				}
				if tn != "" {
					s.typ[p] = tn
					s.facts["nonnil|"+p] = true
				}
			}
		}
	case *ssa.MapUpdate:
		m, k := E.path(x.Map, s), E.path(x.Key, s)
		for f := range s.facts {
			// what was not in the map may be now, except for the key just tested
			if strings.HasPrefix(f, "notin|"+m+"|") && f != "notin|"+m+"|"+k {
				delete(s.facts, f)
			}
		}
		s.drop(func(q string) bool { return strings.Contains(q, m+"{") })
		if b, isB := x.Map.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic); !isB || b.Info()&types.IsBoolean == 0 || isTrue(x.Value) {
			s.facts["added|"+m+"|"+k] = true
			E.mapIn[m] = nil
			if mm, ok := x.Map.(*ssa.MakeMap); ok {
				E.mapIn[m] = mm.Block()
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				for _, h := range E.F.callees(x) {
					for w := range E.writes(h, map[*ssa.Function]bool{}) {
						E.kill(s, weffect{"", w.field, w.mapUpd})
					}
				}
			}
			return
		}
		if len(g.Blocks) == 0 {
			return
		}
		E.forget(s, &x.Call)
		if g.Signature.Results().Len() == 0 {
			E.apply(&x.Call, "", "ret", s)
		}
	}
}

func (E *FactEngine) knownNonNil(v ssa.Value, p string, s *FState) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface:
		return true
	}
	return s.holds("nonnil|" + p)
}

// An effect is a store to a field or an element of a map: the path stored to
// ("" when it has none over the parameters) and the name of the field.
type weffect struct {
	path, field string
	mapUpd      bool
}

// forget drops what a call may change. Stores are told apart by their access
// paths: the syntax tree is a tree, so different paths name different nodes;
// where a path leaves the tree (Obj, Decl, Data, Scope) or is not known, every
// path that ends in the field is dropped.
func (E *FactEngine) forget(s *FState, cc *ssa.CallCommon) {
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !E.P.isRepoFunc(g) {
		return
	}
	ws := E.writes(g, map[*ssa.Function]bool{})
	if len(ws) == 0 {
		return
	}
	var args []string
	for _, a := range cc.Args {
		args = append(args, E.path(a, s))
	}
	for w := range ws {
		p := ""
		if w.path != "" {
			p = E.subst(w.path, args, "", s)
		}
		E.kill(s, weffect{p, w.field, w.mapUpd})
	}
}

// treePkg: a type of the syntax tree or of its checker; paths run over no others.
func treePkg(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Name() {
	case "ast", "build", "parser":
		return true
	}
	return false
}

func offTree(p string) bool {
	if strings.HasPrefix(p, "%") && strings.HasSuffix(p, "°") {
		return false
	}
	if strings.Contains(p, "()") || strings.HasPrefix(p, "%") || strings.HasPrefix(p, "*") {
		return true
	}
	i := strings.LastIndexByte(p, '.')
	if i < 0 {
		return false
	}
	for _, f := range []string{".Obj", ".Decl", ".Data", ".Scope", ".Objects"} {
		if strings.Contains(p[:i]+".", f+".") || strings.Contains(p[:i], f+"{") {
			return true
		}
	}
	return false
}

func (E *FactEngine) kill(s *FState, w weffect) {
	if w.mapUpd {
		known := w.path != "" && !offTree(w.path)
		for f := range s.facts {
			ps := strings.Split(f, "|")
			if ps[0] == "notin" && (!known || ps[1] == w.path) && !strings.HasPrefix(ps[1], "%") {
				delete(s.facts, f)
			}
		}
		s.drop(func(q string) bool {
			return known && strings.Contains(q, w.path+"{") || !known && strings.Contains(q, "{")
		})
		return
	}
	if w.path != "" && !offTree(w.path) {
		re := cachedRe(strings.NewReplacer(`\[\*\]`, `\[[^\[\]]*\]`, `\{\*\}`, `\{[^{}]*\}`).Replace(regexp.QuoteMeta(w.path)) + `($|[.\[{}])`)
		s.drop(func(q string) bool { return re.MatchString(q) })
		return
	}
	s.drop(func(q string) bool {
		for i := 0; ; {
			k := strings.Index(q[i:], w.field)
			if k < 0 {
				return false
			}
			i += k + len(w.field)
			if i == len(q) || strings.ContainsRune(".[{}", rune(q[i])) {
				return true
			}
		}
	})
}

var indexRe = regexp.MustCompile(`\[[?>#-][^\[\]]*\]`)

func (E *FactEngine) writes(g *ssa.Function, busy map[*ssa.Function]bool) map[weffect]bool {
	if w, ok := E.wr[g]; ok {
		return w
	}
	if busy[g] {
		return nil
	}
	busy[g] = true
	w := map[weffect]bool{}
	var put func(e weffect)
	put = func(e weffect) {
		if m := openMethodRe.FindStringSubmatch(e.path); m != nil && !strings.HasSuffix(m[1], ")") {
			// a getter called through an interface: any type that has it
			var exp []weffect
			for k, f := range E.meth {
				if !strings.HasSuffix(k, "."+m[2]) || len(f.Params) != 1 {
					continue
				}
				q := E.norm(m[1]+".("+strings.TrimSuffix(k, "."+m[2])+")."+m[2]+"()"+m[3], nil)
				if strings.Contains(q, ")."+m[2]+"()") {
					continue // not a getter: yields no node of the tree
				}
				exp = append(exp, weffect{q, e.field, e.mapUpd})
			}
			if len(exp) > 0 && strings.Count(e.path, "()") == 1 {
				for _, x := range exp {
					put(x)
				}
				return
			}
		}
		e.path = indexRe.ReplaceAllString(e.path, "[*]")
		e.path = cachedRe(`\{#[^{}]*\}`).ReplaceAllString(e.path, "{*}")
		if !strings.HasPrefix(e.path, "$") && !strings.HasPrefix(e.path, "@") || strings.ContainsAny(e.path, "%#?") {
			e.path = ""
		}
		w[e] = true
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if _, local := rootOf(fa).(*ssa.Alloc); local || !treePkg(fa.X.Type()) {
						continue
					}
					put(weffect{E.addr(fa, nil, 0), "." + structOf(fa.X.Type()).Field(fa.Field).Name(), false})
				}
			case *ssa.MapUpdate:
				p := E.path(x.Map, nil)
				if _, fresh := x.Map.(*ssa.MakeMap); !fresh && strings.HasPrefix(namedOf(x.Map.Type().Underlying().(*types.Map).Elem()), "ast.") {
					put(weffect{p, "", true})
				}
			case ssa.CallInstruction:
				var args []string
				cc := x.Common()
				for _, a := range cc.Args {
					args = append(args, E.path(a, nil))
				}
				for _, h := range E.F.callees(x) {
					if len(h.Blocks) == 0 || !E.P.isRepoFunc(h) {
						continue
					}
					for k := range E.writes(h, busy) {
						if k.path != "" && cc.StaticCallee() == h {
							k.path = E.subst(k.path, args, "", nil)
							if k.mapUpd && strings.HasPrefix(k.path, "%") && strings.HasSuffix(k.path, "°") {
								continue // a map made here
							}
						} else {
							k.path = ""
						}
						put(k)
					}
				}
			}
		}
	}
	if len(busy) == 1 {
		E.wr[g] = w
	}
	delete(busy, g)
	return w
}

// apply adds what is known after the call returned with the outcome.
func (E *FactEngine) apply(cc *ssa.CallCommon, ret, outcome string, s *FState) bool {
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !E.P.isRepoFunc(g) {
		return true
	}
	sum := E.summary(g)
	if sum == nil {
		return true
	}
	o, ok := sum[outcome]
	if !ok {
		if len(sum) > 0 {
			return false // never returns like that
		}
		return true
	}
	var args []string
	for _, a := range cc.Args {
		args = append(args, E.path(a, s))
	}
	t := o.mapPaths(func(p string) string { return E.subst(p, args, ret, s) })
	t.drop(func(p string) bool { return strings.Contains(p, "$") && false })
	s.addAll(t)
	return true
}

// assume adds what the branch condition tells; false: the branch is impossible.
func (E *FactEngine) assume(c ssa.Value, truth bool, s *FState, b *ssa.BasicBlock, edge func(*ssa.BasicBlock) *FState) bool {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return E.assume(x.X, !truth, s, b, edge)
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value) == truth
		}
	case *ssa.Phi:
		if x.Block() == b && edge != nil {
			// only the ways into the block on which the value fits
			var m *FState
			for i, p := range b.Preds {
				e := edge(p)
				if e == nil {
					continue
				}
				u := e.clone()
				if E.assume(x.Edges[i], truth, u, p, nil) && !u.contradiction() {
					if m == nil {
						m = u
					} else {
						m = meetF(m, u)
					}
				}
			}
			if m == nil {
				return false
			}
			s.addAll(m)
			return true
		}
	case *ssa.Extract:
		if x.Index == 1 {
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				p := E.path(t.X, s)
				if types.IsInterface(t.AssertedType) {
					return true
				}
				tn := tname(t.AssertedType)
				if truth {
					if s.vacuous(p + ".(" + tn + ")") {
						return false
					}
					if o, ok := s.typ[p]; ok && interTypes(o, tn) == "" {
						return false
					}
					s.typ[p] = tn
					s.facts["nonnil|"+p] = true
					s.facts["nonnil|"+p+".("+tn+")"] = true
					return true
				}
				if s.typ[p] == tn {
					return false
				}
				s.vac[p+".("+tn+")"] = true
				return true
			case *ssa.Lookup:
				m, k := E.path(t.X, s), E.path(t.Index, s)
				el := E.elem(m, k)
				if truth {
					s.facts["has|"+m+"|"+k] = true
					return true
				}
				if strings.HasSuffix(el, "}") && strings.Contains(el, "{#") && !strings.Contains(el, "{"+k+"}") {
					return false // an element of the map itself
				}
				s.facts["notin|"+m+"|"+k] = true
				s.vac[el] = true
				return true
			case *ssa.Call:
				// (value, ok)
				if t.Call.StaticCallee() != nil && t.Call.Signature().Results().Len() == 2 {
					return E.apply(&t.Call, E.local(t)+".0", map[bool]string{true: "true", false: "false"}[truth], s)
				}
			}
		}
	case *ssa.Call:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return E.apply(&x.Call, "", map[bool]string{true: "true", false: "false"}[truth], s)
		}
	case *ssa.BinOp:
		if t, nilOnTrue, ok := nilTest(c); ok {
			isNil := truth == nilOnTrue
			p := E.path(t, s)
			if cl, ok := callOf(t); ok {
				out := "nonnil"
				if isNil {
					out = "nil"
				}
				if !isErr(t.Type()) || isNil {
					if !E.apply(cl, p, out, s) {
						return false
					}
				}
			}
			if isErr(t.Type()) {
				if isNil && s.facts["nonnil|"+p] {
					return false
				}
				if !isNil {
					s.facts["nonnil|"+p] = true
				}
				return true
			}
			if isNil {
				if s.facts["nonnil|"+p] {
					return false
				}
				if _, sl := t.Type().Underlying().(*types.Slice); sl {
					s.vac[p+"["] = true
				} else {
					s.vac[p] = true
				}
				return true
			}
			if s.vacuous(p) {
				return false
			}
			s.facts["nonnil|"+p] = true
			return true
		}
		op := x.Op
		if op == token.NEQ {
			op, truth = token.EQL, !truth
		}
		if op == token.EQL {
			// len(x) == 0
			if l, z := lenTest(x); l != nil && z {
				if truth {
					s.vac[E.path(l, s)+"["] = true
				}
				return true
			}
			p, q := E.path(x.X, s), E.path(x.Y, s)
			if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				if k, ok := x.Y.(*ssa.Const); ok {
					return E.assume(x.X, constant.BoolVal(k.Value) == truth, s, b, edge)
				}
				if k, ok := x.X.(*ssa.Const); ok {
					return E.assume(x.Y, constant.BoolVal(k.Value) == truth, s, b, edge)
				}
			}
			if strings.HasPrefix(p, "#") && strings.HasPrefix(q, "#") {
				if truth {
					s.facts["same|"+p+"|"+q] = true
				}
				return true
			}
			if truth {
				s.facts["eq|"+p+"|"+q] = true
				if strings.HasPrefix(p, "'") && !strings.HasPrefix(q, "'") {
					s.facts["eq|"+q+"|"+p] = true
				}
			} else {
				s.facts["neq|"+p+"|"+q] = true
			}
		}
	case *ssa.Lookup:
		// a map of booleans
		m, k := E.path(x.X, s), E.path(x.Index, s)
		if truth {
			s.facts["has|"+m+"|"+k] = true
		} else {
			s.facts["notin|"+m+"|"+k] = true
		}
	}
	// values of boolean fields
	if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		if _, isU := c.(*ssa.UnOp); isU {
			p := E.path(c, s)
			if truth {
				s.facts["true|"+p] = true
			} else {
				s.facts["false|"+p] = true
			}
		}
	}
	return true
}

func lenTest(b *ssa.BinOp) (ssa.Value, bool) {
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if k, ok := constInt(p[1]); ok && k == 0 {
			if cl, ok := p[0].(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return cl.Call.Args[0], true
				}
			}
		}
	}
	return nil, false
}

func callOf(v ssa.Value) (*ssa.CallCommon, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		return &x.Call, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return &c.Call, true
		}
	}
	return nil, false
}

// outcomes records the state at a return under the outcomes it may have.
func (E *FactEngine) outcomes(f *ssa.Function, r *ssa.Return, s *FState, out map[string]*FState, edge func(*ssa.BasicBlock) *FState) {
	put := func(k string, t *FState) {
		if t.contradiction() {
			return
		}
		if E.derive != nil {
			E.derive(t)
		}
		// where a value was found in a search: some element of the list
		own := fmt.Sprintf("#%d.", E.id(f))
		for k, l := range t.from {
			l = E.elements(l, s)
			t.from[k] = l
			t.from[k] = mapList(l, func(p string) string {
				if strings.Contains(p, own) && !strings.Contains(k, own) {
					return genLocal(p)
				}
				return p
			})
		}
		if o, ok := out[k]; ok {
			out[k] = meetF(o, t)
		} else {
			out[k] = t.clone()
		}
	}
	n := len(r.Results)
	if n == 0 {
		put("ret", s)
		return
	}
	v := r.Results[n-1]
	var val func(v ssa.Value, s *FState, d int)
	val = func(v ssa.Value, s *FState, d int) {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == r.Block() && d < 3 {
			for i, p := range ph.Block().Preds {
				if e := edge(p); e != nil {
					val(ph.Edges[i], e.clone(), d+1)
				}
			}
			return
		}
		t := v.Type()
		switch {
		case isErr(t):
			switch {
			case isNilConst(v):
				put("nil", s)
			case E.errNonNil(v, s):
				put("nonnil", s)
			default:
				u := s.clone()
				ok := true
				if cl, isCall := callOf(v); isCall {
					ok = E.apply(cl, "", "nil", u)
				}
				if ok {
					put("nil", u)
				}
				put("nonnil", s)
			}
		case isBoolT(t):
			for _, truth := range []bool{true, false} {
				u := s.clone()
				if E.assume(v, truth, u, r.Block(), nil) {
					if n == 2 {
						E.nameRet(r.Results[0], u)
					}
					put(fmt.Sprint(truth), u)
				}
			}
		case isPtr(t):
			if isNilConst(v) {
				put("nil", s)
				return
			}
			p := E.path(v, s)
			if !E.knownNonNil(v, p, s) {
				u := s.clone()
				u.vac[p] = true
				put("nil", u)
			}
			u := s.clone()
			u.facts["nonnil|"+p] = true
			E.nameRet(v, u)
			put("nonnil", u)
		default:
			put("ret", s)
		}
	}
	val(v, s, 0)
}

// nameRet repeats what is known of v for the name "ret".
func (E *FactEngine) nameRet(v ssa.Value, s *FState) {
	p := E.path(v, s)
	if p == "nil" {
		return
	}
	t := newFState()
	for k := range s.facts {
		ps := strings.Split(k, "|")
		hit := false
		for i := 1; i < len(ps); i++ {
			if under(ps[i], p) {
				ps[i] = "ret" + ps[i][len(p):]
				hit = true
			}
		}
		if hit {
			t.facts[strings.Join(ps, "|")] = true
		}
	}
	for k, ty := range s.typ {
		if under(k, p) {
			t.typ["ret"+k[len(p):]] = ty
		}
	}
	for k, ty := range s.from {
		if under(k, p) {
			t.from["ret"+k[len(p):]] = mapList(E.elements(ty, s), genLocal)
		}
	}
	if _, ok := t.from["ret"]; !ok {
		t.from["ret"] = mapList(E.elements(p, s), genLocal)
	}
	s.addAll(t)
}

// elements replaces the element of a list built here by the values put into the list.
func (E *FactEngine) elements(l string, s *FState) string {
	var out []string
	for _, p := range strings.Split(l, ",") {
		m := cachedRe(`^(%[0-9]+\.[^\[\].{}]*)\[[^\[\]]*\](.*)$`).FindStringSubmatch(p)
		if m == nil || E.lists[m[1]] == nil {
			out = append(out, p)
			continue
		}
		vs, ok := listElems(E.lists[m[1]], map[ssa.Value]bool{})
		if !ok || len(vs) == 0 {
			out = append(out, p)
			continue
		}
		for _, v := range vs {
			out = append(out, E.path(v, s)+m[2])
		}
	}
	sort.Strings(out)
	var u []string
	for i, p := range out {
		if i == 0 || out[i-1] != p {
			u = append(u, p)
		}
	}
	return strings.Join(u, ",")
}

// listElems lists the values a local list is built of.
func listElems(v ssa.Value, seen map[ssa.Value]bool) ([]ssa.Value, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.MakeSlice:
		k, ok := constInt(x.Len)
		return nil, ok && k == 0
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			l, ok := listElems(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		var out []ssa.Value
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Slice:
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					st, ok := q.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(r) {
						return nil, false
					}
					out = append(out, st.Val)
				}
			default:
				return nil, false
			}
		}
		return out, true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			l, ok := listElems(x.Call.Args[0], seen)
			if !ok {
				return nil, false
			}
			m, ok := listElems(x.Call.Args[1], seen)
			return append(l, m...), ok
		}
	}
	return nil, false
}

// genLocal: the element of a list searched, whichever it is.
// An element of a map gone through is not the one an outer loop is at.
func genLocal(p string) string {
	p = cachedRe(`\{#\d+\.\d+\}`).ReplaceAllString(p, "{any}")
	return cachedRe(`#\d+\.\d+`).ReplaceAllString(p, "*")
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isPtr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
		return true
	}
	return false
}

func (E *FactEngine) errNonNil(v ssa.Value, s *FState) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		k, ok := x.X.(*ssa.Const)
		return !ok || k.Value != nil
	case *ssa.ChangeInterface:
		return E.errNonNil(x.X, s)
	case *ssa.Call:
		n := callName(&x.Call)
		if n == "fmt.Errorf" || n == "errors.New" {
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && E.P.isRepoFunc(g) {
			if sum := E.summary(g); sum != nil && len(sum) > 0 {
				if _, may := sum["nil"]; !may {
					return true
				}
			}
		}
	}
	// tested before: the return is only reached when it is not nil
	return s.facts["nonnil|"+E.path(v, s)]
}
