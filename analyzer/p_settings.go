package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The settings that tags give: every getter is interpreted over tags whose
// names are known and whose texts are symbols. Whatever the texts are, the
// result has to have the text of each key in the setting of that key.

// sval is a value: a constant, a symbol, a pointer to an object, a list, ...
type sval struct {
	k    byte // 'c' constant or nil, 's' symbol, 'a' address of a part of a symbol, 'p' pointer, 'l' list, 'm' map, 't' tuple, 'W' struct, 'f' function, 'L' element of a list in memory
	c    constant.Value
	s    string
	n    int
	path string
	l    []sval
	fn   *ssa.Function
	t    types.Type
}

func (v sval) String() string {
	switch v.k {
	case 'c':
		if v.c == nil {
			return "nil"
		}
		return v.c.ExactString()
	case 's':
		return v.s
	case 'p':
		return fmt.Sprintf("&%d%s", v.n, v.path)
	case 'm':
		return fmt.Sprintf("map%d", v.n)
	case 'f':
		return "func " + v.fn.Name()
	}
	var l []string
	for _, x := range v.l {
		l = append(l, x.String())
	}
	return string(v.k) + "[" + strings.Join(l, " ") + "]"
}

func sSym(f string, a ...interface{}) sval { return sval{k: 's', s: fmt.Sprintf(f, a...)} }
func sNil() sval                           { return sval{k: 'c'} }
func sStr(s string) sval                   { return sval{k: 'c', c: constant.MakeString(s)} }
func sInt(n int64) sval                    { return sval{k: 'c', c: constant.MakeInt64(n)} }
func sBool(b bool) sval                    { return sval{k: 'c', c: constant.MakeBool(b)} }

type sobj struct {
	t    types.Type
	f    map[string]sval
	keys []sval
	vals []sval
}

// remove takes a key out of a map.
func (o *sobj) remove(k sval) {
	for i := range o.keys {
		if o.keys[i].String() == k.String() {
			o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
			o.vals = append(o.vals[:i:i], o.vals[i+1:]...)
			return
		}
	}
}

type sframe struct {
	fn    *ssa.Function
	b     *ssa.BasicBlock
	prev  *ssa.BasicBlock
	i     int
	env   map[ssa.Value]sval
	call  ssa.Value
	count map[*ssa.BasicBlock]int
	later []deferred
}

// deferred is a call that is made when the function ends.
type deferred struct {
	delete bool
	fn     *ssa.Function
	free   []sval
	args   []sval
}

type sstate struct {
	fr    []*sframe
	heap  map[int]*sobj
	next  int
	conds map[string]bool // what was assumed of symbols
	ev    []sEvent        // what was done, in order
}

// sEvent is an effect that a hook has noted.
type sEvent struct {
	kind string
	args []sval
	at   token.Pos
}

func (s *sstate) clone() *sstate {
	n := &sstate{heap: make(map[int]*sobj, len(s.heap)), next: s.next, conds: make(map[string]bool, len(s.conds))}
	for k, o := range s.heap {
		c := &sobj{t: o.t, f: make(map[string]sval, len(o.f)), keys: append([]sval{}, o.keys...), vals: append([]sval{}, o.vals...)}
		for a, b := range o.f {
			c.f[a] = b
		}
		n.heap[k] = c
	}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	n.ev = append(n.ev, s.ev...)
	for _, f := range s.fr {
		c := *f
		c.env = make(map[ssa.Value]sval, len(f.env))
		for a, b := range f.env {
			c.env[a] = b
		}
		c.count = make(map[*ssa.BasicBlock]int, len(f.count))
		for a, b := range f.count {
			c.count[a] = b
		}
		n.fr = append(n.fr, &c)
	}
	return n
}

// sflow is one run of a getter.
type sflow struct {
	P     *Program
	parts map[string]sval // what is known of the parts of symbols
	steps int
	bad   string
	ends  []sEnd
	funcs map[*ssa.Function]bool
	// hook decides a call instead of the interpretation.
	hook func(s *sstate, c *ssa.CallCommon, fn *ssa.Function, what sval, args []sval) (sval, bool)
	// rounds is how often a block may be entered, 8 if it is less.
	rounds int
	// invoke decides a call of a method of an interface.
	invoke func(s *sstate, recv sval, method string) (sval, bool)
}

type sEnd struct {
	s *sstate
	r []sval
}

func (w *sflow) fail(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

// part is a part of a symbol.
func (w *sflow) part(base, field string, t types.Type) sval {
	k := base + "." + field
	if v, ok := w.parts[k]; ok {
		return v
	}
	// The members of a declaration that is looked up: two.
	if (field == "Items" || field == "Methods") && t != nil {
		if _, ok := t.Underlying().(*types.Slice); ok {
			l := sval{k: 'l'}
			for i := 0; i < 2; i++ {
				w.parts[fmt.Sprintf("%s[%d].!", k, i)] = sBool(true)
				l.l = append(l.l, sSym("%s[%d]", k, i))
			}
			return l
		}
	}
	return sval{k: 's', s: k, t: t}
}

func (w *sflow) eval(f *sframe, v ssa.Value) sval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct:
				return sval{k: 'W'}
			}
			return sNil()
		}
		return sval{k: 'c', c: v.Value}
	case *ssa.Function:
		return sval{k: 'f', fn: v}
	case *ssa.Global:
		return sval{k: 'a', s: "global:" + v.String(), t: v.Type().(*types.Pointer).Elem()}
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return sSym("?%s.%s", f.fn.Name(), v.Name())
}

func (w *sflow) zero(t types.Type) sval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return sStr("")
		case u.Info()&types.IsBoolean != 0:
			return sBool(false)
		case u.Info()&types.IsNumeric != 0:
			return sInt(0)
		}
	}
	return sNil()
}

func (w *sflow) load(s *sstate, p sval) sval {
	switch p.k {
	case 'a':
		if i := strings.LastIndex(p.s, "."); i >= 0 && !strings.HasPrefix(p.s, "global:") {
			return w.part(p.s[:i], p.s[i+1:], p.t)
		}
		return sval{k: 's', s: "*" + p.s, t: p.t}
	case 'p':
		o := s.heap[p.n]
		if o == nil {
			return sSym("?")
		}
		if v, ok := o.f[p.path]; ok {
			return v
		}
		t := typeAt(o.t, p.path)
		if t == nil {
			return sSym("?")
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			v := sval{k: 'W'}
			for i := 0; i < st.NumFields(); i++ {
				v.l = append(v.l, w.load(s, sval{k: 'p', n: p.n, path: p.path + fmt.Sprint(".", i)}))
			}
			return v
		}
		return w.zero(t)
	case 's':
		return sval{k: 's', s: "*" + p.s}
	}
	return sSym("?")
}

func (w *sflow) store(s *sstate, p, v sval) {
	if p.k != 'p' {
		if p.k == 'a' {
			w.fail("a part of the tree is written")
		}
		return
	}
	o := s.heap[p.n]
	if o == nil {
		return
	}
	for k := range o.f {
		if strings.HasPrefix(k, p.path+".") {
			delete(o.f, k)
		}
	}
	boxed := false // a struct in an interface is one value
	if v.k == 'W' && o.t != nil {
		if t := typeAt(o.t, p.path); t != nil {
			_, boxed = t.Underlying().(*types.Interface)
		}
	}
	if v.k == 'W' && !boxed {
		delete(o.f, p.path)
		for i, x := range v.l {
			w.store(s, sval{k: 'p', n: p.n, path: p.path + fmt.Sprint(".", i)}, x)
		}
		return
	}
	o.f[p.path] = v
}

func (w *sflow) alloc(s *sstate, t types.Type) sval {
	s.next++
	s.heap[s.next] = &sobj{t: t, f: map[string]sval{}}
	return sval{k: 'p', n: s.next}
}

// list is the elements of a slice.
func (w *sflow) list(s *sstate, v sval) ([]sval, bool) {
	switch v.k {
	case 'l':
		return v.l, true
	case 'c':
		if v.c == nil {
			return nil, true
		}
	case 'L': // a slice of an object: made here
		o := s.heap[v.n]
		n, ok := o.f["len"]
		if !ok || n.k != 'c' {
			return nil, false
		}
		k, _ := constant.Int64Val(n.c)
		var l []sval
		for i := int64(0); i < k; i++ {
			x, ok := o.f[fmt.Sprint(".", i)]
			if !ok {
				x = sSym("?")
			}
			l = append(l, x)
		}
		return l, true
	case 'p': // slice of an array
		o := s.heap[v.n]
		if o == nil {
			return nil, false
		}
		t := typeAt(o.t, v.path)
		if t == nil {
			return nil, false
		}
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		var l []sval
		for i := int64(0); i < a.Len(); i++ {
			l = append(l, w.load(s, sval{k: 'p', n: v.n, path: v.path + fmt.Sprint(".", i)}))
		}
		return l, true
	}
	return nil, false
}

func (w *sflow) run(fn *ssa.Function, args []sval) {
	w.runFrom(&sstate{heap: map[int]*sobj{}, conds: map[string]bool{}}, fn, args)
}

func (w *sflow) runFrom(s *sstate, fn *ssa.Function, args []sval) {
	w.push(s, fn, nil, args, nil)
	work := []*sstate{s}
	for len(work) > 0 && w.bad == "" {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for w.bad == "" {
			w.steps++
			if w.steps > 4000000 || len(work) > 4000 {
				w.fail("too many paths through %s", fnName(fn))
				return
			}
			more, done := w.step(x)
			work = append(work, more...)
			if done {
				break
			}
		}
	}
}

func (w *sflow) push(s *sstate, fn *ssa.Function, free, args []sval, call ssa.Value) {
	if w.funcs != nil {
		w.funcs[fn] = true
	}
	f := &sframe{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]sval{}, call: call, count: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			f.env[v] = free[i]
		}
	}
	s.fr = append(s.fr, f)
}

func (w *sflow) jump(s *sstate, to *ssa.BasicBlock) bool {
	f := s.fr[len(s.fr)-1]
	f.prev, f.b, f.i = f.b, to, 0
	if f.count[to]++; f.count[to] > max(w.rounds, 8) {
		return false
	}
	var vals []sval
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == f.prev {
				vals = append(vals, w.eval(f, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.i = len(phis)
	return true
}

// same decides an equality: -1 where it is open.
func (w *sflow) same(a, b sval) int {
	yes := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	if a.k == 'c' && b.k == 'c' {
		if a.c == nil || b.c == nil {
			return yes(a.c == nil && b.c == nil)
		}
		if a.c.Kind() != b.c.Kind() {
			return -1
		}
		return yes(constant.Compare(a.c, token.EQL, b.c))
	}
	if b.k == 'c' {
		a, b = b, a
	}
	if a.k == 'c' && a.c == nil {
		switch b.k {
		case 'p', 'l', 'L', 'm', 'f', 'W':
			return 0
		case 's':
			// The parts of an accepted tree that the getters read are there.
			if v, ok := w.parts[b.s+".!"]; ok && v.k == 'c' {
				return 0
			}
		}
		return -1
	}
	if a.k == b.k && a.String() == b.String() {
		return 1
	}
	if a.k == 'p' && b.k == 'p' {
		return 0
	}
	return -1
}

func (w *sflow) step(s *sstate) (more []*sstate, done bool) {
	f := s.fr[len(s.fr)-1]
	ins := f.b.Instrs[f.i]
	set := func(v sval) { f.env[ins.(ssa.Value)] = v }
	ev := func(v ssa.Value) sval { return w.eval(f, v) }
	f.i++
	switch ins := ins.(type) {
	case *ssa.Alloc:
		set(w.alloc(s, ins.Type().(*types.Pointer).Elem()))
	case *ssa.FieldAddr:
		x := ev(ins.X)
		st := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		switch x.k {
		case 'p':
			set(sval{k: 'p', n: x.n, path: x.path + fmt.Sprint(".", ins.Field)})
		case 's':
			set(sval{k: 'a', s: x.s + "." + st.Field(ins.Field).Name(), t: st.Field(ins.Field).Type()})
		default:
			return nil, true // a part of nothing: a panic
		}
	case *ssa.Field:
		x := ev(ins.X)
		if x.k == 'W' && ins.Field < len(x.l) {
			set(x.l[ins.Field])
		} else {
			set(sSym("%s.%d", x, ins.Field))
		}
	case *ssa.IndexAddr:
		x, i := ev(ins.X), ev(ins.Index)
		if i.k == 'c' && i.c != nil {
			k, _ := constant.Int64Val(i.c)
			switch x.k {
			case 'l':
				if int(k) >= len(x.l) || k < 0 {
					return nil, true
				}
				a := w.alloc(s, ins.Type().(*types.Pointer).Elem())
				s.heap[a.n].f[""] = x.l[k]
				set(a)
				return
			case 'p':
				set(sval{k: 'p', n: x.n, path: x.path + fmt.Sprint(".", k)})
				return
			case 'L':
				if l, ok := w.list(s, x); ok && int(k) >= len(l) {
					return nil, true
				}
				set(sval{k: 'p', n: x.n, path: fmt.Sprint(".", k)})
				return
			}
		}
		set(sval{k: 'a', s: fmt.Sprintf("%s.[%s]", x, i), t: ins.Type().(*types.Pointer).Elem()})
	case *ssa.Index:
		if x, i := ev(ins.X), ev(ins.Index); x.k == 'c' && x.c != nil && x.c.Kind() == constant.String && i.k == 'c' && i.c != nil {
			t := constant.StringVal(x.c)
			if k, _ := constant.Int64Val(i.c); k >= 0 && int(k) < len(t) {
				set(sInt(int64(t[k])))
				return
			}
			return nil, true
		}
		set(sSym("%s[%s]", ev(ins.X), ev(ins.Index)))
	case *ssa.UnOp:
		x := ev(ins.X)
		switch ins.Op {
		case token.MUL:
			set(w.load(s, x))
		case token.NOT:
			if x.k == 'c' && x.c != nil {
				set(sBool(!constant.BoolVal(x.c)))
			} else if strings.HasPrefix(x.s, "!") {
				set(sSym("%s", x.s[1:]))
			} else {
				set(sSym("!%s", x))
			}
		case token.SUB:
			if x.k == 'c' && x.c != nil {
				set(sval{k: 'c', c: constant.UnaryOp(token.SUB, x.c, 0)})
			} else {
				set(sSym("-%s", x))
			}
		default:
			set(sSym("%s%s", ins.Op, x))
		}
	case *ssa.Store:
		w.store(s, ev(ins.Addr), ev(ins.Val))
	case *ssa.BinOp:
		set(w.binop(ins, ev(ins.X), ev(ins.Y)))
	case *ssa.ChangeType:
		set(ev(ins.X))
	case *ssa.ChangeInterface:
		set(ev(ins.X))
	case *ssa.MakeInterface:
		set(ev(ins.X))
	case *ssa.Convert:
		x := ev(ins.X)
		if x.k == 's' {
			x.s = strings.TrimPrefix(x.s, "conv:")
			if b, ok := ins.Type().Underlying().(*types.Basic); ok && strings.Contains("int8 int16 int32 uint8 uint16 uint32 float32", b.Name()) && b.Info()&types.IsNumeric != 0 && b.Kind() != types.Int {
				set(sSym("%s(%s)", b.Name(), x))
			} else {
				set(sSym("conv:%s", x))
			}
		} else {
			set(x)
		}
	case *ssa.MakeMap:
		s.next++
		s.heap[s.next] = &sobj{t: ins.Type(), f: map[string]sval{}}
		set(sval{k: 'm', n: s.next})
	case *ssa.MapUpdate:
		m, k, v := ev(ins.Map), ev(ins.Key), ev(ins.Value)
		if m.k == 'm' {
			o := s.heap[m.n]
			for i := range o.keys {
				if o.keys[i].String() == k.String() {
					o.vals[i] = v
					return
				}
			}
			o.keys, o.vals = append(o.keys, k), append(o.vals, v)
		}
	case *ssa.Lookup:
		m, k := ev(ins.X), ev(ins.Index)
		if m.k == 'm' {
			o := s.heap[m.n]
			res, ok := sNil(), false
			if mt, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
				res = w.zero(mt.Elem())
			}
			for i := range o.keys {
				switch w.same(o.keys[i], k) {
				case 1:
					res, ok = o.vals[i], true
				case -1:
					if !ok {
						res = sSym("?lookup")
					}
				}
			}
			if ins.CommaOk {
				set(sval{k: 't', l: []sval{res, sBool(ok)}})
			} else {
				set(res)
			}
			return
		}
		v := sSym("%s{%s}", m, k)
		if ins.CommaOk {
			v = sval{k: 't', l: []sval{v, sSym("has:%s", v)}}
		}
		set(v)
	case *ssa.MakeClosure:
		v := sval{k: 'f', fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			v.l = append(v.l, ev(b))
		}
		set(v)
	case *ssa.MakeSlice:
		n := ev(ins.Len)
		s.next++
		s.heap[s.next] = &sobj{t: ins.Type(), f: map[string]sval{"len": n}}
		if n.k == 'c' {
			k, _ := constant.Int64Val(n.c)
			for i := int64(0); i < k && i < 16; i++ {
				s.heap[s.next].f[fmt.Sprint(".", i)] = w.zero(ins.Type().Underlying().(*types.Slice).Elem())
			}
		}
		set(sval{k: 'L', n: s.next})
	case *ssa.Slice:
		x := ev(ins.X)
		if l, ok := w.list(s, x); ok {
			lo, hi := 0, len(l)
			get := func(v ssa.Value, d int) (int, bool) {
				if v == nil {
					return d, true
				}
				c := ev(v)
				if c.k != 'c' || c.c == nil {
					return 0, false
				}
				k, _ := constant.Int64Val(c.c)
				return int(k), true
			}
			a, ok1 := get(ins.Low, lo)
			b, ok2 := get(ins.High, hi)
			if ok1 && ok2 && a >= 0 && a <= b && b <= len(l) {
				set(sval{k: 'l', l: append([]sval{}, l[a:b]...)})
				return
			}
		}
		lo, hi := "", ""
		if ins.Low != nil {
			lo = ev(ins.Low).String()
		}
		if ins.High != nil {
			hi = ev(ins.High).String()
		}
		if x.k == 'c' && x.c != nil && x.c.Kind() == constant.String {
			str := constant.StringVal(x.c)
			var a, b = 0, len(str)
			if lo != "" {
				fmt.Sscan(lo, &a)
			}
			if hi != "" {
				fmt.Sscan(hi, &b)
			}
			if a >= 0 && a <= b && b <= len(str) {
				set(sStr(str[a:b]))
				return
			}
			return nil, true
		}
		if lo == "1" && hi == "len("+x.String()+")-1" {
			set(sSym("text(%s)", x))
		} else {
			set(sSym("%s[%s:%s]", x, lo, hi))
		}
	case *ssa.TypeAssert:
		x := ev(ins.X)
		v := sSym("(%s).(%s)", x, types.TypeString(ins.AssertedType, func(p *types.Package) string { return p.Name() }))
		if x.k != 's' {
			v = x
		}
		if o := s.heap[x.n]; x.k == 'p' && x.path == "" && o != nil && o.t != nil {
			// The type of an object made here is known.
			t, is := types.Type(types.NewPointer(o.t)), false
			if i, ok := ins.AssertedType.Underlying().(*types.Interface); ok {
				is = types.Implements(t, i)
			} else {
				is = types.Identical(t, ins.AssertedType)
			}
			switch {
			case ins.CommaOk && is:
				set(sval{k: 't', l: []sval{x, sBool(true)}})
			case ins.CommaOk:
				set(sval{k: 't', l: []sval{w.zero(ins.AssertedType), sBool(false)}})
			case is:
				set(x)
			default:
				return nil, true // a panic
			}
			return
		}
		if ins.CommaOk {
			set(sval{k: 't', l: []sval{v, sSym("is:%s", v)}})
		} else {
			set(v)
		}
	case *ssa.Extract:
		x := ev(ins.Tuple)
		if x.k == 't' && ins.Index < len(x.l) {
			set(x.l[ins.Index])
		} else {
			set(sSym("%s#%d", x, ins.Index))
		}
	case *ssa.Range:
		x := ev(ins.X)
		if x.k == 'm' {
			s.next++
			s.heap[s.next] = &sobj{f: map[string]sval{"at": sInt(0), "of": x}}
			set(sval{k: 'R', n: s.next})
			return
		}
		set(sval{k: 's', s: "range " + x.String()})
	case *ssa.Next:
		if x := ev(ins.Iter); x.k == 'R' {
			it := s.heap[x.n]
			i, _ := constant.Int64Val(it.f["at"].c)
			o := s.heap[it.f["of"].n]
			if int(i) < len(o.keys) {
				it.f["at"] = sInt(i + 1)
				set(sval{k: 't', l: []sval{sBool(true), o.keys[i], o.vals[i]}})
			} else {
				set(sval{k: 't', l: []sval{sBool(false), sNil(), sNil()}})
			}
			return
		}
		set(sval{k: 't', l: []sval{sBool(false), sSym("?"), sSym("?")}})
	case *ssa.Call:
		return w.call(s, f, ins)
	case *ssa.If:
		c := ev(ins.Cond)
		if c.k == 'c' && c.c != nil {
			to := f.b.Succs[1]
			if constant.BoolVal(c.c) {
				to = f.b.Succs[0]
			}
			return nil, !w.jump(s, to)
		}
		key, neg := strings.TrimPrefix(c.String(), "!"), strings.HasPrefix(c.String(), "!")
		if v, ok := s.conds[key]; ok {
			to := f.b.Succs[1]
			if v != neg {
				to = f.b.Succs[0]
			}
			return nil, !w.jump(s, to)
		}
		n := s.clone()
		s.conds[key], n.conds[key] = !neg, neg
		b := f.b
		ok1 := w.jump(s, b.Succs[0])
		if w.jump(n, b.Succs[1]) {
			more = append(more, n)
		}
		return more, !ok1
	case *ssa.Jump:
		return nil, !w.jump(s, f.b.Succs[0])
	case *ssa.Return:
		var r []sval
		for _, x := range ins.Results {
			r = append(r, ev(x))
		}
		s.fr = s.fr[:len(s.fr)-1]
		if len(s.fr) == 0 {
			w.ends = append(w.ends, sEnd{s, r})
			return nil, true
		}
		if f.call != nil {
			up := s.fr[len(s.fr)-1]
			if len(r) == 1 {
				up.env[f.call] = r[0]
			} else {
				up.env[f.call] = sval{k: 't', l: r}
			}
		}
	case *ssa.Panic:
		return nil, true
	case *ssa.Defer:
		d := deferred{}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, ev(a))
		}
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			d.delete = b.Name() == "delete"
		} else if !ins.Call.IsInvoke() {
			d.fn = ins.Call.StaticCallee()
			if x := ev(ins.Call.Value); x.k == 'f' {
				d.fn, d.free = x.fn, x.l
			}
			if d.fn != nil && (d.fn.Pkg == nil || !w.P.inRepo[d.fn.Pkg.Pkg]) {
				d.fn = nil
			}
		}
		f.later = append(f.later[:len(f.later):len(f.later)], d)
	case *ssa.RunDefers:
		if n := len(f.later); n > 0 {
			d := f.later[n-1]
			f.later = f.later[: n-1 : n-1]
			f.i-- // until none is left
			if d.delete && d.args[0].k == 'm' {
				s.heap[d.args[0].n].remove(d.args[1])
			} else if d.fn != nil && len(d.fn.Blocks) > 0 {
				w.push(s, d.fn, d.free, d.args, nil)
			}
		}
	case *ssa.DebugRef:
	case *ssa.Phi:
	default:
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = sSym("?%s", v.Name())
		}
	}
	return
}

func (w *sflow) binop(ins *ssa.BinOp, x, y sval) sval {
	switch ins.Op {
	case token.EQL, token.NEQ:
		n := w.same(x, y)
		if n >= 0 {
			return sBool((n == 1) == (ins.Op == token.EQL))
		}
		a, b := x.String(), y.String()
		if a > b {
			a, b = b, a
		}
		k := fmt.Sprintf("eq(%s, %s)", a, b)
		// A text in lower case: the same question.
		if ins.Op == token.NEQ {
			k = "!" + k
		}
		return sSym("%s", k)
	}
	if x.k == 'c' && y.k == 'c' && x.c != nil && y.c != nil {
		switch ins.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return sBool(constant.Compare(x.c, ins.Op, y.c))
		case token.ADD, token.SUB, token.MUL:
			return sval{k: 'c', c: constant.BinaryOp(x.c, ins.Op, y.c)}
		}
	}
	// len(x) is not 0, 0 is less than it: one question.
	op := ins.Op.String()
	if strings.HasPrefix(x.String(), "len(") && y.String() == "0" && op == ">" || strings.HasPrefix(y.String(), "len(") && x.String() == "0" && op == "<" {
		l := x.String()
		if y.String() != "0" {
			l = y.String()
		}
		return sSym("!eq(\"\", %s)", strings.TrimSuffix(strings.TrimPrefix(l, "len("), ")"))
	}
	return sSym("%s%s%s", x, op, y)
}

func (w *sflow) call(s *sstate, f *sframe, ins *ssa.Call) ([]*sstate, bool) {
	c := ins.Common()
	set := func(v sval) ([]*sstate, bool) { f.env[ins] = v; return nil, false }
	var args []sval
	for _, a := range c.Args {
		args = append(args, w.eval(f, a))
	}
	str := func(i int) (string, bool) {
		if i < len(args) && args[i].k == 'c' && args[i].c != nil && args[i].c.Kind() == constant.String {
			return constant.StringVal(args[i].c), true
		}
		return "", false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if t, ok := str(0); ok {
				return set(sInt(int64(len(t))))
			}
			if args[0].k == 'm' {
				return set(sInt(int64(len(s.heap[args[0].n].keys))))
			}
			if l, ok := w.list(s, args[0]); ok {
				return set(sInt(int64(len(l))))
			}
			return set(sSym("len(%s)", args[0]))
		case "append":
			a, ok1 := w.list(s, args[0])
			b, ok2 := w.list(s, args[1])
			if ok1 && ok2 {
				return set(sval{k: 'l', l: append(append([]sval{}, a...), b...)})
			}
		case "delete":
			if args[0].k == 'm' {
				s.heap[args[0].n].remove(args[1])
			}
		case "recover": // no path of a panic is followed
			return set(sNil())
		case "min", "max":
			best := args[0]
			for _, a := range args {
				if a.k != 'c' || a.c == nil || best.k != 'c' || best.c == nil {
					return set(sSym("%s(%s)", b.Name(), sList(args)))
				}
				if constant.Compare(a.c, map[string]token.Token{"min": token.LSS, "max": token.GTR}[b.Name()], best.c) {
					best = a
				}
			}
			return set(best)
		case "copy":
			if args[0].k == 'L' {
				if b, ok := w.list(s, args[1]); ok {
					for i, x := range b {
						s.heap[args[0].n].f[fmt.Sprint(".", i)] = x
					}
				}
			}
		}
		return set(sSym("%s(%s)", b.Name(), args))
	}
	if c.IsInvoke() {
		if w.invoke != nil {
			if v, ok := w.invoke(s, w.eval(f, c.Value), c.Method.Name()); ok {
				return set(v)
			}
		}
		return set(sSym("%s.%s()", w.eval(f, c.Value), c.Method.Name()))
	}
	fn := c.StaticCallee()
	var free []sval
	if x := w.eval(f, c.Value); x.k == 'f' {
		fn, free = x.fn, x.l
	}
	if w.hook != nil {
		if v, ok := w.hook(s, c, fn, w.eval(f, c.Value), args); ok {
			return set(v)
		}
	}
	if fn == nil {
		return set(sSym("%s(%s)", w.eval(f, c.Value), sList(args)))
	}
	name := fnName(fn)
	if fn.Pkg != nil && !w.P.inRepo[fn.Pkg.Pkg] {
		a, ok := str(0)
		b, ok2 := str(1)
		switch fn.String() {
		case "strings.Index":
			if ok && ok2 {
				return set(sInt(int64(strings.Index(a, b))))
			}
		case "strings.HasPrefix":
			if ok && ok2 {
				return set(sBool(strings.HasPrefix(a, b)))
			}
		case "strings.Contains":
			if ok && ok2 {
				return set(sBool(strings.Contains(a, b)))
			}
		case "strings.TrimPrefix":
			if ok && ok2 {
				return set(sStr(strings.TrimPrefix(a, b)))
			}
		case "strings.ToLower":
			if ok {
				return set(sStr(strings.ToLower(a)))
			}
			return set(sSym("lower(%s)", args[0]))
		case "strings.EqualFold":
			if ok || ok2 {
				x, y := args[0], a
				if ok2 {
					y = b
				} else {
					x = args[1]
				}
				return set(sSym("eq(%q, lower(%s))", strings.ToLower(y), x))
			}
		case "strings.Trim":
			if ok2 && b == "\"" {
				return set(sSym("text(%s)", args[0]))
			}
		case "strconv.Unquote":
			return set(sval{k: 't', l: []sval{sSym("text(%s)", args[0]), sNil()}})
		case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseUint", "strconv.ParseBool":
			kind := map[byte]string{'A': "int", 'I': "int", 'F': "float", 'U': "int", 'B': "bool"}[fn.Name()[len(fn.Name())-len(strings.TrimPrefix(fn.Name(), "Parse")):][0]]
			for _, n := range args[1:] {
				// Another base, or fewer bits than an int of any platform has.
				v := n.String()
				if v == "8" || v == "16" || kind == "float" && v == "32" {
					kind += v
				}
			}
			if kind != "float" && len(args) > 1 && args[1].String() != "10" {
				kind += " of base " + args[1].String()
			}
			x := sSym("%s(%s)", kind, args[0])
			if ok {
				// The number in the name of a tag.
				if a == "" || strings.Trim(a, "0123456789") != "" {
					w.parts["failure.!"] = sBool(true)
					return set(sval{k: 't', l: []sval{sInt(0), sSym("failure")}})
				}
				var n int64
				fmt.Sscan(a, &n)
				return set(sval{k: 't', l: []sval{sInt(n), sNil()}})
			}
			return set(sval{k: 't', l: []sval{x, sSym("err:%s", x)}})
		case "strings.Split", "strings.SplitN":
			l := sval{k: 's', s: "split(" + args[0].String() + ", " + args[1].String() + ")"}
			return set(l)
		case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
			if l, ok := w.list(s, args[0]); ok && len(l) == 2 && len(args) == 2 && args[1].k == 'f' {
				if w.less(s, args[1], 1, 0) {
					for _, v := range args[1].l {
						if v.k != 'p' {
							continue
						}
						if x, ok := w.list(s, w.load(s, v)); ok && len(x) == 2 && sList(x) == sList(l) {
							w.store(s, v, sval{k: 'l', l: []sval{l[1], l[0]}})
						}
					}
				}
			}
			return set(sNil())
		}
		return w.opaque(s, ins, name, args)
	}
	if len(fn.Blocks) == 0 {
		return w.opaque(s, ins, name, args)
	}
	// Naming functions and errors stay symbols.
	if fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 1 && types.Identical(fn.Signature.Params().At(0).Type(), types.Typ[types.String]) && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) && !strings.Contains(args[0].String(), "text(") && !strings.Contains(args[0].String(), ".Value") {
		return set(sSym("%s(%s)", name, args[0]))
	}
	for _, g := range s.fr {
		if g.fn == fn {
			return w.opaque(s, ins, name, args)
		}
	}
	if len(s.fr) > 12 {
		return w.opaque(s, ins, name, args)
	}
	w.push(s, fn, free, args, ins)
	return nil, false
}

// less is what a comparison says of two places of a list.
func (w *sflow) less(s *sstate, fn sval, a, b int64) bool {
	st := s.clone()
	st.fr = nil
	sub := &sflow{P: w.P, parts: w.parts, funcs: w.funcs}
	sub.push(st, fn.fn, fn.l, []sval{sInt(a), sInt(b)}, nil)
	for sub.bad == "" && sub.steps < 10000 {
		sub.steps++
		more, done := sub.step(st)
		if len(more) > 0 {
			w.fail("the order of %s is not known", fnName(fn.fn))
			return false
		}
		if done {
			break
		}
	}
	if len(sub.ends) == 1 && len(sub.ends[0].r) == 1 {
		if x := sub.ends[0].r[0]; x.k == 'c' && x.c != nil && x.c.Kind() == constant.Bool {
			return constant.BoolVal(x.c)
		}
	}
	w.fail("the order of %s is not known", fnName(fn.fn))
	return false
}

func sList(a []sval) string {
	var l []string
	for _, x := range a {
		l = append(l, x.String())
	}
	return strings.Join(l, ", ")
}

func (w *sflow) opaque(s *sstate, ins *ssa.Call, name string, args []sval) ([]*sstate, bool) {
	f := s.fr[len(s.fr)-1]
	v := sSym("%s(%s)", name, sList(args))
	if tp, ok := ins.Type().(*types.Tuple); ok {
		t := sval{k: 't'}
		for i := 0; i < tp.Len(); i++ {
			t.l = append(t.l, sSym("%s#%d", v, i))
		}
		v = t
	}
	f.env[ins] = v
	return nil, false
}

// ---- the check

// setting is what a key of a tag sets: a text, a flag ("true", with any case
// where fold), a number, or all texts.
type setting struct {
	key, field, kind string
}

type settings struct {
	pkg, typ, tag string
	tags          []string // other names of the tag that are read
	keys          []setting
}

var tagSettings = []settings{
	{"build", "Format", "format", nil, []setting{{"null", "Null", "bool"}, {"reg", "Reg", "text"}, {"min", "Min", "text"}, {"max", "Max", "text"}}},
	{"build", "DB", "db", []string{"db1", "db12"}, []setting{
		{"name", "Name", "text"}, {"schema", "Schema", "text"}, {"converter", "Converter", "text"}, {"order", "Order", "text"}, {"key", "Key", "bool"}, {"typ", "typ", "text"}, {"where", "Where", "list"},
		{"offset", "Offset", "text"}, {"limit", "Limit", "text"}, {"insert", "Insert", "text"}, {"inserts", "Inserts", "text"}, {"update", "Update", "text"}, {"group", "Group", "text"}, {"del", "Del", "fold"},
		{"get", "Get", "text"}, {"list", "List", "text"}, {"map", "Map", "text"}, {"table", "Table", "text"}, {"set", "Set", "text"}, {"count", "Count", "fold"}, {"force", "Force", "fold"}, {"rm", "Remove", "fold"}, {"fake", "Fake", "fold"}}},
	{"golang", "cache", "cache", nil, []setting{{"min", "min", "int"}, {"max", "max", "int"}}},
	{"dart", "ui", "ui", nil, uiSettings},
	{"ts", "ui", "ui", nil, append([]setting{{"toNull", "toNull", "bool"}, {"unlink", "unlink", "bool"}}, uiSettings...)},
}

var uiSettings = []setting{
	{"onlyRead", "onlyRead", "bool"}, {"form", "form", "text"}, {"table", "table", "text"}, {"digit", "digit", "int"}, {"index", "index", "*int"}, {"format", "format", "text"}, {"width", "width", "float"}, {"height", "height", "float"},
	{"maxLine", "maxLine", "int"}, {"maxCount", "maxCount", "int"}, {"clip", "clip", "bool"}, {"extensions", "extensions", "list"},
}

// tagParts describes two tags: the one asked for, at place own, with two keys,
// and another with the same keys.
func tagParts(own int, name string, keys [2]string) (map[string]sval, sval) {
	p := map[string]sval{}
	var tags []sval
	for i := 0; i < 2; i++ {
		t := fmt.Sprintf("tag%d", i)
		n := "another"
		if i == own {
			n = name
		}
		p[t+".!"] = sBool(true)
		p[t+".Name"] = sSym("%s.Name", t)
		p[t+".Name.!"] = sBool(true)
		p[t+".Name.Name"] = sStr(n)
		var kvs []sval
		for j, k := range keys {
			kv := fmt.Sprintf("%s.KV[%d]", t, j)
			p[kv+".!"] = sBool(true)
			p[kv+".Name"] = sSym("%s.Name", kv)
			p[kv+".Name.!"] = sBool(true)
			p[kv+".Name.Name"] = sStr(k)
			var vs []sval
			for n := 0; n < 2; n++ {
				v := fmt.Sprintf("%s.Values[%d]", kv, n)
				p[v+".!"] = sBool(true)
				vs = append(vs, sval{k: 's', s: v})
			}
			p[kv+".Values"] = sval{k: 'l', l: vs}
			kvs = append(kvs, sval{k: 's', s: kv})
		}
		p[t+".KV"] = sval{k: 'l', l: kvs}
		tags = append(tags, sval{k: 's', s: t})
	}
	return p, sval{k: 'l', l: tags}
}

// getters are the functions that give the settings for tags.
func getters(P *Program, pkg, typ string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != pkg || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() == 0 {
			continue
		}
		t := r.At(0).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); !ok || n.Obj().Name() != typ || n.Obj().Pkg().Name() != pkg {
			continue
		}
		if tagsParam(fn) >= 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func tagsParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if pt, ok := sl.Elem().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Tag" {
					return i
				}
			}
		}
	}
	return -1
}

type sResult struct {
	fields map[string]sval
	conds  map[string]bool
	lists  map[string][]sval
	derefs map[string]sval
	none   bool
}

// results runs a getter and gives the settings at the end of every path that
// has no error.
func sResults(P *Program, fn *ssa.Function, parts map[string]sval, tags sval, typ string, cov map[*ssa.Function]bool) ([]sResult, *sflow) {
	w := &sflow{P: P, parts: parts, funcs: cov}
	var args []sval
	ti := tagsParam(fn)
	for i, p := range fn.Params {
		if i == ti {
			args = append(args, tags)
		} else {
			args = append(args, sSym("param:%s", p.Name()))
		}
	}
	w.run(fn, args)
	var out []sResult
	for _, e := range w.ends {
		if n := len(e.r); n > 1 {
			if x := e.r[n-1]; !(x.k == 'c' && x.c == nil) {
				continue // an error
			}
		}
		x := e.r[0]
		if l, ok := w.list(e.s, x); ok && !(x.k == 'c') {
			if len(l) != 1 {
				out = append(out, sResult{none: true, conds: e.s.conds})
				continue
			}
			x = l[0]
		}
		if x.k != 'p' && x.k != 'W' {
			out = append(out, sResult{none: true, conds: e.s.conds})
			continue
		}
		r := sResult{fields: map[string]sval{}, conds: e.s.conds, lists: map[string][]sval{}, derefs: map[string]sval{}}
		o := e.s.heap[x.n]
		st, ok := o.t.Underlying().(*types.Struct)
		if !ok {
			w.fail("the result of %s is a %s", fnName(fn), o.t)
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			v := w.load(e.s, sval{k: 'p', n: x.n, path: fmt.Sprint(".", i)})
			if l, ok := w.list(e.s, v); ok && (v.k == 'l' || v.k == 'L') {
				r.lists[st.Field(i).Name()] = l
				v = sval{k: 'l', l: l}
			} else if v.k == 'p' {
				d := w.load(e.s, v)
				r.derefs[st.Field(i).Name()] = d
				v = sSym("&%s", d)
			}
			r.fields[st.Field(i).Name()] = v
		}
		out = append(out, r)
	}
	return out, w
}

func runSettings(P *Program, rep *Report, cov Coverage, tier string) {
	funcs := map[*ssa.Function]bool{}
	runs, paths, pairs := 0, 0, 0
	for _, st := range tagSettings {
		gs := getters(P, st.pkg, st.typ)
		if len(gs) == 0 {
			rep.undecide(fmt.Sprintf("nothing gives the settings %s.%s", st.pkg, st.typ))
			continue
		}
		var tp *types.Struct
		for _, p := range P.SSA {
			if p.Pkg.Name() == st.pkg {
				if o, ok := p.Pkg.Scope().Lookup(st.typ).(*types.TypeName); ok {
					tp, _ = o.Type().Underlying().(*types.Struct)
				}
			}
		}
		for _, fn := range gs {
			say := func(key, msg string) {
				rep.add(fmt.Sprintf("%s.%s %s", st.pkg, st.typ, key), fmt.Sprintf("%s: %s: %s", P.pos(fn.Pos()), fnName(fn), msg))
			}
			bases := map[string]map[string]bool{}
			for _, tag := range append([]string{st.tag}, st.tags...) {
				// What is set when no key is.
				base := map[string]map[string]bool{}
				parts, tags := tagParts(0, tag, [2]string{"other1", "other2"})
				rs, w := sResults(P, fn, parts, tags, st.typ, funcs)
				runs++
				if w.bad != "" {
					rep.undecide(w.bad)
					return
				}
				paths += len(rs)
				if len(rs) == 0 {
					say("no result", "gives no settings for a tag "+tag)
					continue
				}
				for _, r := range rs {
					if r.none {
						say("none "+tag, fmt.Sprintf("gives nothing for a tag %q, or more than one", tag))
					}
					for _, k := range st.keys {
						want := ""
						switch {
						case k.field == "Fake":
							want = "true"
						case k.kind == "bool" || k.kind == "fold":
							want = "false"
						}
						if v, ok := r.fields[k.field]; ok && want != "" && v.String() != want {
							say("default "+k.field, fmt.Sprintf("%s is %s when no key says so", k.field, v))
						}
					}
					for f, v := range r.fields {
						if base[f] == nil {
							base[f] = map[string]bool{}
						}
						base[f][v.String()] = true
						if strings.Contains(v.String(), ".Values[") {
							say("default "+f, fmt.Sprintf("%s is set by a key of another name: %s", f, v))
						}
					}
				}
				bases = base
				for _, k := range st.keys {
					if tp != nil && !hasField(tp, k.field) {
						rep.undecide(fmt.Sprintf("%s.%s has no %s", st.pkg, st.typ, k.field))
						continue
					}
					for place := 0; place < 4; place++ {
						own, pos := place/2, place%2
						keys := [2]string{"other1", "other2"}
						keys[pos] = k.key
						parts, tags := tagParts(own, tag, keys)
						rs, w := sResults(P, fn, parts, tags, st.typ, funcs)
						runs++
						paths += len(rs)
						pairs++
						if w.bad != "" {
							rep.undecide(w.bad)
							return
						}
						item := fmt.Sprintf("tag%d.KV[%d]", own, pos)
						if len(rs) == 0 {
							say("key "+k.key, fmt.Sprintf("the key %s always gives an error", k.key))
						}
						set := false
						for _, r := range rs {
							if r.none {
								say("key "+k.key, fmt.Sprintf("with the key %s nothing is given", k.key))
								continue
							}
							for f, v := range r.fields {
								if f == k.field {
									continue
								}
								if !base[f][v.String()] {
									say("key "+k.key+" sets "+f, fmt.Sprintf("the key %s of a tag %s changes %s to %s", k.key, tag, f, v))
								}
							}
							ok, is, why := settingOf(k, r, item, base[k.field])
							set = set || is
							if !ok {
								say("key "+k.key, fmt.Sprintf("the key %s of a tag %s (%s) gives %s the value %s", k.key, tag, []string{"first", "second"}[pos], k.field, why))
							}
						}
						if len(rs) > 0 && !set {
							say("key "+k.key+" unset", fmt.Sprintf("the key %s of a tag %s never sets %s", k.key, tag, k.field))
						}
					}
				}
			}
			// Two keys, in either order: neither takes from the other.
			for _, k1 := range st.keys {
				for _, k2 := range st.keys {
					if k1.key == k2.key {
						continue
					}
					parts, tags := tagParts(0, st.tag, [2]string{k1.key, k2.key})
					rs, w := sResults(P, fn, parts, tags, st.typ, funcs)
					runs++
					pairs++
					paths += len(rs)
					if w.bad != "" {
						rep.undecide(w.bad)
						return
					}
					for _, r := range rs {
						if r.none {
							continue
						}
						for i, k := range []setting{k1, k2} {
							if ok, _, why := settingOf(k, r, fmt.Sprintf("tag0.KV[%d]", i), bases[k.field]); !ok {
								say("keys "+k.key, fmt.Sprintf("the keys %s and %s of one tag %s give %s the value %s", k1.key, k2.key, st.tag, k.field, why))
							}
						}
					}
				}
			}
			// Tags of other names.
			for _, other := range []string{"zother", st.tag[:len(st.tag)-1], st.tag + "s", "x" + st.tag} {
				parts, tags := tagParts(0, other, [2]string{st.keys[0].key, st.keys[1].key})
				rs, w := sResults(P, fn, parts, tags, st.typ, funcs)
				if w.bad != "" {
					rep.undecide(w.bad)
					return
				}
				runs++
				for _, r := range rs {
					if r.none {
						continue
					}
					say("tag "+st.tag, fmt.Sprintf("gives settings for a tag of the name %q", other))
				}
			}
			// Several tags: by their numbers, the greatest first.
			if len(st.tags) > 1 {
				for own := 0; own < 2; own++ {
					parts, tags := tagParts(own, st.tags[0], [2]string{"other1", st.keys[0].key})
					parts[fmt.Sprintf("tag%d.Name.Name", 1-own)] = sStr(st.tags[1])
					w := &sflow{P: P, parts: parts, funcs: funcs}
					var args []sval
					for i, p := range fn.Params {
						if i == tagsParam(fn) {
							args = append(args, tags)
						} else {
							args = append(args, sSym("param:%s", p.Name()))
						}
					}
					w.run(fn, args)
					if w.bad != "" {
						rep.undecide(w.bad)
						return
					}
					runs++
					for _, e := range w.ends {
						l, ok := w.list(e.s, e.r[0])
						if !ok || len(l) != 2 {
							say("order", "does not give the settings of both tags")
							continue
						}
						for i, x := range l {
							if x.k != 'p' {
								continue
							}
							own, other := fmt.Sprintf("tag%d.", own), fmt.Sprintf("tag%d.", 1-own)
							v := w.load(e.s, x).String()
							if i == 0 && strings.Contains(v, own) || i == 1 && strings.Contains(v, other) {
								say("order", fmt.Sprintf("the settings of %s come before those of %s", st.tags[0], st.tags[1]))
							}
						}
					}
				}
			}
		}
	}
	n, p := runLookups(P, rep, funcs)
	cov["lookups_by_name"], paths = n, paths+p
	p = runTexts(P, rep, funcs)
	paths += p
	p = runReferences(P, rep, funcs)
	paths += p
	cov["functions_interpreted"] = len(funcs)
	cov["runs"] = runs
	cov["paths_without_error"] = paths
	cov["keys_by_place"] = pairs
}

// elemOf is the member type with a name that a list holds.
func elemOf(t types.Type) *types.Named {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	p, ok := sl.Elem().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "ast" {
		return nil
	}
	if st, ok := n.Underlying().(*types.Struct); !ok || !hasField(st, "Name") {
		return nil
	}
	return n
}

// runLookups: what a member is looked up by is its whole name.
func runLookups(P *Program, rep *Report, funcs map[*ssa.Function]bool) (n, paths int) {
	for _, fn := range P.Funcs {
		if fn.Pkg == nil || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Signature.Recv() != nil || len(fn.Params) != 2 || fn.Signature.Results().Len() == 0 {
			continue
		}
		if nm := fn.Name(); fn.Pkg.Pkg.Name() != "build" || nm != "GetTag" && nm != "GetKeyValue" && nm != "getEnumItem" && nm != "getServerMethod" {
			continue // a helper may look for something else
		}
		if b, ok := fn.Params[1].Type().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		in, field := fn.Params[0].Type(), ""
		elem := elemOf(in)
		if elem == nil {
			if p, ok := in.(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if e := elemOf(st.Field(i).Type()); e != nil {
							elem, field = e, st.Field(i).Name()
							if q, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); ok && types.Identical(q.Elem(), e) {
								break
							}
						}
					}
				}
			}
		}
		if elem == nil {
			continue
		}
		if q, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); !ok || !types.Identical(q.Elem(), elem) {
			continue
		}
		n++
		for _, c := range []struct {
			name string
			want string
		}{{"user", "m[0]"}, {"use", "m[1]"}, {"us", ""}, {"users", ""}, {"User", ""}} {
			parts := map[string]sval{}
			var l []sval
			for i, nm := range []string{"user", "use"} {
				m := fmt.Sprintf("m[%d]", i)
				parts[m+".!"] = sBool(true)
				parts[m+".Name"] = sSym("%s.Name", m)
				parts[m+".Name.!"] = sBool(true)
				parts[m+".Name.Name"] = sStr(nm)
				l = append(l, sval{k: 's', s: m})
			}
			arg := sval{k: 'l', l: l}
			if field != "" {
				parts["in."+field] = arg
				parts["in.!"] = sBool(true)
				arg = sval{k: 's', s: "in"}
			}
			w := &sflow{P: P, parts: parts, funcs: funcs}
			w.run(fn, []sval{arg, sStr(c.name)})
			if w.bad != "" {
				rep.undecide(w.bad)
				return
			}
			for _, e := range w.ends {
				paths++
				got := e.r[0].String()
				if got == "nil" {
					got = ""
				}
				if got != c.want {
					rep.add(fmt.Sprintf("lookup %s %s", fnName(fn), c.name), fmt.Sprintf("%s: %s gives %q for the name %q of members user and use", P.pos(fn.Pos()), fnName(fn), got, c.name))
				}
				if len(e.r) == 2 && e.r[1].k == 'c' && e.r[1].c != nil && e.r[1].String() != fmt.Sprint(c.want != "") {
					rep.add(fmt.Sprintf("lookup %s %s", fnName(fn), c.name), fmt.Sprintf("%s: %s says %s for the name %q of members user and use", P.pos(fn.Pos()), fnName(fn), e.r[1], c.name))
				}
			}
			if len(w.ends) == 0 {
				rep.add("lookup "+fnName(fn), fmt.Sprintf("%s: %s crashes for the name %q", P.pos(fn.Pos()), fnName(fn), c.name))
			}
		}
	}
	return
}

// wholeName is a name, as it is or as a naming function gives it.
var wholeName = regexp.MustCompile(`^[\w.]+\("\w+"\)$`)

// runTexts: the functions that give the texts of a tag as a map have the text
// of each key under its name.
func runTexts(P *Program, rep *Report, funcs map[*ssa.Function]bool) (paths int) {
	for _, c := range []struct{ pkg, tag string }{{"build", "lang"}, {"golang", "tag"}} {
		found := 0
		for _, fn := range P.Funcs {
			if fn.Pkg == nil || fn.Pkg.Pkg.Name() != c.pkg || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Signature.Results().Len() == 0 || tagsParam(fn) < 0 {
				continue
			}
			t := fn.Signature.Results().At(0).Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				continue
			}
			_, all := m.Elem().Underlying().(*types.Slice)
			found++
			for own := -1; own < 2; own++ {
				parts, tags := tagParts(own, c.tag, [2]string{"zh", "en"})
				w := &sflow{P: P, parts: parts, funcs: funcs}
				var args []sval
				for i, p := range fn.Params {
					if i == tagsParam(fn) {
						args = append(args, tags)
					} else {
						args = append(args, sSym("param:%s", p.Name()))
					}
				}
				w.run(fn, args)
				if w.bad != "" {
					rep.undecide(w.bad)
					return
				}
				say := func(msg string) {
					rep.add(fmt.Sprintf("texts %s.%s", c.pkg, c.tag), fmt.Sprintf("%s: %s: %s", P.pos(fn.Pos()), fnName(fn), msg))
				}
				if len(w.ends) == 0 {
					say("no texts are given for a tag " + c.tag)
				}
				for _, e := range w.ends {
					paths++
					x := e.r[0]
					if x.k == 'p' {
						x = w.load(e.s, x)
					}
					if own < 0 {
						if x.k == 'm' && len(e.s.heap[x.n].keys) > 0 {
							say("texts are given for a tag of another name")
						}
						continue
					}
					if x.k != 'm' {
						say(fmt.Sprintf("gives %s for a tag %s", x, c.tag))
						continue
					}
					o := e.s.heap[x.n]
					if len(o.keys) != 2 {
						say(fmt.Sprintf("gives %d texts for 2 keys", len(o.keys)))
						continue
					}
					for i, k := range []string{"zh", "en"} {
						want := []string{fmt.Sprintf("text(tag%d.KV[%d].Values[0].Value)", own, i)}
						if all {
							want = append(want, fmt.Sprintf("text(tag%d.KV[%d].Values[1].Value)", own, i))
						}
						ok := false
						for j, key := range o.keys {
							if t := key.String(); t != strconv.Quote(k) && !wholeName.MatchString(t) || !strings.Contains(t, strconv.Quote(k)) {
								continue
							}
							l := []sval{o.vals[j]}
							if all {
								l, _ = w.list(e.s, o.vals[j])
							}
							ok = ok || sList(l) == strings.Join(want, ", ")
						}
						if !ok {
							say(fmt.Sprintf("the text of the key %s is not under its name", k))
						}
					}
				}
			}
		}
		if found == 0 {
			rep.undecide(fmt.Sprintf("nothing gives the texts of the tag %s in %s", c.tag, c.pkg))
		}
	}
	return
}

// runReferences: what [verify:format] and [bind:value] name is what is looked up:
// the first part of the text in the file, the second among its members.
func runReferences(P *Program, rep *Report, funcs map[*ssa.Function]bool) (paths int) {
	for _, c := range []struct{ typ, tag, key, field string }{{"Verify", "verify", "format", "Item"}, {"Binding", "bind", "value", "Method"}} {
		gs := getters(P, "build", c.typ)
		if len(gs) == 0 {
			rep.undecide("nothing gives build." + c.typ)
			continue
		}
		for _, fn := range gs {
			say := func(msg string) {
				rep.add("reference "+c.tag, fmt.Sprintf("%s: %s: %s", P.pos(fn.Pos()), fnName(fn), msg))
			}
			for place := 0; place < 4; place++ {
				own, pos := place/2, place%2
				keys := [2]string{"other1", "other2"}
				keys[pos] = c.key
				parts, tags := tagParts(own, c.tag, keys)
				w := &sflow{P: P, parts: parts, funcs: funcs}
				var args []sval
				for i, p := range fn.Params {
					if i == tagsParam(fn) {
						args = append(args, tags)
					} else {
						args = append(args, sSym("param:%s", p.Name()))
					}
				}
				w.run(fn, args)
				if w.bad != "" {
					rep.undecide(w.bad)
					return
				}
				good := 0
				for _, e := range w.ends {
					if x := e.r[len(e.r)-1]; !(x.k == 'c' && x.c == nil) {
						continue
					}
					paths++
					x := e.r[0]
					if x.k != 'p' {
						say(fmt.Sprintf("a tag %s with the key %s gives %s", c.tag, c.key, x))
						continue
					}
					var refs []sval
					o := e.s.heap[x.n]
					st := o.t.Underlying().(*types.Struct)
					values := 1
					if c.tag == "bind" {
						refs = []sval{x}
					} else {
						values = 2
						for i := 0; i < st.NumFields(); i++ {
							if l, ok := w.list(e.s, w.load(e.s, sval{k: 'p', n: x.n, path: fmt.Sprint(".", i)})); ok && len(l) > 0 {
								refs = l
							}
						}
					}
					if len(refs) != values {
						say(fmt.Sprintf("%d of %d texts of the key %s are looked up", len(refs), values, c.key))
						continue
					}
					good++
					for i, ref := range refs {
						if ref.k != 'p' {
							continue
						}
						text := fmt.Sprintf("text(tag%d.KV[%d].Values[%d].Value)", own, pos, i)
						rst, ok := e.s.heap[ref.n].t.Underlying().(*types.Struct)
						if !ok {
							continue
						}
						for j := 0; j < rst.NumFields(); j++ {
							v := w.load(e.s, sval{k: 'p', n: ref.n, path: fmt.Sprint(".", j)}).String()
							nm := rst.Field(j).Name()
							if nm == "Name" {
								continue
							}
							first, second := strings.Contains(v, text+", \".\").[0]"), strings.Contains(v, text+", \".\").[1]")
							if !strings.Contains(v, text) || strings.Contains(v, "split(") && (!first || second) {
								say(fmt.Sprintf("%s of the text %d of the key %s is %s", nm, i+1, c.key, v))
								continue
							}
							if nm != c.field {
								continue
							}
							// The member was compared with the second part.
							ok := false
							for cond, yes := range e.s.conds {
								if yes && strings.HasPrefix(cond, "eq(") && strings.Contains(cond, v+".Name.Name") {
									rest := strings.ReplaceAll(cond, v+".Name.Name", "")
									ok = ok || strings.Contains(rest, text) && (!strings.Contains(rest, "split(") || strings.Contains(rest, text+", \".\").[1]"))
								}
							}
							if !ok {
								say(fmt.Sprintf("the member that the text %d of the key %s gives is not the one it names", i+1, c.key))
							}
						}
					}
				}
				if good == 0 {
					say(fmt.Sprintf("the key %s of a tag %s gives nothing", c.key, c.tag))
				}
			}
		}
	}
	return
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// settingOf: the setting of a key is as the text of its item says. set: on
// this path it comes from the text.
func settingOf(k setting, r sResult, item string, base map[string]bool) (ok, set bool, why string) {
	v := r.fields[k.field]
	first := "text(" + item + ".Values[0].Value)"
	got := strings.ReplaceAll(v.String(), "conv:", "")
	asked := func(c string) (yes, known bool) {
		for x, b := range r.conds {
			if strings.ReplaceAll(x, "conv:", "") == c {
				return b, true
			}
		}
		return false, false
	}
	switch k.kind {
	case "text":
		if got == first {
			return true, true, ""
		}
		// An empty text: the default.
		if yes, known := asked(`eq("", ` + first + ")"); known && yes && base[v.String()] {
			return true, false, ""
		}
	case "bool", "fold":
		for _, t := range []string{first, "lower(" + first + ")"} {
			if (k.kind == "bool") != (t == first) {
				continue
			}
			q := `eq("true", ` + t + ")"
			if got == q {
				return true, true, ""
			}
			if yes, known := asked(q); known && got == fmt.Sprint(yes) {
				return true, yes, ""
			}
		}
	case "int", "float":
		if got == k.kind+"("+first+")" {
			return true, true, ""
		}
	case "*int":
		if got == "&int("+first+")" {
			return true, true, ""
		}
	case "list":
		l := r.lists[k.field]
		if len(l) == 2 && l[0].String() == first && l[1].String() == "text("+item+".Values[1].Value)" {
			return true, true, ""
		}
	}
	return false, false, v.String()
}

func init() {
	register("P25", "Abstract interpretation of every function that turns tags into settings, over tags and keys whose names are known and whose texts are symbols: for each key, at each place, the text of its own item — and of nothing else — reaches the setting of that key on every path that gives no error; no other setting changes; tags and keys of other names set nothing", runSettings)
}
