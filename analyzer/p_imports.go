package main

import (
	"fmt"
	"go/types"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Imports: a generated Go file imports exactly the packages its code mentions.
// One run of the generator per package; the property state is which writers
// have imported it and which have mentioned it so far.

type impProp struct {
	imp, use map[*V]string // import maps and buffers -> where
	ran      map[*V]bool   // iterations over import maps that have made a trip
	pend     map[*V]bool   // buffers whose text ends with the name alone
	key      string
}

func (p *impProp) Key() string {
	if p.key != "" {
		return p.key
	}
	var ks []string
	for v := range p.imp {
		ks = append(ks, fmt.Sprintf("i%d", v.id))
	}
	for v := range p.use {
		ks = append(ks, fmt.Sprintf("u%d", v.id))
	}
	for v := range p.ran {
		ks = append(ks, fmt.Sprintf("r%d", v.id))
	}
	for v := range p.pend {
		ks = append(ks, fmt.Sprintf("p%d", v.id))
	}
	sort.Strings(ks)
	p.key = strings.Join(ks, " ") + "."
	return p.key
}

func (p *impProp) clone() *impProp {
	n := &impProp{imp: map[*V]string{}, use: map[*V]string{}, ran: map[*V]bool{}, pend: map[*V]bool{}}
	for k, v := range p.imp {
		n.imp[k] = v
	}
	for k, v := range p.use {
		n.use[k] = v
	}
	for k := range p.ran {
		n.ran[k] = true
	}
	for k := range p.pend {
		n.pend[k] = true
	}
	return n
}

type impClient struct {
	baseClient
	rep    *Report
	lang   string
	path   string // the import; "" for the packages of the schema
	name   string // how code names it
	rx     *regexp.Regexp
	seen   map[string]string // collects: path -> name
	texts  map[string]string // collects: fixed text -> where
	others map[string]bool   // further imports that bring the name
	named  bool              // the name alone mentions the import, and an import without a mention is no error
	fimp   map[*V]bool       // import maps that get the import for the type of a field
	late   []lateMention
	ctxOf  map[int]int
	ctxs   map[int]*Ctx
	files  int
	uses   int
	imps   int
}

func newImpClient(rep *Report, lang, p, name string) *impClient {
	c := &impClient{rep: rep, lang: lang, path: p, name: name}
	if name != "" {
		c.rx = regexp.MustCompile(`(?:^|[^A-Za-z0-9_."\\])` + regexp.QuoteMeta(name) + `\.(?:[A-Z]|$)`)
	}
	return c
}

// lateMention: a file mentions the name for a field, without importing it there.
type lateMention struct {
	m        *V
	key, msg string
}

// forField: the code handles a field.
func forField(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		if handlesField(c.fn) {
			return true
		}
	}
	return false
}

func handlesField(fn *ssa.Function) bool {
	is := func(t types.Type) bool { return strings.HasSuffix(t.String(), "pkg/ast.Field") }
	for _, p := range fn.Params {
		if is(p.Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && is(v.Type()) {
				return true
			}
		}
	}
	return false
}

// The names that the other languages get from an import. Unused imports are
// allowed there.
var importedNames = []struct {
	lang, name string
	paths      []string
}{
	{"dart", "Int64", []string{"package:fixnum/fixnum.dart"}},
	{"dart", "Decimal", []string{"package:decimal/decimal.dart"}},
	{"dart", "Data", []string{"package:hbuf_dart/hbuf_dart.dart"}},
	{"dart", "ServerClient", []string{"package:hbuf_dart/hbuf_dart.dart"}},
	{"dart", "json", []string{"dart:convert"}},
	{"dart", "Uint8List", []string{"dart:typed_data"}},
	{"dart", "ByteData", []string{"dart:typed_data"}},
	{"dart", "SynchronousFuture", []string{"package:flutter/foundation.dart", "package:flutter/widgets.dart", "package:flutter/material.dart"}},
	{"java", "Data", []string{"com.hbuf.java.Data"}},
	{"java", "Server", []string{"com.hbuf.java.Server"}},
	{"java", "BigDecimal", []string{"java.math.BigDecimal"}},
	{"java", "BigInteger", []string{"java.math.BigInteger"}},
	{"java", "Date", []string{"java.util.Date"}},
	{"java", "List", []string{"java.util.List"}},
	{"java", "Map", []string{"java.util.Map"}},
	{"java", "CompletableFuture", []string{"java.util.concurrent.CompletableFuture"}},
	{"ts", "h", []string{"hbuf_ts"}},
	{"ts", "d", []string{"decimal.js"}},
	{"ts", "Long", []string{"long"}},
	{"ts", "defineComponent", []string{"vue"}},
	{"ts", "useLocale", []string{"element-plus"}},
}

func newNameClient(rep *Report, lang, name string, paths []string) *impClient {
	c := newImpClient(rep, lang, paths[0], "")
	c.named, c.name, c.others, c.fimp = true, name, map[string]bool{}, map[*V]bool{}
	for _, p := range paths {
		c.others[p] = true
	}
	end := `(?:[^A-Za-z0-9_$]|$)`
	if len(name) == 1 || name == "json" {
		end = `\.`
	}
	c.rx = regexp.MustCompile(`(?:^|[^A-Za-z0-9_.$"'\\])` + regexp.QuoteMeta(name) + end)
	return c
}

func (b *impClient) Init() Prop { return (&impProp{}).clone() }

// isImportMap: the map a writer keeps its imports in.
func isImportMap(m *V) bool {
	mt, ok := typeOf(m).(*types.Map)
	if !ok {
		return false
	}
	k, ok1 := mt.Key().Underlying().(*types.Basic)
	v, ok2 := mt.Elem().Underlying().(*types.Basic)
	return ok1 && ok2 && k.Kind() == types.String && v.Kind() == types.String
}

func (b *impClient) mine(k *V) bool {
	if s, ok := k.constStr(); ok {
		return b.path != "" && (s == b.path || b.others[s])
	}
	return b.path == "" && k.Op != "rkey"
}

func (b *impClient) MapUpdate(e *Engine, st *State, m, k, v *V, c *Ctx, in ssa.Instruction) {
	if !isImportMap(m) {
		return
	}
	if b.seen != nil {
		if s, ok := k.constStr(); ok && e.quiet == 0 {
			n := path.Base(s)
			if a, ok := v.constStr(); ok && a != "" {
				n = a
			}
			if o, ok := b.seen[s]; ok && o != n {
				b.rep.add("names|"+s, fmt.Sprintf("%s: %q is imported as %s and as %s", b.lang, s, o, n))
			}
			b.seen[s] = n
		}
		return
	}
	p := st.prop.(*impProp)
	if k.Op == "rkey" {
		n := p.clone()
		n.ran[k] = true
		if w, ok := p.imp[k.Args[0]]; ok {
			n.imp[m] = w
		}
		if b.fimp[k.Args[0]] {
			b.fimp[m] = true
		}
		st.prop = n
		return
	}
	if b.mine(k) {
		b.imps++
		if b.named && forField(c) {
			b.fimp[m] = true
		}
		n := p.clone()
		n.imp[m] = e.where(c, in)
		st.prop = n
	}
}

func (b *impClient) Cond(e *Engine, st *State, c *V) (bool, bool) {
	if b.seen != nil {
		return false, false
	}
	p := st.prop.(*impProp)
	switch c.Op {
	case "has":
		if isImportMap(c.Args[0]) && c.Args[0].Op == "obj" {
			if b.mine(c.Args[1]) {
				_, ok := p.imp[c.Args[0]]
				return ok, b.path != ""
			}
		}
	case "more":
		if m := c.Args[0]; isImportMap(m) {
			if _, ok := p.imp[m]; ok {
				for k := range p.ran {
					if k.Args[0] == m {
						return false, false
					}
				}
				return true, b.path != "" || b.path == ""
			}
		}
	}
	return false, false
}

func (b *impClient) NewObj(e *Engine, st *State, obj *V) {
	p := st.prop.(*impProp)
	n := p.clone()
	ch := false
	for k := range p.imp {
		if uses(k, obj) {
			delete(n.imp, k)
			ch = true
		}
	}
	for k := range p.use {
		if uses(k, obj) && !(k == obj && kept(st.mem, k)) {
			delete(n.use, k)
			ch = true
		}
	}
	for k := range p.ran {
		if uses(k, obj) {
			delete(n.ran, k)
			ch = true
		}
	}
	for k := range p.pend {
		if uses(k, obj) {
			delete(n.pend, k)
			ch = true
		}
	}
	if ch {
		st.prop = n
	}
}

// kept: the text of the buffer is remembered somewhere: the buffer stands for
// all that were made at its place.
func kept(m *Mem, buf *V) bool {
	for _, v := range m.store {
		cs := map[*V]bool{}
		contents(v, cs)
		if cs[buf] {
			return true
		}
	}
	return false
}

// Leave forgets the writers of a call that nobody can reach after it.
func (b *impClient) Leave(e *Engine, st *State, c *Ctx, ret []*V) {
	if b.seen != nil || c.parent == nil {
		return
	}
	p := st.prop.(*impProp)
	if len(p.imp)+len(p.use)+len(p.ran)+len(p.pend) == 0 {
		return
	}
	own := map[*V]bool{}
	in := func(x *V) bool {
		if r, ok := own[x]; ok {
			return r
		}
		r := b.within(e, x, c)
		own[x] = r
		return r
	}
	var objs func(v *V, out map[*V]bool)
	objs = func(v *V, out map[*V]bool) {
		if v == nil || out[v] {
			return
		}
		if v.Op == "obj" {
			out[v] = true
		}
		for _, a := range v.Args {
			objs(a, out)
		}
	}
	live := map[*V]bool{}
	for _, r := range ret {
		objs(r, live)
	}
	from := map[*V][]map[*V]bool{}
	for k, v := range st.mem.store {
		to := map[*V]bool{}
		objs(v, to)
		if len(to) == 0 {
			continue
		}
		ks := map[*V]bool{}
		objs(k, ks)
		outer := len(ks) == 0
		for x := range ks {
			if !in(x) {
				outer = true
			}
			from[x] = append(from[x], to)
		}
		if outer {
			for x := range to {
				live[x] = true
			}
		}
	}
	for work := keysV(live); len(work) > 0; {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, to := range from[x] {
			for y := range to {
				if !live[y] {
					live[y] = true
					work = append(work, y)
				}
			}
		}
	}
	n := p.clone()
	dead := func(k *V) bool {
		os := map[*V]bool{}
		objs(k, os)
		for x := range os {
			if in(x) && !live[x] {
				return true
			}
		}
		return false
	}
	for k := range p.imp {
		if dead(k) {
			delete(n.imp, k)
		}
	}
	for k := range p.use {
		if dead(k) {
			delete(n.use, k)
		}
	}
	for k := range p.ran {
		if dead(k) || in(k) {
			delete(n.ran, k)
		}
	}
	for k := range p.pend {
		if dead(k) {
			delete(n.pend, k)
		}
	}
	st.prop = n
}

func keysV(m map[*V]bool) []*V {
	var out []*V
	for k := range m {
		out = append(out, k)
	}
	return out
}

// within: the object is allocated in the call c or one it makes.
func (b *impClient) within(e *Engine, x *V, c *Ctx) bool {
	if b.ctxOf == nil {
		b.ctxOf = map[int]int{}
	}
	if len(b.ctxOf) != len(e.T.siteK) {
		for k, n := range e.T.siteK {
			if id, err := strconv.Atoi(strings.SplitN(k, "|", 2)[0]); err == nil {
				b.ctxOf[n] = id
			} else {
				b.ctxOf[n] = -1
			}
		}
	}
	for _, s := range x.sites {
		id, ok := b.ctxOf[s]
		if !ok {
			continue
		}
		for d := b.ctx(e, id); d != nil; d = d.parent {
			if d == c {
				return true
			}
		}
	}
	return false
}

func (b *impClient) ctx(e *Engine, id int) *Ctx {
	if b.ctxs == nil || len(b.ctxs) != len(e.ctxs) {
		b.ctxs = map[int]*Ctx{}
		for _, c := range e.ctxs {
			b.ctxs[c.id] = c
		}
	}
	return b.ctxs[id]
}

// mentions: how a part of a text may name the package.
func (b *impClient) mentions(e *Engine, s *State, part *V, d int) (yes, no bool) {
	if t, ok := part.constStr(); ok {
		m := b.rx != nil && b.rx.MatchString(t)
		return m, !m
	}
	if part.Op == "content" {
		_, u := s.prop.(*impProp).use[part.Args[0]]
		return u, !u
	}
	if part.Op == "cat" {
		no = true
		for _, p := range part.Args {
			y, n := b.mentions(e, s, p, d+1)
			yes = yes || y
			no = no && n
		}
		return yes, no
	}
	var alts []*V
	if ta, ok := e.tableAlts(s, part); ok {
		alts = ta
	} else if a := e.Alts(part); len(a) > 1 || a[0] != part {
		alts = a
	}
	if len(alts) == 0 || d > 3 {
		return false, true
	}
	for _, a := range alts {
		y, n := b.mentions(e, s, a, d+1)
		yes, no = yes || y, no || n
	}
	return yes, no
}

func contents(v *V, out map[*V]bool) {
	if v == nil {
		return
	}
	if v.Op == "content" {
		out[v.Args[0]] = true
		return
	}
	for _, a := range v.Args {
		contents(a, out)
	}
}

func (b *impClient) Emit(e *Engine, st *State, sink, text *V, c *Ctx, in ssa.Instruction) []*State {
	if b.seen != nil {
		for _, part := range textParts(text) {
			for _, a := range e.Alts(part) {
				if t, ok := a.constStr(); ok && e.quiet == 0 {
					b.texts[t] = e.where(c, in)
				}
			}
		}
		return nil
	}
	sink = e.builderOf(st, sink)
	if isFileSink(sink) {
		bs := map[*V]bool{}
		contents(text, bs)
		for x := range bs {
			b.file(e, st, x, e.where(c, in))
		}
		return nil
	}
	at := e.where(c, in)
	ps := textParts(text)
	states := []*State{st}
	for i, part := range ps {
		var next []*State
		for _, s := range states {
			y, n := b.mentions(e, s, part, 0)
			p := s.prop.(*impProp)
			if t, ok := part.constStr(); ok && b.rx != nil && !b.named {
				if i == 0 && p.pend[sink] && strings.HasPrefix(t, ".") {
					y, n = true, false
				}
				q := p.clone()
				if t == b.name || strings.HasSuffix(t, b.name) && b.rx.MatchString(t+".X") && !b.rx.MatchString(t) {
					q.pend[sink] = true
				} else {
					delete(q.pend, sink)
				}
				if len(q.pend) != len(p.pend) {
					s.prop = q
				}
			} else if p.pend[sink] {
				q := p.clone()
				delete(q.pend, sink)
				s.prop = q
			}
			if y {
				if n {
					next = append(next, s.fork())
				}
				if e.quiet == 0 {
					b.uses++
				}
				q := s.prop.(*impProp).clone()
				w := at
				if b.named && forField(c) {
					w = "field " + at
				}
				if o := q.use[sink]; o == "" || strings.HasPrefix(o, "field ") && w == at {
					q.use[sink] = w
				}
				s.prop = q
			}
			next = append(next, s)
		}
		states = next
	}
	return states
}

// file: a buffer is written to a file.
func (b *impClient) file(e *Engine, st *State, x *V, at string) {
	var w *V
	for k, v := range st.mem.store {
		if k.Op == "&." && v != nil && (v == x || e.builderOf(st, v) == x) {
			w = k.Args[0]
		}
	}
	if w == nil {
		if e.quiet == 0 {
			b.rep.undecide(b.lang + ": the writer of the buffer written to a file is not known (" + at + ")")
		}
		return
	}
	p := st.prop.(*impProp)
	imported, iw := false, ""
	var im *V
	found := false
	for k, v := range st.mem.store {
		if k.Op == "&." && k.Args[0] == w && v != nil && isImportMap(v) {
			found = true
			im = v
			iw, imported = p.imp[v]
		}
	}
	if !found {
		if e.quiet == 0 {
			b.rep.undecide(b.lang + ": the imports of the writer are not known (" + at + ")")
		}
		return
	}
	if e.quiet > 0 {
		return
	}
	b.files++
	uw, used := p.use[x]
	switch {
	case imported && !used && !b.named:
		b.rep.add("unused|"+b.path+"|"+b.siteFn(iw), fmt.Sprintf("%s: a file can import %q (%s) without naming it", b.lang, b.path, iw))
	case used && !imported:
		field := strings.HasPrefix(uw, "field ")
		uw = strings.TrimPrefix(uw, "field ")
		k := "missing|" + b.path
		if b.named {
			k += "|" + b.name
		}
		k += "|" + b.siteFn(uw)
		msg := fmt.Sprintf("%s: a file can name %s (%s) without importing %q", b.lang, b.name, uw, b.path)
		if field {
			// The declaration of the field, in the same file, may import it.
			b.late = append(b.late, lateMention{im, k, msg})
		} else {
			b.rep.add(k, msg)
		}
	}
}

// siteFn is the function of a place.
func (b *impClient) siteFn(s string) string { return strings.SplitN(s, " (", 2)[0] }

// unknownNames: what the fixed text of the generator selects from is a package
// some code imports, or a name the text declares.
func unknownNames(rep *Report, c *impClient) {
	names := map[string]bool{}
	byName := map[string]string{}
	for _, p := range sortedKeys(c.seen) {
		n := c.seen[p]
		if o, ok := byName[n]; ok {
			rep.add("clash|"+n, fmt.Sprintf("%s: %q and %q are both named %s", c.lang, o, p, n))
		}
		byName[n] = p
		names[n] = true
	}
	rx := regexp.MustCompile(`(?:^|[^A-Za-z0-9_."\\])([a-z][A-Za-z0-9_]*)\.[A-Z]`)
	for _, t := range sortedKeys(c.texts) {
		for _, m := range rx.FindAllStringSubmatch(t, -1) {
			n := m[1]
			if names[n] {
				continue
			}
			decl := regexp.MustCompile(`(?:^|[^A-Za-z0-9_.])` + n + `(?:,| [:=*\[a-zA-Z]|$)`)
			ok := false
			for u := range c.texts {
				if decl.MatchString(u) {
					ok = true
				}
			}
			if !ok {
				rep.add("unknown|"+n, fmt.Sprintf("%s: the generated code names %s. (%s), which it neither imports nor declares", c.lang, n, c.texts[t]))
			}
		}
	}
}

func init() {
	register("P06", "Abstract interpretation of the Go generator, once for each package it can import; the property state is which import tables hold the package and which buffers name it.",
		func(P *Program, rep *Report, cov Coverage, tier string) {
			backs := map[string]Backend{}
			for _, b := range P.backends() {
				backs[b.Name] = b
			}
			for _, n := range []string{"go", "dart", "java", "ts"} {
				if backs[n].Fn == nil {
					rep.add("anchor|backend|"+n, "no generator is registered under the name "+n)
					return
				}
			}
			run := func(c *impClient) *Engine {
				back := backs[c.lang]
				e := newEngine(P, c)
				e.exec(back.Fn, e.paramVals(back.Fn), nil, &State{prop: c.Init(), mem: newMem()}, nil, nil)
				for _, u := range e.Undecided {
					rep.undecide(c.lang + " " + c.path + ": " + u)
				}
				return e
			}
			col := newImpClient(rep, "go", "", "")
			col.seen, col.texts = map[string]string{}, map[string]string{}
			run(col)
			if len(col.seen) < 8 {
				rep.add("anchor|imports", fmt.Sprintf("only %d imports are found in the generator", len(col.seen)))
			}
			unknownNames(rep, col)
			var wg sync.WaitGroup
			var mu sync.Mutex
			none := []string{}
			for _, p := range sortedKeys(col.seen) {
				wg.Add(1)
				go func(p string) {
					defer wg.Done()
					defer rep.guard()
					c := newImpClient(rep, "go", p, col.seen[p])
					e := run(c)
					mu.Lock()
					defer mu.Unlock()
					addInt(cov, "block_visits", e.Steps)
					addInt(cov, "imports_followed", c.imps)
					addInt(cov, "mentions_followed", c.uses)
					addInt(cov, "file_states_checked", c.files)
				}(p)
			}
			for _, n := range importedNames {
				wg.Add(1)
				go func(lang, name string, paths []string) {
					defer wg.Done()
					defer rep.guard()
					c := newNameClient(rep, lang, name, paths)
					e := run(c)
					mu.Lock()
					defer mu.Unlock()
					addInt(cov, "block_visits", e.Steps)
					addInt(cov, "imports_followed", c.imps)
					addInt(cov, "mentions_followed", c.uses)
					addInt(cov, "file_states_checked", c.files)
					for _, l := range c.late {
						if !c.fimp[l.m] {
							rep.add(l.key, l.msg)
						}
					}
					if c.imps == 0 {
						none = append(none, lang+" "+name)
					}
				}(n.lang, n.name, n.paths)
			}
			wg.Wait()
			sort.Strings(none)
			if len(none) > 4 {
				rep.add("anchor|names", "no import is found for "+strings.Join(none, ", "))
			}
			cov["names_never_imported"] = none
			cov["packages"] = sortedKeys(col.seen)
		})
}
