package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The grammar of a schema file, and the tree that stands for it.

type gkind int

const (
	gTok gkind = iota
	gSeq
	gOpt
	gStar
	gAlt
	gProd
	gEnd // ";", which may be missing ahead of a closing brace
	gPop // the end of a part
)

type gnode struct {
	k    gkind
	tok  string // token constant
	kind int64
	role string
	kids []*gnode
	prod string
	id   int
}

func gT(tok, role string) *gnode { return &gnode{k: gTok, tok: tok, role: role} }
func gS(kids ...*gnode) *gnode   { return &gnode{k: gSeq, kids: kids} }
func gO(kids ...*gnode) *gnode   { return &gnode{k: gOpt, kids: kids} }
func gR(kids ...*gnode) *gnode   { return &gnode{k: gStar, kids: kids} }
func gN(n string, kids ...*gnode) *gnode {
	return &gnode{k: gStar, kids: kids, role: n}
}
func gA(kids ...*gnode) *gnode         { return &gnode{k: gAlt, kids: kids} }
func gP(prod, role string) *gnode      { return &gnode{k: gProd, prod: prod, role: role} }
func (g *gnode) nameOf() string        { return fmt.Sprintf("%d", g.id) }
func gFirst(fs ...map[int64]bool) kset { return 0 }

// schemaGrammar is what a schema file may contain.
var schemaGrammar = map[string]*gnode{
	"file":    gS(gN("packages", gP("package", "packages")), gN("imports", gP("import", "imports")), gN("decls", gP("decl", "decls")), gT("EOF", "")),
	"package": gS(gT("PACKAGE", ""), gO(gT("IDENT", "name")), gT("ASSIGN", ""), gT("STRING", "value"), &gnode{k: gEnd}),
	"import":  gS(gT("IMPORT", ""), gT("STRING", "path"), &gnode{k: gEnd}),
	"decl": gS(gN("declTags", gP("tag", "tags")), gA(
		gS(gT("DATA", "data"), gT("IDENT", "name"), gP("bases", "bases"), gT("LBRACE", ""), gN("members", gP("field", "fields")), gT("RBRACE", "")),
		gS(gT("ENUM", "enum"), gT("IDENT", "name"), gT("LBRACE", ""), gN("members", gP("item", "items")), gT("RBRACE", "")),
		gS(gT("SERVER", "server"), gT("IDENT", "name"), gP("bases", "bases"), gT("LBRACE", ""), gN("members", gP("method", "methods")), gT("RBRACE", "")),
	), gO(gT("ASSIGN", "")), &gnode{k: gEnd}),
	"bases": gO(gT("COLON", ""), gP("base", "list"), gN("bases", gA(gT("COLON", ""), gT("COMMA", "")), gP("base", "list"))),
	"base":  gS(gT("IDENT", "name"), gT("ASSIGN", ""), gT("INT", "id")),
	"tag":   gS(gT("LBRACK", "open"), gT("IDENT", "name"), gT("COLON", ""), gN("kvs", gP("kv", "kvs"), gO(gT("SEMICOLON", ""))), gT("RBRACK", ""), &gnode{k: gEnd}),
	"kv":    gS(gT("IDENT", "name"), gT("ASSIGN", ""), gP("text", "values"), gN("values", gT("COMMA", ""), gP("text", "values"))),
	"text":  gS(gT("STRING", "text")),
	"field": gS(gN("memberTags", gP("tag", "tags")), gP("type", "type"), gT("IDENT", "name"), gT("ASSIGN", ""), gT("INT", "id"), gO(gT("STRING", "")), &gnode{k: gEnd}),
	"item":  gS(gN("memberTags", gP("tag", "tags")), gT("IDENT", "name"), gT("ASSIGN", ""), gT("INT", "id"), &gnode{k: gEnd}),
	"type": gS(gT("IDENT", "name"), gO(gT("Question", "null")), gO(gA(
		gS(gT("LBRACK", "array"), gT("RBRACK", ""), gO(gT("Question", "null2"))),
		gS(gT("LSS", "map"), gP("type", "key"), gT("GTR", ""), gO(gT("Question", "null2")))))),
	"plain":  gS(gT("IDENT", "name"), gO(gT("Question", "null"))),
	"method": gS(gN("memberTags", gP("tag", "tags")), gP("plain", "result"), gT("IDENT", "name"), gT("LPAREN", ""), gP("plain", "param"), gT("IDENT", "paramName"), gT("RPAREN", ""), gT("ASSIGN", ""), gT("INT", "id"), &gnode{k: gEnd}),
}

type grammar struct {
	prods map[string]*gnode
	first map[*gnode]kset
	null  map[*gnode]bool
	nodes []*gnode
	semi  int64
	brace int64
	names map[int64]string
	eof   int64
	// How often each repetition is read in a text whose tree is followed.
	shape map[string]int
}

func newGrammar(kinds map[string]int64) (*grammar, error) {
	g := &grammar{prods: schemaGrammar, first: map[*gnode]kset{}, null: map[*gnode]bool{}, names: map[int64]string{}}
	for n, k := range kinds {
		g.names[k] = n
	}
	var miss string
	seen := map[*gnode]bool{}
	var all func(n *gnode)
	all = func(n *gnode) {
		if seen[n] {
			return
		}
		seen[n] = true
		n.id = len(g.nodes)
		g.nodes = append(g.nodes, n)
		if n.k == gTok {
			k, ok := kinds[n.tok]
			if !ok {
				miss = n.tok
			}
			n.kind = k
		}
		for _, x := range n.kids {
			all(x)
		}
	}
	var ps []string
	for p := range g.prods {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		all(g.prods[p])
	}
	for n, p := range map[string]*int64{"SEMICOLON": &g.semi, "RBRACE": &g.brace, "EOF": &g.eof} {
		k, ok := kinds[n]
		if !ok {
			miss = n
		}
		*p = k
	}
	if miss != "" {
		return nil, fmt.Errorf("there is no token %s", miss)
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.nodes {
			f, e := g.calc(n)
			if f != g.first[n] || e != g.null[n] {
				g.first[n], g.null[n] = f, e
				ch = true
			}
		}
	}
	return g, nil
}

func (g *grammar) calc(n *gnode) (kset, bool) {
	switch n.k {
	case gTok:
		return 1 << uint(n.kind), false
	case gEnd:
		return 1 << uint(g.semi), true
	case gProd:
		return g.first[g.prods[n.prod]], g.null[g.prods[n.prod]]
	case gAlt:
		var f kset
		e := false
		for _, x := range n.kids {
			f |= g.first[x]
			e = e || g.null[x]
		}
		return f, e
	}
	var f kset
	e := true
	for _, x := range n.kids {
		f |= g.first[x]
		if !g.null[x] {
			e = false
			break
		}
	}
	if n.k == gOpt || n.k == gStar {
		e = true
	}
	return f, e
}

// gstate is a point in the grammar, with the tree of the text so far.
type gstate struct {
	g     *grammar
	stack []gitem
	nodes map[int]*rnode
	open  []int // parts being read
	pend  []int // parts read but not yet found in the heap
	next  int
	last  []string // the tokens before, for messages
	depth int
}

type gitem struct {
	n     *gnode
	count int
}

type rnode struct {
	prod  string
	toks  map[string]int
	kids  map[string][]int
	first int
	opq   bool
}

func (s *gstate) clone() *gstate {
	n := *s
	n.stack = append([]gitem{}, s.stack...)
	n.open = append([]int{}, s.open...)
	n.pend = append([]int{}, s.pend...)
	n.last = append([]string{}, s.last...)
	n.nodes = make(map[int]*rnode, len(s.nodes))
	for k, r := range s.nodes {
		c := &rnode{prod: r.prod, first: r.first, opq: r.opq, toks: map[string]int{}, kids: map[string][]int{}}
		for a, b := range r.toks {
			c.toks[a] = b
		}
		for a, b := range r.kids {
			c.kids[a] = append([]int{}, b...)
		}
		n.nodes[k] = c
	}
	return &n
}

func (g *grammar) start() *gstate {
	s := &gstate{g: g, nodes: map[int]*rnode{}}
	s.begin("file", "")
	return s
}

func (s *gstate) begin(prod, role string) {
	s.next++
	s.nodes[s.next] = &rnode{prod: prod, toks: map[string]int{}, kids: map[string][]int{}}
	if len(s.open) > 0 && role != "" {
		up := s.nodes[s.open[len(s.open)-1]]
		up.kids[role] = append(up.kids[role], s.next)
	}
	s.open = append(s.open, s.next)
	s.stack = append(s.stack, gitem{n: &gnode{k: gPop}}, gitem{n: s.g.prods[prod]})
}

type gres int

const (
	gFail gres = iota
	gOK
	gBound
)

// allows tells whether the grammar has the token here.
func (s *gstate) allows(k int64) bool {
	return s.clone().take(k, 0, false) == gOK
}

// take reads one token. With a bound, repetitions are read twice at most and
// types are nested twice at most.
func (s *gstate) take(k int64, tok int, bound bool) gres {
	g := s.g
	has := func(n *gnode) bool { return g.first[n].has(k) }
	push := func(kids []*gnode) {
		for i := len(kids) - 1; i >= 0; i-- {
			s.stack = append(s.stack, gitem{n: kids[i]})
		}
	}
	for {
		if len(s.stack) == 0 {
			if k == g.eof {
				return gOK
			}
			return gFail
		}
		it := s.stack[len(s.stack)-1]
		s.stack = s.stack[:len(s.stack)-1]
		switch it.n.k {
		case gTok:
			if it.n.kind != k {
				return gFail
			}
			cur := s.nodes[s.open[len(s.open)-1]]
			if it.n.role != "" {
				cur.toks[it.n.role] = tok
			}
			for _, o := range s.open {
				if s.nodes[o].first == 0 {
					s.nodes[o].first = tok
				}
			}
			if s.last = append(s.last, g.names[k]); len(s.last) > 4 {
				s.last = s.last[1:]
			}
			return gOK
		case gEnd:
			if k == g.semi {
				if s.last = append(s.last, g.names[k]); len(s.last) > 4 {
					s.last = s.last[1:]
				}
				return gOK
			}
			if k != g.brace {
				return gFail
			}
		case gSeq:
			push(it.n.kids)
		case gOpt:
			for _, x := range it.n.kids {
				if has(x) {
					push(it.n.kids)
				}
				if !g.null[x] {
					break
				}
			}
		case gStar:
			if g.first[it.n].has(k) {
				if bound {
					if it.count >= g.shape[it.n.role] {
						return gBound
					}
				}
				s.stack = append(s.stack, gitem{n: it.n, count: it.count + 1})
				if !bound {
					s.stack[len(s.stack)-1].count = 0
				}
				push(it.n.kids)
			}
		case gAlt:
			ok := false
			for _, x := range it.n.kids {
				if has(x) {
					s.stack = append(s.stack, gitem{n: x})
					ok = true
					break
				}
			}
			if !ok {
				return gFail
			}
		case gProd:
			if it.n.prod == "type" {
				d := 0
				for _, o := range s.open {
					if s.nodes[o].prod == "type" {
						d++
					}
				}
				if d >= 2 && bound {
					return gBound
				}
			}
			if g.null[g.prods[it.n.prod]] && !has(it.n) {
				continue
			}
			s.begin(it.n.prod, it.n.role)
		case gPop:
			o := s.open[len(s.open)-1]
			s.open = s.open[:len(s.open)-1]
			s.pend = append(s.pend, o)
		}
	}
}

// ends tells whether the text may end here, and ends it.
func (s *gstate) ends() bool {
	if s.take(s.g.eof, 0, false) != gOK {
		return false
	}
	for len(s.stack) > 0 {
		it := s.stack[len(s.stack)-1]
		s.stack = s.stack[:len(s.stack)-1]
		if it.n.k == gPop {
			o := s.open[len(s.open)-1]
			s.open = s.open[:len(s.open)-1]
			s.pend = append(s.pend, o)
		} else {
			return false
		}
	}
	return true
}

func (s *gstate) text(w *tokFlow) string {
	if len(s.last) == 0 {
		return "the beginning"
	}
	return strings.Join(s.last, " ")
}

func (s *gstate) place() string {
	var out []string
	for _, o := range s.open {
		out = append(out, s.nodes[o].prod)
	}
	return strings.Join(out, "/")
}

func (s *gstate) tokens() []int {
	var out []int
	for _, r := range s.nodes {
		out = append(out, r.first)
		for _, t := range r.toks {
			out = append(out, t)
		}
	}
	return out
}

// canon writes the state into the key of a state of the parser.
func (s *gstate) canon(c *canon) {
	c.sb.WriteString("\nG ")
	for _, it := range s.stack {
		fmt.Fprintf(&c.sb, "%d:%d:%d ", it.n.k, it.n.id, it.count)
	}
	if !c.w.tree {
		return
	}
	for _, o := range s.open {
		s.canonNode(c, o)
	}
	for _, o := range s.pend {
		c.sb.WriteString("|")
		s.canonNode(c, o)
	}
}

func (s *gstate) canonNode(c *canon, o int) {
	r := s.nodes[o]
	c.sb.WriteString(s.name(c, o))
	if r.opq {
		for _, k := range sortedKeys(r.toks) {
			c.sb.WriteString(k + c.token(r.toks[k]))
		}
		return
	}
	c.sb.WriteString("(")
	c.sb.WriteString(c.token(r.first))
	for _, k := range sortedKeys(r.toks) {
		c.sb.WriteString(" " + k + c.token(r.toks[k]))
	}
	var ks []string
	for k := range r.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.sb.WriteString(" " + k)
		for _, x := range r.kids[k] {
			s.canonNode(c, x)
		}
	}
	c.sb.WriteString(")")
}

// name is a name for a part that does not depend on when it was read.
func (s *gstate) name(c *canon, o int) string {
	if _, ok := c.obj[-o]; !ok {
		c.obj[-o] = len(c.obj)
	}
	return fmt.Sprintf("%s#%d", s.nodes[o].prod, c.obj[-o])
}

// ---- the tree

// treeType is the type of the object that stands for a part.
var treeType = map[string][]string{
	"package": {"PackageSpec"}, "import": {"ImportSpec"}, "decl": {"TypeSpec"}, "base": {"Extends"}, "tag": {"Tag"},
	"kv": {"KeyValue"}, "text": {"BasicLit"}, "field": {"Field"}, "item": {"EnumItem"}, "type": {"VarType", "ArrayType", "MapType"},
	"plain": {"VarType"}, "method": {"FuncType"},
}

type treeMatch struct {
	w   *tokFlow
	s   *pstate
	why string
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// collapse marks the objects that stand for parts of the text.
func (w *tokFlow) collapse(s *pstate) {
	for again := true; again; {
		again = false
		for i, p := range s.ref.pend {
			r := s.ref.nodes[p]
			names := treeType[r.prod]
			if r.prod == "file" {
				continue
			}
			if names == nil {
				// Part of another.
				s.ref.pend = append(append([]int{}, s.ref.pend[:i]...), s.ref.pend[i+1:]...)
				again = true
				break
			}
			var ids []int
			for n, o := range s.heap {
				if o.opq == 0 && contains(names, typeName(o.t)) {
					ids = append(ids, n)
				}
			}
			sort.Ints(ids)
			done := false
			for _, n := range ids {
				m := &treeMatch{w: w, s: s}
				if m.node(tv{k: 'p', n: n}, p, "") {
					o := s.heap[n]
					o.opq = p
					o.f = map[string]tv{}
					r.opq = true
					keep := map[string]int{}
					if r.prod == "decl" || r.prod == "package" {
						if t, ok := r.toks["name"]; ok {
							keep["name"] = t
						}
						for _, k := range []string{"data", "enum", "server"} {
							if _, ok := r.toks[k]; ok {
								keep[k] = r.toks["name"]
							}
						}
					}
					r.toks, r.kids, r.first = keep, map[string][]int{}, 0
					done = true
					break
				}
			}
			if done {
				s.ref.pend = append(append([]int{}, s.ref.pend[:i]...), s.ref.pend[i+1:]...)
				again = true
				break
			}
		}
	}
	// Parts that no list names any more.
	mark := map[int]bool{}
	var visit func(o int)
	visit = func(o int) {
		if mark[o] {
			return
		}
		mark[o] = true
		for _, ks := range s.ref.nodes[o].kids {
			for _, k := range ks {
				visit(k)
			}
		}
	}
	for _, o := range s.ref.open {
		visit(o)
	}
	for _, o := range s.ref.pend {
		visit(o)
	}
	for _, o := range s.heap {
		if o.opq != 0 {
			visit(o.opq)
		}
	}
	for n := range s.ref.nodes {
		if !mark[n] {
			delete(s.ref.nodes, n)
		}
	}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (m *treeMatch) no(at, why string) bool {
	if m.why == "" {
		m.why = strings.TrimPrefix(at, ".") + ": " + why
	}
	return false
}

func unwrap(v tv) tv {
	for v.k == 'i' && len(v.l) == 1 {
		v = v.l[0]
	}
	return v
}

// get reads a field of an object by name.
func (m *treeMatch) get(p tv, field string) (tv, bool) {
	o := m.s.heap[p.n]
	if o == nil {
		return tvU, false
	}
	t := typeAt(o.t, p.path)
	if t == nil {
		return tvU, false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return tvU, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return m.w.load(m.s, tv{k: 'p', n: p.n, path: p.path + fmt.Sprint(".", i)}), true
		}
	}
	return tvU, false
}

func (m *treeMatch) isType(v tv, name, at string) (tv, bool) {
	v = unwrap(v)
	if v.k != 'p' || v.path != "" {
		return v, m.no(at, "not a "+name)
	}
	if o := m.s.heap[v.n]; typeName(o.t) != name {
		return v, m.no(at, "a "+typeName(o.t)+", not a "+name)
	}
	return v, true
}

func isNilVal(v tv) bool { return v.k == 'c' && v.c == nil || v.k == 's' && len(v.l) == 0 }

func (m *treeMatch) field(v tv, name, at string, check func(x tv, at string) bool) bool {
	x, ok := m.get(v, name)
	at += "." + name
	if !ok {
		return m.no(at, "there is no such field")
	}
	return check(x, at)
}

func (m *treeMatch) ident(tok int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if tok == 0 {
			if !isNilVal(x) {
				return m.no(at, "set, though the text has none")
			}
			return true
		}
		x, ok := m.isType(x, "Ident", at)
		return ok && m.field(x, "Name", at, m.lit(tok)) && m.field(x, "NamePos", at, m.posOf(tok))
	}
}

func (m *treeMatch) lit(tok int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if x.k != 'L' || x.n != tok {
			return m.no(at, "not the text of its token")
		}
		return true
	}
}

func (m *treeMatch) posOf(tok int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if x.k != 'P' || x.n != tok {
			return m.no(at, "not the position of its token")
		}
		return true
	}
}

func (m *treeMatch) basic(tok int, pos bool) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if tok == 0 {
			if !isNilVal(x) {
				return m.no(at, "set, though the text has none")
			}
			return true
		}
		x, ok := m.isType(x, "BasicLit", at)
		if !ok || !m.field(x, "Value", at, m.lit(tok)) {
			return false
		}
		return !pos || m.field(x, "ValuePos", at, m.posOf(tok))
	}
}

func (m *treeMatch) flag(want bool) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if x.k != 'c' || x.c == nil || x.c.Kind() != constant.Bool || constant.BoolVal(x.c) != want {
			return m.no(at, fmt.Sprintf("not %v", want))
		}
		return true
	}
}

func (m *treeMatch) doc(tok int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if x.k != 'D' || x.n != tok {
			return m.no(at, "not the comment ahead of its first token")
		}
		return true
	}
}

// list: the elements stand for the parts in order.
func (m *treeMatch) list(parts []int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if isNilVal(x) && len(parts) == 0 {
			return true
		}
		if x.k != 's' || len(x.l) != len(parts) {
			n := "unknown"
			if x.k == 's' || x.k == 'c' {
				n = fmt.Sprint(len(x.l))
			}
			return m.no(at, fmt.Sprintf("%s elements, the text has %d", n, len(parts)))
		}
		for i, e := range x.l {
			if !m.node(e, parts[i], fmt.Sprintf("%s[%d]", at, i)) {
				return false
			}
		}
		return true
	}
}

func (m *treeMatch) part(parts []int) func(x tv, at string) bool {
	return func(x tv, at string) bool {
		if len(parts) == 0 {
			return m.no(at, "the text has none")
		}
		return m.node(x, parts[0], at)
	}
}

// node: the value stands for a part of the text.
func (m *treeMatch) node(v tv, part int, at string) bool {
	v = unwrap(v)
	r := m.s.ref.nodes[part]
	if v.k != 'p' || v.path != "" {
		return m.no(at, "no "+r.prod+" is there")
	}
	o := m.s.heap[v.n]
	if o.opq != 0 || r.opq {
		if o.opq != part {
			return m.no(at, "another "+r.prod)
		}
		return true
	}
	if at == "" {
		at = typeName(o.t)
	}
	t := r.toks
	tags := func() bool { return m.field(v, "Tags", at, m.list(r.kids["tags"])) }
	bases := func() []int {
		if b := r.kids["bases"]; len(b) > 0 {
			return m.s.ref.nodes[b[0]].kids["list"]
		}
		return nil
	}
	switch r.prod {
	case "package":
		return m.typ(v, "PackageSpec", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Value", at, m.basic(t["value"], false))
	case "import":
		return m.typ(v, "ImportSpec", at) && m.field(v, "Path", at, m.basic(t["path"], false))
	case "base":
		return m.typ(v, "Extends", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Id", at, m.basic(t["id"], true))
	case "tag":
		return m.typ(v, "Tag", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "KV", at, m.list(r.kids["kvs"]))
	case "kv":
		return m.typ(v, "KeyValue", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Values", at, m.list(r.kids["values"]))
	case "text":
		return m.basic(t["text"], true)(v, at)
	case "field":
		return m.typ(v, "Field", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Id", at, m.basic(t["id"], true)) &&
			m.field(v, "Type", at, m.part(r.kids["type"])) && tags() && m.field(v, "Doc", at, m.doc(r.first))
	case "item":
		return m.typ(v, "EnumItem", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Id", at, m.basic(t["id"], true)) &&
			tags() && m.field(v, "Doc", at, m.doc(r.first))
	case "method":
		return m.typ(v, "FuncType", at) && m.field(v, "Name", at, m.ident(t["name"])) && m.field(v, "Id", at, m.basic(t["id"], true)) &&
			m.field(v, "Result", at, m.part(r.kids["result"])) && m.field(v, "Param", at, m.part(r.kids["param"])) &&
			m.field(v, "ParamName", at, m.ident(t["paramName"])) && tags() && m.field(v, "Doc", at, m.doc(r.first))
	case "plain", "type":
		elem := func(x tv, at string) bool {
			x, ok := m.isType(x, "VarType", at)
			return ok && m.field(x, "TypeExpr", at, m.ident(t["name"])) && m.field(x, "Empty", at, m.flag(t["null"] != 0))
		}
		switch {
		case t["array"] != 0:
			return m.typ(v, "ArrayType", at) && m.field(v, "VType", at, elem) && m.field(v, "Empty", at, m.flag(t["null2"] != 0))
		case t["map"] != 0:
			return m.typ(v, "MapType", at) && m.field(v, "VType", at, elem) && m.field(v, "Empty", at, m.flag(t["null2"] != 0)) &&
				m.field(v, "Key", at, m.part(r.kids["key"]))
		}
		return elem(v, at)
	case "decl":
		if !m.typ(v, "TypeSpec", at) || !m.field(v, "Name", at, m.ident(t["name"])) || !m.field(v, "Doc", at, m.doc(r.first)) {
			return false
		}
		body := func(name string, more func(x tv, at string) bool) bool {
			return m.field(v, "Type", at, func(x tv, at string) bool {
				x, ok := m.isType(x, name, at)
				if !ok || !m.field(x, "Name", at, m.ident(t["name"])) || !m.field(x, "Doc", at, m.doc(r.first)) || !m.field(x, "Tags", at, m.list(r.kids["tags"])) {
					return false
				}
				return more(x, at)
			})
		}
		switch {
		case t["data"] != 0:
			return body("DataType", func(x tv, at string) bool {
				return m.field(x, "Extends", at, m.list(bases())) && m.field(x, "Fields", at, func(y tv, at string) bool {
					y, ok := m.isType(y, "FieldList", at)
					return ok && m.field(y, "List", at, m.list(r.kids["fields"]))
				})
			})
		case t["enum"] != 0:
			return body("EnumType", func(x tv, at string) bool { return m.field(x, "Items", at, m.list(r.kids["items"])) })
		case t["server"] != 0:
			return body("ServerType", func(x tv, at string) bool {
				return m.field(x, "Extends", at, m.list(bases())) && m.field(x, "Methods", at, m.list(r.kids["methods"]))
			})
		}
	}
	return m.no(at, "unknown part "+r.prod)
}

func (m *treeMatch) typ(v tv, name, at string) bool {
	_, ok := m.isType(v, name, at)
	return ok
}

// finish: ParseFile returns.
func (w *tokFlow) finish(s *pstate, r tv) {
	if s.cur == 0 {
		return // nothing was read: the file could not be opened
	}
	if r.k != 't' || len(r.l) != 2 {
		w.rep.undecide("ParseFile does not return a file and an error")
		return
	}
	isNil, known := isNilTv(r.l[1])
	switch {
	case s.erred:
		if known && isNil {
			w.find("lost error", "ParseFile returns no error though one was recorded")
		} else if !known {
			w.find("lost error maybe", "ParseFile may return no error though one was recorded")
		}
		return
	case s.dead != "":
		w.find("accept "+s.dead, "ParseFile accepts "+s.dead+", which the grammar does not allow")
		return
	case s.ref == nil:
		return
	}
	if known && !isNil {
		return
	}
	var more kset
	for n := range w.names {
		if n != w.eof && s.kinds[s.cur].has(n) {
			more |= 1 << uint(n)
		}
	}
	if more != 0 {
		w.find("stop", fmt.Sprintf("ParseFile returns though %s may follow %s", w.kindsText(more), s.ref.text(w)))
		return
	}
	place := s.ref.place()
	before := s.ref.text(w)
	if !s.ref.ends() {
		w.find("accept end "+place, fmt.Sprintf("ParseFile accepts a text that ends after %s", before))
		return
	}
	w.accepts++
	if !w.tree {
		return
	}
	w.collapse(s)
	m := &treeMatch{w: w, s: s}
	f, ok := m.isType(r.l[0], "File", "File")
	if !ok {
		w.find("file", "the result of ParseFile is "+m.why)
		return
	}
	var file *rnode
	for _, n := range s.ref.nodes {
		if n.prod == "file" {
			file = n
		}
	}
	// The deepest part that is not as the text says.
	for _, p := range s.ref.pend {
		n := s.ref.nodes[p]
		if n.prod == "file" {
			continue
		}
		best := ""
		var ids []int
		for k, o := range s.heap {
			if o.opq == 0 && contains(treeType[n.prod], typeName(o.t)) {
				ids = append(ids, k)
			}
		}
		sort.Ints(ids)
		for _, k := range ids {
			mm := &treeMatch{w: w, s: s}
			mm.node(tv{k: 'p', n: k}, p, "")
			if best == "" || len(ids) > 0 && strings.Contains(best, "its token") {
				best = mm.why
			}
		}
		if best == "" {
			best = "nothing stands for it in the file"
		}
		w.find("tree "+n.prod+" "+best, fmt.Sprintf("a %s is not in the tree as the text says: %s", n.prod, best))
		return
	}
	if file == nil {
		w.rep.undecide("the tree of the text is lost")
		return
	}
	check := func(name string, c func(x tv, at string) bool) {
		m.why = ""
		if !m.field(f, name, "File", c) {
			w.find("tree file "+m.why, "the file is not as the text says: "+m.why)
		}
	}
	check("Imports", m.list(file.kids["imports"]))
	check("Specs", func(x tv, at string) bool {
		var l []tv
		for _, e := range x.l {
			u := unwrap(e)
			if u.k == 'p' && m.s.heap[u.n] != nil && typeName(m.s.heap[u.n].t) == "ImportSpec" {
				continue
			}
			l = append(l, e)
		}
		return m.list(file.kids["decls"])(tv{k: 's', l: l}, at)
	})
	check("Path", func(x tv, at string) bool {
		if x.k != 'v' || x.n != 1 {
			return m.no(at, "not the name of the file")
		}
		return true
	})
	check("Packages", func(x tv, at string) bool {
		if x.k != 'm' {
			return m.no(at, "not a map made here")
		}
		o := s.heap[x.n]
		want := map[int]int{}
		for _, p := range file.kids["packages"] {
			if t := s.ref.nodes[p].toks["name"]; t != 0 {
				want[t] = p
			}
		}
		for i, k := range o.keys {
			if k.k != 'L' || want[k.n] == 0 {
				return m.no(at, "a key that is not the name of a package")
			}
			if !m.node(o.vals[i], want[k.n], at) {
				return false
			}
			delete(want, k.n)
		}
		if len(want) > 0 {
			return m.no(at, "a package is missing")
		}
		return true
	})
	check("Scope", func(x tv, at string) bool {
		x, ok := m.isType(x, "Scope", at)
		return ok && m.field(x, "Objects", at, func(x tv, at string) bool {
			if x.k != 'm' {
				return m.no(at, "not a map made here")
			}
			o := s.heap[x.n]
			want := map[int]int{}
			for _, p := range file.kids["decls"] {
				want[s.ref.nodes[p].toks["name"]] = p
			}
			for i, k := range o.keys {
				if k.k != 'L' || want[k.n] == 0 {
					return m.no(at, "a key that is not the name of a declaration")
				}
				ob, ok := m.isType(o.vals[i], "Object", at)
				if !ok || !m.field(ob, "Decl", at, m.part([]int{want[k.n]})) || !m.field(ob, "Name", at, m.lit(k.n)) {
					return false
				}
				delete(want, k.n)
			}
			if len(want) > 0 {
				return m.no(at, "a declaration is missing")
			}
			return true
		})
	})
}

// ---- the check

func parseFlow(P *Program, rep *Report, tree bool, shape map[string]int, want ...func(key string) bool) (*tokFlow, string) {
	tokens := P.ByPath[modPath+"/pkg/token"]
	sp := P.SSA[modPath+"/pkg/parser"]
	if tokens == nil || sp == nil {
		return nil, "the packages of the tokens and the parser are not there"
	}
	tt, ok := tokens.Types.Scope().Lookup("Token").(*types.TypeName)
	if !ok {
		return nil, "there is no token.Token"
	}
	kinds := map[string]int64{}
	for _, n := range tokens.Types.Scope().Names() {
		c, ok := tokens.Types.Scope().Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), tt.Type()) || strings.HasSuffix(n, "_beg") || strings.HasSuffix(n, "_end") || n == "COMMENT" {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok || v >= 64 {
			return nil, "too many tokens"
		}
		kinds[n] = v
	}
	g, err := newGrammar(kinds)
	if err != nil {
		return nil, err.Error()
	}
	root := sp.Func("ParseFile")
	if root == nil {
		return nil, "there is no parser.ParseFile"
	}
	w := &tokFlow{P: P, rep: rep, root: root, tree: tree, gram: g, eof: g.eof, names: g.names, funcs: map[*ssa.Function]bool{}, live: map[*ssa.Function]*liveInfo{}, maps: map[*ssa.Global]*pobj{}, reports: map[*ssa.Function]bool{}}
	for _, k := range kinds {
		w.all |= 1 << uint(k)
	}
	// The mode: what the callers give.
	for i, p := range root.Params {
		v := tv{k: 'v', n: i}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v = tvU
			n := 0
			for _, fn := range P.Funcs {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						c, ok := ins.(ssa.CallInstruction)
						if !ok || c.Common().StaticCallee() != root {
							continue
						}
						if n++; n > 1 {
							v = tvU
						} else if k, ok := c.Common().Args[i].(*ssa.Const); ok && k.Value != nil {
							v = tv{k: 'c', c: k.Value}
						}
					}
				}
			}
		}
		w.params = append(w.params, v)
	}
	g.shape = shape
	if len(want) > 0 {
		w.want = want[0]
	}
	w.run()
	return w, ""
}

func init() {
	register("P19", "Abstract interpretation of the parser over an unknown sequence of tokens (every branch on the kind of the current token is followed, states meet where a token is taken), in product with the automaton of the grammar of schemas: every text of the grammar is accepted, nothing else is, and no path goes round without taking a token", func(P *Program, rep *Report, cov Coverage, tier string) {
		w, bad := parseFlow(P, rep, false, nil)
		if bad != "" {
			rep.undecide(bad)
			return
		}
		w.cover(cov)
		runShapes(P, rep, cov, func(key string) bool { return strings.HasPrefix(key, "refuse ") })
	})
	register("P20", "Abstract interpretation of the parser in product with the grammar of schemas: at the end of every text, with repetitions read up to twice, the objects that the parser built are compared with the tree of the text", func(P *Program, rep *Report, cov Coverage, tier string) {
		runShapes(P, rep, cov, func(key string) bool { return !strings.HasPrefix(key, "refuse ") })
	})
}

// runShapes follows the trees of texts of every shape.
func runShapes(P *Program, rep *Report, cov Coverage, want func(key string) bool) {
	for _, sh := range schemaShapes {
		w, bad := parseFlow(P, rep, true, sh, want)
		if bad != "" {
			rep.undecide(bad)
			return
		}
		w.cover(cov)
	}
	cov["shapes_of_texts"] = len(schemaShapes)
}

// The texts whose trees are followed: how often each repetition is read.
var schemaShapes = []map[string]int{
	{"packages": 2, "imports": 2, "decls": 1},
	{"decls": 2, "bases": 1},
	{"decls": 1, "bases": 2},
	{"decls": 1, "members": 2},
	{"decls": 1, "declTags": 2, "kvs": 1},
	{"decls": 1, "declTags": 1, "kvs": 2, "values": 1},
	{"decls": 1, "members": 1, "memberTags": 2, "kvs": 1},
	{"decls": 1, "members": 1, "memberTags": 1, "kvs": 2, "values": 1},
	{"packages": 1, "imports": 1, "decls": 2, "bases": 1},
	{"decls": 1, "declTags": 1, "kvs": 1, "bases": 1, "members": 2},
	{"decls": 2, "members": 1},
	{"decls": 1, "declTags": 1, "members": 1, "memberTags": 1, "kvs": 2, "values": 2},
}

func (w *tokFlow) cover(cov Coverage) {
	var fs []string
	for f := range w.funcs {
		fs = append(fs, f.String())
	}
	sort.Strings(fs)
	add := func(n string, v int) {
		o, _ := cov[n].(int)
		cov[n] = o + v
	}
	cov["functions_analysed"] = len(fs)
	add("states", w.states)
	add("token_transitions", w.tokens)
	add("instructions_interpreted", w.steps)
	add("errors_followed", w.refused)
	add("accepted_ends", w.accepts)
	add("paths_cut_by_bounds", w.pruned)
	cov["token_kinds"] = bits.OnesCount64(uint64(w.all))
	if w.full && w.finds == 0 && (w.accepts == 0 || !w.tree && w.refused == 0) {
		w.rep.undecide(fmt.Sprintf("the parser accepts %d and refuses %d paths", w.accepts, w.refused))
	}
}
