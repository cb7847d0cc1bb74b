package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Balanced delimiters: every text written to an output file is a bracket word
// that reduces to the empty word, on every path of the generator.

type brk struct {
	ch byte
	at string
}

type balProp struct {
	w   map[*V][]brk
	key string
}

func (p *balProp) Key() string {
	if p.key != "" || len(p.w) == 0 {
		return p.key
	}
	var ks []string
	for v, w := range p.w {
		if len(w) == 0 {
			continue
		}
		b := make([]byte, len(w))
		for i := range w {
			b[i] = w[i].ch
		}
		ks = append(ks, fmt.Sprintf("%d:%s", v.id, b))
	}
	sort.Strings(ks)
	p.key = strings.Join(ks, " ") + "."
	return p.key
}

type balClient struct {
	baseClient
	P     *Program
	rep   *Report
	ent   string
	files int
	total int
}

func (b *balClient) Init() Prop { return &balProp{w: map[*V][]brk{}} }

func closerOf(c byte) byte {
	switch c {
	case '(':
		return ')'
	case '[':
		return ']'
	case '{':
		return '}'
	}
	return 0
}

// reduce appends brackets to a word; ok is false on a mismatched pair.
func reduceBr(w []brk, add []brk) ([]brk, *brk, *brk) {
	out := append([]brk(nil), w...)
	for i := range add {
		a := add[i]
		if closerOf(a.ch) != 0 {
			out = append(out, a)
			continue
		}
		if n := len(out); n > 0 && closerOf(out[n-1].ch) != 0 {
			if closerOf(out[n-1].ch) != a.ch {
				return out, &out[n-1], &add[i]
			}
			out = out[:n-1]
			continue
		}
		out = append(out, a)
	}
	return out, nil, nil
}

func bracketsOf(s, at string) []brk {
	var out []brk
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', ')', '[', ']', '{', '}':
			out = append(out, brk{s[i], at})
		}
	}
	return out
}

func (b *balClient) with(st *State, sink *V, w []brk) {
	old := st.prop.(*balProp)
	n := &balProp{w: make(map[*V][]brk, len(old.w)+1)}
	for k, v := range old.w {
		n.w[k] = v
	}
	if len(w) == 0 {
		delete(n.w, sink)
	} else {
		n.w[sink] = w
	}
	st.prop = n
}

func (b *balClient) NewObj(e *Engine, st *State, obj *V) {
	for k := range st.prop.(*balProp).w {
		if k == obj || uses(k, obj) {
			b.with(st, k, nil)
		}
	}
}

func (b *balClient) Emit(e *Engine, st *State, sink, text *V, c *Ctx, in ssa.Instruction) []*State {
	sink = e.builderOf(st, sink)
	b.total++
	at := e.where(c, in)
	states := []*State{st}
	for _, part := range textParts(text) {
		var next []*State
		for _, s := range states {
			words := b.words(e, s, part, at, 0)
			for i, w := range words {
				t := s
				if i < len(words)-1 {
					t = s.fork()
				}
				cur := t.prop.(*balProp).w[sink]
				nw, o, cl := reduceBr(cur, w)
				if o != nil {
					b.rep.add("mismatch|"+o.at+"|"+cl.at, fmt.Sprintf("%s: '%c' written at %s is closed by '%c' written at %s", b.ent, o.ch, o.at, cl.ch, cl.at))
					continue
				}
				if len(nw) > 40 {
					b.rep.add("unbounded|"+nw[len(nw)-1].at, fmt.Sprintf("%s: unclosed '%c' accumulate, written at %s", b.ent, nw[len(nw)-1].ch, nw[len(nw)-1].at))
					continue
				}
				if len(w) > 0 {
					b.with(t, sink, nw)
				}
				next = append(next, t)
			}
		}
		states = next
	}
	if len(states) == 0 {
		return []*State{}
	}
	return states
}

// words lists the bracket words a part of a text may contribute.
func (b *balClient) words(e *Engine, s *State, part *V, at string, d int) [][]brk {
	if t, ok := part.constStr(); ok {
		return [][]brk{bracketsOf(t, at)}
	}
	if part.Op == "content" {
		return [][]brk{s.prop.(*balProp).w[part.Args[0]]}
	}
	if part.Op == "cat" {
		out := [][]brk{nil}
		for _, p := range part.Args {
			var n [][]brk
			for _, w := range b.words(e, s, p, at, d+1) {
				for _, o := range out {
					n = append(n, append(append([]brk(nil), o...), w...))
				}
			}
			out = n
		}
		return out
	}
	var alts []*V
	if ta, ok := e.tableAlts(s, part); ok {
		alts = ta
	} else if a := e.Alts(part); len(a) > 1 || a[0] != part {
		alts = a
	}
	if len(alts) == 0 || d > 3 {
		return [][]brk{nil}
	}
	seen := map[string]bool{}
	var out [][]brk
	for _, a := range alts {
		for _, w := range b.words(e, s, a, at, d+1) {
			w, _, _ := reduceBr(nil, w)
			k := ""
			for _, x := range w {
				k += string(x.ch)
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, w)
			}
		}
	}
	if len(out) == 0 {
		return [][]brk{nil}
	}
	return out
}

func (b *balClient) Leave(e *Engine, st *State, c *Ctx, ret []*V) {
	if c.parent != nil {
		return
	}
	if len(ret) == 1 && e.isNonNil(ret[0]) {
		return
	}
	for sink, w := range st.prop.(*balProp).w {
		if !isFileSink(sink) {
			continue
		}
		x := w[len(w)-1]
		b.rep.add("open|"+x.at, fmt.Sprintf("%s: a generated file can be completed with '%c' (written at %s) unmatched", b.ent, x.ch, x.at))
	}
}

func isFileSink(v *V) bool {
	for v != nil {
		if v.Op == "call" && strings.HasPrefix(v.S, "os.") {
			return true
		}
		if v.Op == "ext" || v.Op == "as" || v.Op == "call" && len(v.Args) > 0 && (strings.HasPrefix(v.S, "bufio.") || strings.HasPrefix(v.S, "io.")) {
			v = v.Args[0]
			continue
		}
		return false
	}
	return false
}

func init() {
	register("P05", "Abstract interpretation of each generator from its registered entry point; the property state is, per text buffer, the reduced word of brackets written so far. Every store reachable with a different word is kept apart. A closing bracket that meets a different opener, a word that grows without bound round a loop, or a non-empty word in a file sink on a successful return is a violation. Names and user text inserted into the output are taken as bracket-neutral.",
		func(P *Program, rep *Report, cov Coverage, tier string) {
			n := 0
			runBackends(P, rep, cov, nil, func(b Backend) Client {
				return &balClient{P: P, rep: rep, ent: b.Name}
			}, nil, func(b Backend, e *Engine, rs []Result) {
				f := 0
				for _, r := range rs {
					if len(r.ret) == 1 && r.ret[0].Op == "nil" {
						f++
					}
				}
				if f == 0 {
					rep.add("anchor|return|"+b.Name, b.Name+": no successful return reached")
				}
				n += f
			})
			cov["successful_exit_states"] = n
		})
}
