package main

import (
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// emit delivers a text to a sink through the client.
func (e *Engine) emit(c *Ctx, s *State, sink, text *V, in ssa.Instruction) []*State {
	if e.quiet == 0 {
		e.Emits++
	}
	if t, ok := text.constStr(); ok && t == "" {
		return one(s)
	}
	w := e.written(s, sink)
	if b, ok := e.decide(s, e.nonempty(s, text)); ok && b {
		s.mem.facts[w] = true
	} else if was, ok := s.mem.facts[w]; ok && !was {
		delete(s.mem.facts, w)
	}
	if r := e.client.Emit(e, s, sink, text, c, in); r != nil {
		return r
	}
	return one(s)
}

var fmtVerb = regexp.MustCompile(`%(?:%|[-+# 0]*[0-9]*(?:\.[0-9]+)?[a-zA-Z])`)

// sprintf expands a constant format.
func (e *Engine) sprintf(s *State, f *V, va *V) (*V, bool) {
	fs, ok := f.constStr()
	if !ok {
		return nil, false
	}
	args, ok := e.variadic(s, va)
	if !ok {
		return nil, false
	}
	var parts []*V
	ai := 0
	last := 0
	for _, m := range fmtVerb.FindAllStringIndex(fs, -1) {
		parts = append(parts, e.T.str(fs[last:m[0]]))
		last = m[1]
		verb := fs[m[0]:m[1]]
		if verb == "%%" {
			parts = append(parts, e.T.str("%"))
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		a := args[ai]
		ai++
		switch verb[len(verb)-1] {
		case 's', 'v':
			if n, ok := a.constInt(); ok {
				a = e.T.str(strconv.FormatInt(n, 10))
			}
			parts = append(parts, a)
		case 'd':
			if n, ok := a.constInt(); ok {
				a = e.T.str(strconv.FormatInt(n, 10))
			}
			parts = append(parts, a)
		case 'q':
			if x, ok := a.constStr(); ok {
				parts = append(parts, e.T.str(strconv.Quote(x)))
			} else {
				parts = append(parts, e.T.str("\""), a, e.T.str("\""))
			}
		default:
			parts = append(parts, e.T.mk("call", "fmt."+verb, types.Typ[types.String], 0, a))
		}
	}
	parts = append(parts, e.T.str(fs[last:]))
	return e.T.concat(parts...), true
}

// model gives the meaning of library calls that matter to text generation.
func (e *Engine) model(c *Ctx, s *State, in ssa.Instruction, cc *ssa.CallCommon, name string, args []*V, res ssa.Value) ([]*State, bool) {
	T := e.T
	ret := func(v *V) { e.set(s, c, res, v) }
	okTuple := func() {
		if tp, ok := res.Type().(*types.Tuple); ok {
			var a []*V
			for i := 0; i < tp.Len(); i++ {
				if isErrorType(tp.At(i).Type()) {
					a = append(a, T.nilv())
				} else {
					a = append(a, T.mk("fresh", "n", tp.At(i).Type(), e.siteOf(c, "n", in)))
				}
			}
			e.set(s, c, res, T.mk("tuple", "", res.Type(), 0, a...))
		} else if isErrorType(res.Type()) {
			ret(T.nilv())
		} else {
			ret(T.mk("fresh", "n", res.Type(), e.siteOf(c, "n", in)))
		}
	}
	switch name {
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bufio.Writer).WriteString":
		okTuple()
		return e.emit(c, s, args[0], args[1], in), true
	case "(*os.File).WriteString":
		e.spreadSet(c, s, in, res, name, args)
		return e.emit(c, s, args[0], args[1], in), true
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		okTuple()
		t := args[1]
		if n, ok := t.constInt(); ok {
			t = T.str(string(rune(n)))
		} else {
			t = T.mk("rune", "", types.Typ[types.String], 0, t)
		}
		return e.emit(c, s, args[0], t, in), true
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write", "(*os.File).Write":
		if strings.HasPrefix(name, "(*os") {
			e.spreadSet(c, s, in, res, name, args)
		} else {
			okTuple()
		}
		return e.emit(c, s, args[0], args[1], in), true
	case "os.WriteFile":
		e.spreadSet(c, s, in, res, name, args)
		f := T.mk("call", "os.WriteFile", nil, e.siteOf(c, "file", in), args[0])
		return e.emit(c, s, f, args[1], in), true
	case "io.WriteString":
		e.spreadSet(c, s, in, res, name, args)
		return e.emit(c, s, args[0], args[1], in), true
	case "fmt.Fprintf":
		e.spreadSet(c, s, in, res, name, args)
		if t, ok := e.sprintf(s, args[1], args[2]); ok {
			return e.emit(c, s, args[0], t, in), true
		}
		return e.emit(c, s, args[0], T.mk("call", "fmt.Sprintf", types.Typ[types.String], 0, args[1:]...), in), true
	case "fmt.Fprint", "fmt.Fprintln":
		e.spreadSet(c, s, in, res, name, args)
		if vs, ok := e.variadic(s, args[1]); ok {
			if name == "fmt.Fprintln" {
				vs = append(vs, T.str("\n"))
			}
			return e.emit(c, s, args[0], T.concat(vs...), in), true
		}
		return e.emit(c, s, args[0], T.mk("call", name, types.Typ[types.String], 0, args[1:]...), in), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if v := e.client.Content(e, s, e.builderOf(s, args[0])); v != nil {
			ret(v)
			return one(s), true
		}
		ret(T.mk("content", "", types.Typ[types.String], 0, e.builderOf(s, args[0])))
		return one(s), true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		site := e.siteOf(c, "blen", in)
		s.mem.kill(site)
		if b, ok := s.mem.facts[e.written(s, args[0])]; ok {
			if !b {
				ret(T.integer(0))
				return one(s), true
			}
			l := T.mk("content", "v", types.Typ[types.String], site, e.builderOf(s, args[0]))
			s.mem.facts[e.nonempty(s, l)] = true
			ret(T.mk("len", "", types.Typ[types.Int], 0, l))
			return one(s), true
		}
		ret(T.mk("len", "", types.Typ[types.Int], 0, T.mk("content", "v", types.Typ[types.String], site, e.builderOf(s, args[0]))))
		return one(s), true
	case "fmt.Sprintf":
		if t, ok := e.sprintf(s, args[0], args[1]); ok {
			ret(t)
			return one(s), true
		}
	case "fmt.Sprint":
		if vs, ok := e.variadic(s, args[0]); ok {
			ret(T.concat(vs...))
			return one(s), true
		}
	case "strings.Join":
		if vs, ok := e.variadic(s, args[0]); ok {
			var p []*V
			for i, v := range vs {
				if i > 0 {
					p = append(p, args[1])
				}
				p = append(p, v)
			}
			ret(T.concat(p...))
			return one(s), true
		}
	case "strings.Repeat":
		if x, ok := args[0].constStr(); ok {
			if n, ok := args[1].constInt(); ok && n >= 0 && n < 1000 {
				ret(T.str(strings.Repeat(x, int(n))))
				return one(s), true
			}
		}
	case "strconv.Itoa":
		if n, ok := args[0].constInt(); ok {
			ret(T.str(strconv.FormatInt(n, 10)))
			return one(s), true
		}
	case "strconv.Quote":
		ret(T.concat(T.str("\""), args[0], T.str("\"")))
		return one(s), true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if x, ok := s.resolve(args[0]).constStr(); ok {
			switch name {
			case "strings.ToLower":
				x = strings.ToLower(x)
			case "strings.ToUpper":
				x = strings.ToUpper(x)
			default:
				x = strings.TrimSpace(x)
			}
			ret(T.str(x))
			return one(s), true
		}
	case "strings.Trim", "strings.ReplaceAll":
		all := true
		var xs []string
		for _, a := range args {
			x, ok := a.constStr()
			all = all && ok
			xs = append(xs, x)
		}
		if all {
			if name == "strings.Trim" {
				ret(T.str(strings.Trim(xs[0], xs[1])))
			} else {
				ret(T.str(strings.ReplaceAll(xs[0], xs[1], xs[2])))
			}
			return one(s), true
		}
	case "maps.Copy":
		e.mapUpdate(c, s, args[0], T.mk("rkey", "", types.Typ[types.String], e.siteOf(c, "mcopy", in), args[1]), T.mk("rval", "", nil, e.siteOf(c, "mcopy", in), args[1]), in)
		ret(T.nilv())
		return one(s), true
	}
	return nil, false
}

// builderOf follows copies of a builder by value back to the builder itself.
func (e *Engine) builderOf(s *State, p *V) *V {
	for i := 0; i < 8; i++ {
		sv, ok := s.mem.store[p]
		if !ok {
			return p
		}
		switch sv.Op {
		case "struct":
			p = sv.Args[0]
		case "join", "ext", "call":
			return sv
		default:
			return p
		}
	}
	return p
}

func (e *Engine) spreadSet(c *Ctx, s *State, in ssa.Instruction, res ssa.Value, name string, args []*V) {
	site := e.siteOf(c, "call", in)
	s.mem.kill(site)
	v := e.T.mk("call", name, res.Type(), site)
	e.set(s, c, res, e.spread(v, res.Type()))
}

// written is the path fact "something has been appended to this builder".
func (e *Engine) written(s *State, sink *V) *V {
	return e.T.mk("written", "", types.Typ[types.Bool], 0, e.builderOf(s, sink))
}
