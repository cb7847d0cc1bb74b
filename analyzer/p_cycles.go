package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// No declaration extends itself. The search for a cycle is a recursion over
// declarations with the set of those that are open. Its step is interpreted
// alone, with the call of the recursion as an effect, and so is the driver,
// which has to start it for every declaration, before anything is generated.

func runCycles(P *Program, rep *Report, cov Coverage, tier string) {
	build := P.fn("build.Build")
	spec := P.namedType("ast", "TypeSpec")
	if build == nil || spec == nil {
		rep.undecide("there is no build.Build or no ast.TypeSpec")
		return
	}
	ptr := types.NewPointer(spec)
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	candidate := func(fn *ssa.Function) bool {
		if fn.Pkg != build.Pkg || fn.Signature.Results().Len() != 1 || !isErr(fn.Signature.Results().At(0).Type()) {
			return false
		}
		has, set := false, false
		for _, p := range fn.Params {
			if types.Identical(p.Type(), ptr) {
				has = true
			}
			if m, ok := p.Type().Underlying().(*types.Map); ok && types.Identical(m.Key(), ptr) {
				set = true
			}
		}
		return has && set
	}
	var step *ssa.Function
	for e := range recursionEntries(P, candidate) {
		if step != nil {
			rep.undecide("the search for a cycle is entered by " + fnName(step) + " and " + fnName(e))
			return
		}
		step = e
	}
	if step == nil {
		rep.undecide("no recursive function searches for declarations that extend themselves")
		return
	}
	funcs := map[*ssa.Function]bool{}
	paths := 0
	at := func(t types.Type, name string) string {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return fmt.Sprint(".", i)
			}
		}
		rep.undecide("no " + name + " in " + t.String())
		return ".0"
	}
	named := map[string]types.Type{}
	for _, n := range []string{"DataType", "ServerType", "EnumType", "Extends", "Ident", "Object", "File", "ImportSpec", "Package"} {
		if named[n] = P.namedType("ast", n); named[n] == nil {
			rep.undecide("there is no ast." + n)
			return
		}
	}
	// A declaration with a kind and what it extends.
	declare := func(w *sflow, s *sstate, name, kind string) sval {
		v, t, id := w.alloc(s, spec), w.alloc(s, named[kind]), w.alloc(s, named["Ident"])
		s.heap[id.n].f[at(named["Ident"], "Name")] = sStr(name)
		s.heap[v.n].f[at(spec, "Name")] = id
		s.heap[v.n].f[at(spec, "Type")] = t
		return v
	}
	extend := func(w *sflow, s *sstate, v sval, kind string, bases ...sval) {
		var l []sval
		for i, b := range bases {
			x, id, obj := w.alloc(s, named["Extends"]), w.alloc(s, named["Ident"]), w.alloc(s, named["Object"])
			s.heap[obj.n].f[at(named["Object"], "Decl")] = b
			s.heap[id.n].f[at(named["Ident"], "Obj")] = obj
			s.heap[id.n].f[at(named["Ident"], "Name")] = sStr(fmt.Sprint("Base", i))
			s.heap[id.n].f[at(named["Ident"], "NamePos")] = sSym("place:%d", i)
			s.heap[x.n].f[at(named["Extends"], "Name")] = id
			l = append(l, x)
		}
		t := w.load(s, sval{k: 'p', n: v.n, path: at(spec, "Type")})
		s.heap[t.n].f[at(named[kind], "Extends")] = sval{k: 'l', l: l}
	}
	opened := func(s *sstate, m sval) map[string]bool {
		out := map[string]bool{}
		if m.k != 'm' {
			return out
		}
		o := s.heap[m.n]
		for i, k := range o.keys {
			if !(o.vals[i].k == 'c' && o.vals[i].c != nil && o.vals[i].c.Kind() == constant.Bool && !constant.BoolVal(o.vals[i].c)) {
				out[k.String()] = true
			}
		}
		return out
	}
	failedIn := func(s *sstate) bool {
		for k, v := range s.conds {
			if strings.HasPrefix(k, "eq(failure") && strings.HasSuffix(k, ", nil)") && !v {
				return true
			}
		}
		return false
	}
	asked := func(s *sstate, x string) bool {
		return s.conds["eq("+x+", nil)"]
	}

	// The step. Where a declaration that is open is refused when it is
	// entered, a search may go on to it.
	refuses := false
	for _, kind := range []string{"DataType", "ServerType"} {
		for _, bases := range [][]string{nil, {}, {"fresh"}, {"fresh", "other"}, {"self"}, {"open"}, {"fresh", "self"}, {"fresh", "open"}, {"open", "fresh"}, {"fresh", "other", "open"}} {
			say := func(key, msg string) {
				rep.add("step "+key, fmt.Sprintf("%s: %s, a %s that extends %v: %s", P.pos(step.Pos()), fnName(step), kind, bases, msg))
			}
			w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs, rounds: 40}
			s := &sstate{heap: map[int]*sobj{}, conds: map[string]bool{}}
			all := map[string]sval{}
			for _, n := range []string{"self", "open", "fresh", "other"} {
				all[n] = declare(w, s, n, kind)
			}
			var l []sval
			due := []string{}
			cyclic := -1
			for i, n := range bases {
				l = append(l, all[n])
				if n == "self" || n == "open" {
					if cyclic < 0 {
						cyclic = i
					}
				} else {
					due = append(due, all[n].String())
				}
			}
			extend(w, s, all["self"], kind, l...)
			s.next++
			set := sval{k: 'm', n: s.next}
			s.heap[set.n] = &sobj{f: map[string]sval{}, keys: []sval{all["open"]}, vals: []sval{sBool(true)}}
			if bases == nil { // entered while it is open
				o := s.heap[set.n]
				o.keys, o.vals = append(o.keys, all["self"]), append(o.vals, sBool(true))
			}
			setAt := -1
			w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
				if f == nil {
					return sval{}, false
				}
				if f == step {
					ev := sEvent{"search", append([]sval{}, args...), c.Pos()}
					for k := range opened(s, args[setAt]) {
						ev.args = append(ev.args, sStr(k))
					}
					x := sSym("failure %d", len(s.ev))
					ev.args = append(ev.args, x)
					s.ev = append(s.ev, ev)
					return x, true
				}
				if f.Name() == "Position" && f.Pkg != nil && f.Pkg.Pkg.Name() == "token" && len(args) == 2 {
					return sSym("position(%s)", args[1]), true
				}
				return sval{}, false
			}
			var args []sval
			self := -1
			for i, p := range step.Params {
				if m, ok := p.Type().Underlying().(*types.Map); ok && types.Identical(m.Key(), ptr) && setAt < 0 {
					setAt = i
					args = append(args, set)
				} else if types.Identical(p.Type(), ptr) && self < 0 {
					self = i
					args = append(args, all["self"])
				} else {
					args = append(args, sSym("param:%s", p.Name()))
				}
			}
			w.runFrom(s, step, args)
			if w.bad != "" {
				rep.undecide(w.bad)
				return
			}
			good := 0
			if bases == nil {
				refuses = len(w.ends) > 0
				for _, e := range w.ends {
					if r := e.r[len(e.r)-1]; r.k == 'c' && r.c == nil || r.k == 's' {
						refuses = false
					}
				}
				continue
			}
			for _, e := range w.ends {
				paths++
				r := e.r[len(e.r)-1]
				fine := r.k == 'c' && r.c == nil
				if r.k == 's' && strings.HasPrefix(r.s, "failure ") {
					if v, ok := e.s.conds["eq("+r.s+", nil)"]; !ok || v {
						fine = true
					}
				}
				if !fine {
					if !failedIn(e.s) && cyclic < 0 {
						say("refused", "it is refused: "+r.String())
					}
					if strings.Contains(r.String(), "position(") && !strings.Contains(r.String(), fmt.Sprintf("place:%d", cyclic)) {
						say("place", "the cycle is reported at another place: "+r.String())
					}
					continue
				}
				good++
				if failedIn(e.s) {
					say("failure", "a cycle that is found further up is passed over")
				}
				further := false
				for _, ev := range e.s.ev {
					further = further || cyclic >= 0 && ev.args[self].String() == l[cyclic].String()
				}
				if cyclic >= 0 && further && refuses {
					continue
				}
				if cyclic >= 0 {
					say("cycle", "the cycle is not found")
					continue
				}
				got := map[string]int{}
				for _, ev := range e.s.ev {
					got[ev.args[self].String()]++
					in := false
					for _, a := range ev.args[len(step.Params) : len(ev.args)-1] {
						in = in || a.String() == strconv.Quote(all["self"].String())
					}
					if !in {
						say("closed", "the search goes on without the declaration among the open ones")
					}
					if ev.args[setAt].k == 'm' {
						up := false
						for _, a := range ev.args[len(step.Params) : len(ev.args)-1] {
							up = up || a.String() == strconv.Quote(all["open"].String())
						}
						if !up {
							say("closed", "the search goes on without the declarations that were open")
						}
					}
					if f := ev.args[len(ev.args)-1]; !asked(e.s, f.s) && f.s != r.s {
						say("failure", "what is found further up is not looked at")
					}
				}
				for _, d := range due {
					if got[d] == 0 {
						say("base", "what it extends is not searched")
					}
				}
				now := opened(e.s, set)
				if now[all["self"].String()] {
					say("left open", "the declaration stays open after the search: another way to it will be taken for a cycle")
				}
				if !now[all["open"].String()] {
					say("left closed", "a declaration that was open is not open after the search")
				}
			}
			if good == 0 && cyclic < 0 {
				say("end", "no path without an error")
			}
		}
	}

	// The driver.
	say := func(key, msg string) {
		rep.add("driver "+key, fmt.Sprintf("%s: %s: %s", P.pos(build.Pos()), fnName(build), msg))
	}
	isStep := func(c *ssa.CallCommon) bool { return c.StaticCallee() == step }
	isGen := func(c *ssa.CallCommon) bool {
		if c.StaticCallee() != nil || c.IsInvoke() {
			return false
		}
		for i := 0; i < c.Signature().Params().Len(); i++ {
			if p, ok := c.Signature().Params().At(i).Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "Param" {
					return true
				}
			}
		}
		return false
	}
	reach := reaching(P, func(c *ssa.CallCommon) bool { return isStep(c) || isGen(c) })
	setAt, self := -1, -1
	for i, p := range step.Params {
		if m, ok := p.Type().Underlying().(*types.Map); ok && types.Identical(m.Key(), ptr) && setAt < 0 {
			setAt = i
		} else if types.Identical(p.Type(), ptr) && self < 0 {
			self = i
		}
	}
	inputs := []string{"src/zoo.hbuf", "src/sub/area.hbuf", "lib/mid.hbuf"}
	for _, layout := range [][][]string{
		{{"DataType", "EnumType", "ServerType"}, {"", "ServerType", "DataType"}, {"DataType"}},
		{{"DataType"}},
		{{"EnumType", "", "ServerType", "DataType"}},
		{{}, {"ServerType"}},
	} {
		inputs := inputs[:len(layout)]
		w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs, rounds: 40}
		s := &sstate{heap: map[int]*sobj{}, conds: map[string]bool{}}
		var files, due []sval
		label := map[string]string{}
		for i := range inputs {
			f := w.alloc(s, named["File"])
			var l []sval
			for j, kind := range layout[i] {
				if kind == "" {
					l = append(l, w.alloc(s, named["ImportSpec"]))
					continue
				}
				d := declare(w, s, fmt.Sprint("D", i, j), kind)
				l = append(l, d)
				label[d.String()] = fmt.Sprintf("the %s that is declaration %d of file %d", kind, j+1, i+1)
				if kind != "EnumType" {
					due = append(due, d)
					extend(w, s, d, kind)
				}
			}
			s.heap[f.n].f[at(named["File"], "Specs")] = sval{k: 'l', l: l}
			files = append(files, f)
		}
		w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
			if f == nil {
				if isGen(c) {
					x := sSym("failure of generate %d", len(s.ev))
					s.ev = append(s.ev, sEvent{"generate", []sval{x}, c.Pos()})
					return x, true
				}
				return sval{}, false
			}
			n := stdName(f)
			if f == step {
				x := sSym("failure of search %d", len(s.ev))
				ev := sEvent{"search", []sval{args[self], sInt(int64(len(opened(s, args[setAt]))))}, c.Pos()}
				if args[setAt].k != 'm' {
					ev.args[1] = sInt(1)
				}
				ev.args = append(ev.args, x)
				s.ev = append(s.ev, ev)
				return x, true
			}
			if f.Pkg == nil || !P.inRepo[f.Pkg.Pkg] {
				if n == "sort.Strings" && len(args) == 1 {
					return sNil(), true
				}
				return foldPath(n, args, s, w)
			}
			rs := f.Signature.Results()
			if f.Pkg.Pkg.Name() == "parser" && rs.Len() == 1 {
				for _, a := range args {
					if a.k != 'p' || s.heap[a.n] == nil {
						continue
					}
					st, ok := s.heap[a.n].t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && isStringType(m.Key()) && strings.HasSuffix(m.Elem().String(), "ast.File") {
							if v := w.load(s, sval{k: 'p', n: a.n, path: fmt.Sprint(a.path, ".", i)}); v.k == 'm' {
								for j, x := range inputs {
									s.heap[v.n].keys = append(s.heap[v.n].keys, sStr(x))
									s.heap[v.n].vals = append(s.heap[v.n].vals, files[j])
								}
							}
						}
					}
				}
				return sSym("failure of read"), true
			}
			if !reach[f] && f != build && rs.Len() == 1 && isErr(rs.At(0).Type()) {
				return sSym("failure of %s", fnName(f)), true
			}
			return sval{}, false
		}
		var args []sval
		for i, p := range build.Params {
			args = append(args, sSym("option:%d:%s", i, p.Name()))
		}
		w.runFrom(s, build, args)
		if w.bad != "" {
			rep.undecide(w.bad)
			return
		}
		good := 0
		for _, e := range w.ends {
			paths++
			generates := false
			got := map[string]int{}
			for _, ev := range e.s.ev {
				switch ev.kind {
				case "generate":
					generates = true
				case "search":
					if generates {
						continue
					}
					if ev.args[1].String() != "0" {
						say("open", P.pos(ev.at)+": the search starts with declarations among the open ones")
					}
					if f := ev.args[len(ev.args)-1]; asked(e.s, f.s) {
						got[ev.args[0].String()]++
					}
				}
			}
			if !generates {
				continue
			}
			good++
			for _, d := range due {
				if got[d.String()] == 0 {
					say("declaration", label[d.String()]+" is not searched before code is generated")
				}
			}
		}
		if good == 0 {
			say("end", "no path generates code")
		}
	}
	var list []string
	for f := range funcs {
		list = append(list, fnName(f))
	}
	sort.Strings(list)
	cov["functions"] = list
	cov["paths"] = paths
	cov["search"] = fnName(step)
	cov["obligations"] = paths
}

func init() {
	register("P29", "Abstract interpretation of the step of the recursive search for declarations that extend themselves, with the call of the recursion as an effect, for representatives of what is extended (itself, an open declaration, others), and of the driver, with the start of the search and the generators as effects.", runCycles)
}
