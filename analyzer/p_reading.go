package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is read. The reading of a directory and the reading of a file are two
// recursive functions. Each is interpreted alone, with the calls of the
// recursion as effects: a directory reads every entry that the pattern names
// and goes down into every directory; a file that is not known is parsed,
// known from then on, and each of its imports is read, below its directory.

// recursion is the function through which a recursion is entered.
func recursionEntries(P *Program, in func(*ssa.Function) bool) map[*ssa.Function]bool {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	callees := func(fn *ssa.Function) (out []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					if c := ci.Common().StaticCallee(); c != nil {
						out = append(out, c)
					}
				}
			}
		}
		return
	}
	for _, fn := range P.Funcs {
		if !in(fn) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		work := callees(fn)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[x] || !in(x) {
				continue
			}
			seen[x] = true
			work = append(work, callees(x)...)
		}
		reach[fn] = seen
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		for _, c := range callees(fn) {
			if in(c) && reach[c][c] && !(in(fn) && reach[c][fn]) {
				out[c] = true
			}
		}
	}
	return out
}

var readFuncs = regexp.MustCompile(`^(io/ioutil|os)\.ReadDir$`)

func runReading(P *Program, rep *Report, cov Coverage, tier string) {
	dirFn, parse := P.fn("parser.ParseDir"), P.fn("parser.ParseFile")
	if dirFn == nil || parse == nil {
		rep.undecide("there is no parser.ParseDir or no parser.ParseFile")
		return
	}
	funcs := map[*ssa.Function]bool{}
	isParse := func(c *ssa.CallCommon) bool { return c.StaticCallee() == parse }
	parses := reaching(P, isParse)
	lists := reaching(P, func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && readFuncs.MatchString(stdName(f))
	})
	var fileFn *ssa.Function
	for e := range recursionEntries(P, func(fn *ssa.Function) bool {
		return fn.Pkg == dirFn.Pkg && parses[fn] && !lists[fn] && fn != parse
	}) {
		if fileFn != nil {
			rep.undecide("the reading of a file is entered by " + fnName(fileFn) + " and " + fnName(e))
			return
		}
		fileFn = e
	}
	if fileFn == nil {
		rep.undecide("no recursive function reads a file and what it imports")
		return
	}
	paths := 0
	texts := func(args []sval) (t []string, ok bool) {
		for _, a := range args {
			if a.k == 'c' && a.c != nil && a.c.Kind() == constant.String {
				t = append(t, constant.StringVal(a.c))
			}
		}
		return t, len(t) > 0
	}
	known := func(c map[string]bool, x string) (is, asked bool) {
		a, b := x, "nil"
		if a > b {
			a, b = b, a
		}
		is, asked = c[fmt.Sprintf("eq(%s, %s)", a, b)]
		return
	}
	// An end without an error: no failure is left.
	success := func(e sEnd) (bool, string) {
		r := e.r[len(e.r)-1]
		fine := r.k == 'c' && r.c == nil
		if !fine && r.k == 's' && strings.HasPrefix(r.s, "failure ") {
			if is, asked := known(e.s.conds, r.s); !asked || is {
				fine = true
			}
		}
		failed := false
		for k, v := range e.s.conds {
			if strings.HasPrefix(k, "eq(failure ") && strings.HasSuffix(k, ", nil)") && !v {
				failed = true
			}
		}
		if fine && failed {
			return false, "ends without an error although something that it reads has failed"
		}
		if !fine && !failed {
			return false, "ends with an error although nothing has failed: " + r.String()
		}
		if fine {
			for _, ev := range e.s.ev {
				f := ev.args[len(ev.args)-1].String()
				if is, asked := known(e.s.conds, f); !(asked && is) && f != r.String() {
					return false, "does not look at the " + f
				}
			}
		}
		return fine, ""
	}
	common := func(w *sflow, s *sstate, c *ssa.CallCommon, f *ssa.Function, args []sval) (sval, bool) {
		if f == nil || f.Pkg != nil && P.inRepo[f.Pkg.Pkg] {
			return sval{}, false
		}
		n := stdName(f)
		if t, ok := texts(args); ok && len(t) == len(args) {
			switch {
			case n == "strconv.Unquote":
				x, err := strconv.Unquote(t[0])
				if err == nil {
					return sval{k: 't', l: []sval{sStr(x), sNil()}}, true
				}
			case n == "strings.Trim" && len(t) == 2:
				return sStr(strings.Trim(t[0], t[1])), true
			case n == "path/filepath.IsAbs":
				return sBool(filepath.IsAbs(t[0])), true
			}
		}
		return foldPath(n, args, s, w)
	}
	failure := func(kind string, args []sval) sval {
		t, _ := texts(args)
		return sSym("failure of %s %s", kind, filepath.Join(t...))
	}

	// A directory.
	onStack := func(s *sstate, f *ssa.Function) bool {
		for _, g := range s.fr {
			if g.fn == f {
				return true
			}
		}
		return false
	}
	takes := func(f *ssa.Function, name string) bool {
		for _, p := range f.Params {
			if strings.HasSuffix(p.Type().String(), name) {
				return true
			}
		}
		return false
	}
	{
		say := func(key, msg string) {
			rep.add("directory "+key, fmt.Sprintf("%s: %s: %s", P.pos(dirFn.Pos()), fnName(dirFn), msg))
		}
		names := []string{"a.hbuf", "sub", "z.hbuf"}
		w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs, rounds: 40}
		for _, x := range names {
			w.parts["entry:"+x+".!"] = sBool(true)
		}
		w.invoke = func(s *sstate, recv sval, m string) (sval, bool) {
			if !strings.HasPrefix(recv.String(), "entry:") {
				return sval{}, false
			}
			n := strings.TrimPrefix(recv.String(), "entry:")
			switch m {
			case "Name":
				return sStr(n), true
			case "IsDir":
				return sSym("isdir:%s", n), true
			}
			return sval{}, false
		}
		w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
			if f == nil {
				return sval{}, false
			}
			switch {
			case readFuncs.MatchString(stdName(f)):
				var l []sval
				for _, x := range names {
					l = append(l, sSym("entry:%s", x))
				}
				x := failure("list", args)
				s.ev = append(s.ev, sEvent{"list", append(append([]sval{}, args...), x), c.Pos()})
				return sval{k: 't', l: []sval{{k: 'l', l: l}, x}}, true
			case f == fileFn || f == dirFn || lists[f] && onStack(s, f):
				kind := map[bool]string{true: "file", false: "directory"}[f == fileFn]
				x := failure(kind, args)
				s.ev = append(s.ev, sEvent{kind, append(append([]sval{}, args...), x), c.Pos()})
				return x, true
			case f.Name() == "MatchString" && len(args) == 2:
				if t, ok := texts(args); ok {
					return sSym("match:%s", t[0]), true
				}
			case f.Name() == "IsDir" && len(args) == 1 && strings.HasPrefix(args[0].String(), "entry:"):
				return sSym("isdir:%s", strings.SplitN(strings.TrimPrefix(args[0].String(), "entry:"), ".Type()", 2)[0]), true
			}
			return common(w, s, c, f, args)
		}
		var args []sval
		for _, p := range dirFn.Params {
			if isStringType(p.Type()) {
				args = append(args, sStr("in/d"))
			} else {
				args = append(args, sSym("param:%s", p.Name()))
				w.parts["param:"+p.Name()+".!"] = sBool(true)
			}
		}
		w.run(dirFn, args)
		if w.bad != "" {
			rep.undecide(w.bad)
			return
		}
		good := 0
		for _, e := range w.ends {
			paths++
			fine, why := success(e)
			if why != "" {
				say("failure", why)
			}
			if !fine {
				continue
			}
			good++
			got := map[string]int{}
			for _, ev := range e.s.ev {
				t, _ := texts(ev.args)
				got[ev.kind+" "+filepath.Join(t...)]++
				// The set, the package and the pattern go along.
				n := 0
				for _, a := range ev.args[:len(ev.args)-1] {
					if strings.HasPrefix(a.String(), "param:") {
						n++
					}
				}
				if want := map[string]int{"directory": 3, "file": 2}[ev.kind]; n != want && want > 0 && len(dirFn.Params) == 4 && takes(fileFn, "token.FileSet") && takes(fileFn, "ast.Package") {
					say("along", fmt.Sprintf("%s: the %s is read with %s", P.pos(ev.at), ev.kind, sList(ev.args)))
				}
			}
			want := map[string]int{"list in/d": 1}
			for _, x := range names {
				if e.s.conds["isdir:"+x] {
					want["directory in/d/"+x] = 1
					// A directory whose name matches is not a file.
					delete(got, "file in/d/"+x)
				} else if e.s.conds["match:"+x] {
					want["file in/d/"+x] = 1
					if _, ok := e.s.conds["isdir:"+x]; !ok {
						say("kind", "an entry is read as a file without looking whether it is a directory")
					}
				} else if _, ok := e.s.conds["match:"+x]; !ok {
					say("unseen", "an entry of the directory is left out without looking at its name")
				}
			}
			compareCounts(got, want, say)
		}
		if good == 0 {
			say("end", "no path without an error")
		}
	}

	// A file.
	specType, litType := P.namedType("ast", "ImportSpec"), P.namedType("ast", "BasicLit")
	fileType, setType, pkgType, tokFile := P.namedType("ast", "File"), P.namedType("token", "FileSet"), P.namedType("ast", "Package"), P.namedType("token", "File")
	if specType == nil || litType == nil || fileType == nil || setType == nil || pkgType == nil || tokFile == nil {
		rep.undecide("the types of the tree are not known")
		return
	}
	at := func(t types.Type, name string) string {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return fmt.Sprint(".", i)
			}
		}
		rep.undecide("no " + name + " in " + t.String())
		return ".0"
	}
	comments := int64(0)
	if c, ok := dirFn.Pkg.Pkg.Scope().Lookup("ParseComments").(*types.Const); ok {
		comments, _ = constant.Int64Val(c.Val())
	}
	others := []string{"in/b.hbuf", "x/a.hbuf", "a.hbuf", "in/d/a.hbuf.x"}
	imports := [][2]string{{"base.hbuf", "in/d/base.hbuf"}, {"../../x/c.hbuf", "x/c.hbuf"}, {"./sub/d.hbuf", "in/d/sub/d.hbuf"}}
	all := others
	for place := -2; place <= len(all)+1; place++ {
		others := all
		if place == -2 { // imports that were read before
			others = append(append([]string{}, all...), imports[0][1], imports[2][1])
		}
		if place > len(all) {
			others, place = nil, 0 // the file alone
		}
		alone := others == nil
		say := func(key, msg string) {
			rep.add("file "+key, fmt.Sprintf("%s: %s: %s", P.pos(fileFn.Pos()), fnName(fileFn), msg))
		}
		s := &sstate{heap: map[int]*sobj{}, conds: map[string]bool{}}
		w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs, rounds: 40}
		set, pkg := w.alloc(s, setType), w.alloc(s, pkgType)
		s.next++
		files := sval{k: 'm', n: s.next}
		s.heap[files.n] = &sobj{f: map[string]sval{}}
		s.heap[pkg.n].f[at(pkgType, "Files")] = files
		there := append([]string{}, others...)
		if place >= 0 {
			there = append(there[:place:place], append([]string{"in/d/a.hbuf"}, there[place:]...)...)
		}
		var l []sval
		for _, x := range there {
			f := w.alloc(s, tokFile)
			s.heap[f.n].f[at(tokFile, "name")] = sStr(x)
			l = append(l, f)
			s.heap[files.n].keys = append(s.heap[files.n].keys, sStr(x))
			s.heap[files.n].vals = append(s.heap[files.n].vals, w.alloc(s, fileType))
		}
		s.heap[set.n].f[at(setType, "files")] = sval{k: 'l', l: l}
		tree := w.alloc(s, fileType)
		var specs, lits []sval
		for i, x := range imports {
			spec, lit := w.alloc(s, specType), w.alloc(s, litType)
			s.heap[lit.n].f[at(litType, "Value")] = sStr(strconv.Quote(x[0]))
			s.heap[lit.n].f[at(litType, "ValuePos")] = sSym("place:%d", i)
			s.heap[spec.n].f[at(specType, "Path")] = lit
			specs, lits = append(specs, spec), append(lits, lit)
		}
		s.heap[tree.n].f[at(fileType, "Imports")] = sval{k: 'l', l: specs}
		w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
			if f == nil {
				return sval{}, false
			}
			switch {
			case f == parse:
				x := failure("parse", args)
				s.ev = append(s.ev, sEvent{"parse", append(append([]sval{}, args...), x), c.Pos()})
				return sval{k: 't', l: []sval{tree, x}}, true
			case f == fileFn:
				x := failure("file", args)
				s.ev = append(s.ev, sEvent{"file", append(append([]sval{}, args...), x), c.Pos()})
				return x, true
			case f.Name() == "Position" && f.Pkg != nil && f.Pkg.Pkg.Name() == "token" && len(args) == 2:
				return sSym("position(%s)", args[1]), true
			}
			return common(w, s, c, f, args)
		}
		var args []sval
		n := 0
		for _, p := range fileFn.Params {
			switch {
			case types.Identical(p.Type(), types.NewPointer(setType)):
				args = append(args, set)
			case types.Identical(p.Type(), types.NewPointer(pkgType)):
				args = append(args, pkg)
			case isStringType(p.Type()):
				n++
				args = append(args, sStr([]string{"in/d", "a.hbuf", "?"}[min(n-1, 2)]))
			default:
				// A struct that holds them.
				t := p.Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
						v := w.alloc(s, pt.Elem())
						for i := 0; i < st.NumFields(); i++ {
							switch ft := st.Field(i).Type(); {
							case types.Identical(ft, types.NewPointer(setType)):
								s.heap[v.n].f[fmt.Sprint(".", i)] = set
							case types.Identical(ft, types.NewPointer(pkgType)):
								s.heap[v.n].f[fmt.Sprint(".", i)] = pkg
							default:
								s.heap[v.n].f[fmt.Sprint(".", i)] = sSym("param:%s.%s", p.Name(), st.Field(i).Name())
							}
						}
						args = append(args, v)
						continue
					}
				}
				args = append(args, sSym("param:%s", p.Name()))
			}
		}
		if n == 1 {
			for i, p := range fileFn.Params {
				if isStringType(p.Type()) {
					args[i] = sStr("in/d/a.hbuf")
				}
			}
		}
		w.runFrom(s, fileFn, args)
		if w.bad != "" {
			rep.undecide(w.bad)
			return
		}
		good := 0
		for _, e := range w.ends {
			paths++
			fine, why := success(e)
			if why != "" {
				say("failure", why)
			}
			if !fine {
				r := e.r[len(e.r)-1].String()
				last := ""
				for _, ev := range e.s.ev {
					if t, _ := texts(ev.args); ev.kind == "file" {
						last = filepath.Join(t...)
					}
				}
				for i, x := range imports {
					if strings.Contains(r, "position(") && x[1] == last && !strings.Contains(r, fmt.Sprintf("place:%d", i)) {
						say("position", "that an import is not read is said of another place: "+r)
					}
				}
				continue
			}
			good++
			got := map[string]int{}
			for _, ev := range e.s.ev {
				t, _ := texts(ev.args)
				got[ev.kind+" "+filepath.Join(t...)]++
				for i, a := range ev.args[:len(ev.args)-1] {
					if ev.kind == "parse" && i < len(parse.Params) && parse.Params[i].Name() == "mode" && a.k == 'c' && a.c != nil {
						if k, _ := constant.Int64Val(a.c); k&comments == 0 {
							say("comments", P.pos(ev.at)+": the comments of the file are not read")
						}
					}
				}
				own := takes(fileFn, "token.FileSet") && takes(fileFn, "ast.Package")
				if (ev.kind == "parse" || own) && !strings.Contains(sList(ev.args), set.String()) || ev.kind == "file" && own && !strings.Contains(sList(ev.args), pkg.String()) {
					say("along", fmt.Sprintf("%s: the %s is read with %s", P.pos(ev.at), ev.kind, sList(ev.args)))
				}
			}
			want := map[string]int{}
			if place < 0 {
				want["parse in/d/a.hbuf"] = 1
				for i, x := range imports {
					want["file "+x[1]] = 1
					if k := "file " + x[1]; place == -2 && i != 1 && got[k] == 0 {
						got[k] = 1 // known: it need not be asked for
					}
					if v := w.load(e.s, sval{k: 'p', n: lits[i].n, path: at(litType, "Value")}); v.String() != strconv.Quote(x[1]) {
						say("path", fmt.Sprintf("the import %s in in/d/a.hbuf is kept as %s, its file is %s", x[0], v, x[1]))
					}
				}
				in := 0
				for i, k := range e.s.heap[files.n].keys {
					if k.String() == strconv.Quote("in/d/a.hbuf") && e.s.heap[files.n].vals[i].String() == tree.String() {
						in++
					}
				}
				if in != 1 || len(e.s.heap[files.n].keys) != len(others)+1 {
					say("kept", "the file that is parsed is not kept under its path")
				}
			}
			compareCounts(got, want, say)
		}
		if good == 0 {
			say("end", "no path without an error")
		}
		if alone {
			break
		}
	}

	// The position of a file is known by the name under which it is looked up.
	runFileName(P, rep, parse, funcs)
	paths += runParseFile(P, rep, parse, funcs, common)

	var list []string
	for f := range funcs {
		list = append(list, fnName(f))
	}
	sort.Strings(list)
	cov["functions"] = list
	cov["paths"] = paths
	cov["entry of the reading of a file"] = fnName(fileFn)
	cov["obligations"] = paths
}

// runParseFile: the text of the file is what is parsed, and no failure to read
// or to parse it is lost.
func runParseFile(P *Program, rep *Report, parse *ssa.Function, funcs map[*ssa.Function]bool, common func(*sflow, *sstate, *ssa.CallCommon, *ssa.Function, []sval) (sval, bool)) (paths int) {
	say := func(key, msg string) {
		rep.add("parse "+key, fmt.Sprintf("%s: %s: %s", P.pos(parse.Pos()), fnName(parse), msg))
	}
	scans := reaching(P, func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && f.Name() == "Scan" && f.Pkg != nil && f.Pkg.Pkg.Name() == "scanner"
	})
	fileType := P.namedType("ast", "File")
	w := &sflow{P: P, parts: map[string]sval{"param:fset.!": sBool(true)}, funcs: funcs, rounds: 40}
	reads := regexp.MustCompile(`^(io/ioutil|os)\.ReadFile$`)
	w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
		if f == nil {
			return sval{}, false
		}
		n := stdName(f)
		switch {
		case reads.MatchString(n):
			s.ev = append(s.ev, sEvent{"read", args, c.Pos()})
			return sval{k: 't', l: []sval{sSym("the text"), sSym("failure of reading")}}, true
		case scans[f] && f != parse && f.Signature.Recv() != nil:
			s.ev = append(s.ev, sEvent{"parse", args, c.Pos()})
			if rs := f.Signature.Results(); fileType != nil && rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.NewPointer(fileType)) {
				v := w.alloc(s, fileType)
				s.heap[v.n].f["parsed"] = sBool(true)
				return v, true
			}
			return sSym("what %s gives", f.Name()), true
		case f.Name() == "Err" && f.Pkg != nil && f.Pkg.Pkg.Name() == "scanner":
			return sSym("failure of parsing"), true
		}
		return common(w, s, c, f, args)
	}
	var args []sval
	for _, p := range parse.Params {
		switch {
		case isStringType(p.Type()):
			args = append(args, sStr("in/d/a.hbuf"))
		case types.IsInterface(p.Type()):
			args = append(args, sNil())
		default:
			args = append(args, sSym("param:%s", p.Name()))
		}
	}
	w.run(parse, args)
	if w.bad != "" {
		rep.undecide(w.bad)
		return
	}
	good := 0
	for _, e := range w.ends {
		paths++
		if len(e.r) != 2 {
			rep.undecide(fnName(parse) + " has not two results")
			return
		}
		r := e.r[1]
		is, asked := e.s.conds["eq(failure of reading, nil)"]
		if asked && !is {
			if r.String() != "failure of reading" && r.k == 'c' || r.String() == "failure of parsing" {
				say("read", "a file that cannot be read is taken for "+r.String())
			}
			continue
		}
		parsedOK, parsedAsked := e.s.conds["eq(failure of parsing, nil)"]
		if r.String() == "failure of reading" {
			if len(e.s.ev) == 1 && !asked {
				say("read", "the file is not parsed")
			}
			continue
		}
		good++
		if !asked {
			say("read", "it is not looked at whether the file was read")
		}
		if r.k == 'c' && !(parsedAsked && parsedOK) {
			say("failure", "the failures of parsing are lost")
		}
		n, text, tree := 0, false, false
		for _, ev := range e.s.ev {
			if ev.kind == "read" {
				n++
				if len(ev.args) != 1 || ev.args[0].String() != strconv.Quote("in/d/a.hbuf") {
					say("name", "the file that is read is "+sList(ev.args))
				}
			} else {
				for _, a := range ev.args {
					text = text || strings.TrimPrefix(a.String(), "conv:") == "the text"
				}
			}
		}
		if o := e.s.heap[e.r[0].n]; e.r[0].k == 'p' && o != nil {
			_, tree = o.f["parsed"]
		}
		if n != 1 || !text || !tree {
			say("text", fmt.Sprintf("what is parsed is not the text of the file: read %d times, text %v, tree %s", n, text, e.r[0]))
		}
	}
	if good == 0 {
		say("end", "no path parses the file")
	}
	return
}

func compareCounts(got, want map[string]int, say func(key, msg string)) {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got[k] != want[k] {
			say("times", fmt.Sprintf("%s: %d times, expected %d", k, got[k], want[k]))
		}
	}
}

// runFileName: parsing a file makes it known under the name that was asked for,
// and the tree has that name.
func runFileName(P *Program, rep *Report, parse *ssa.Function, funcs map[*ssa.Function]bool) {
	add := 0
	var visit func(fn *ssa.Function, name ssa.Value, depth int)
	// A parameter that a closure shares is in memory: its loads are it.
	is := func(a, name ssa.Value) bool {
		if a == name {
			return true
		}
		u, ok := a.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		m, ok := u.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, r := range *m.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == m {
				if st.Val != name {
					return false
				}
				n++
			}
		}
		return n == 1
	}
	visit = func(fn *ssa.Function, name ssa.Value, depth int) {
		funcs[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				c := ci.Common().StaticCallee()
				if c.Name() == "AddFile" && c.Pkg != nil && c.Pkg.Pkg.Name() == "token" {
					has := false
					for _, a := range ci.Common().Args {
						has = has || name != nil && is(a, name)
					}
					if has {
						add++
					} else {
						rep.add("name", fmt.Sprintf("%s: a file is added to the set under another name than it was asked for", P.instrPos(in)))
					}
				} else if depth < 4 && c.Pkg == fn.Pkg && len(c.Blocks) > 0 && c != fn {
					var p ssa.Value
					for i, a := range ci.Common().Args {
						if name != nil && is(a, name) && i < len(c.Params) {
							p = c.Params[i]
						}
					}
					if p != nil {
						visit(c, p, depth+1)
					}
				}
			}
		}
	}
	var name ssa.Value
	for _, p := range parse.Params {
		if isStringType(p.Type()) {
			name = p
		}
	}
	visit(parse, name, 0)
	if add == 0 {
		rep.add("name", fmt.Sprintf("%s: the file is not added to the set under its name", P.pos(parse.Pos())))
	}
}

func init() {
	register("P28", "Abstract interpretation of the two recursive functions that read a directory and a file, with the calls of the recursion as effects: the entries of a directory are open (file or directory, matched or not), the imports of a file and the files that are known are representatives; every path has to read exactly what is due, and to end with an error exactly if something failed.", runReading)
}
