package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the compiler does to files: which files it makes, what it puts into
// each, and that it does nothing else outside itself.

// makers are the functions of the standard library that make a file.
var makers = map[string]bool{"os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "io/ioutil.WriteFile": true}

// harmless are the functions with effects outside the process that the
// compiler may use; of the packages in effectPkgs everything else is reported.
var harmless = map[string]bool{
	"os.MkdirAll": true, "os.Mkdir": true, "os.ReadFile": true, "os.ReadDir": true, "io/ioutil.ReadDir": true, "io/ioutil.ReadFile": true, "os.Open": true, "os.Stat": true, "os.Lstat": true,
	"os.Exit": true, "os.IsNotExist": true, "os.IsExist": true, "(*os.File).Close": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Sync": true, "(*os.File).Name": true,
	"(*os.File).Read": true, "(*os.File).Stat": true, "(*os.File).ReadDir": true, "(*os.File).Readdir": true, "(*os.File).ReadFrom": true, "os.Getwd": true, "(*os.PathError).Error": true, "os.DirFS": true,
}

var effectPkgs = regexp.MustCompile(`^(os|os/.*|io/ioutil|net|net/.*|syscall|plugin|golang\.org/x/sys/.*|runtime/debug|log/syslog)$`)

// outFiles: the files of each back end, by the part that they hold.
var outFiles = map[string]map[string]string{
	"go":   {"data": ".data.go", "enum": ".enum.go", "server": ".server.go", "database": ".database.go", "verify": ".verify.go"},
	"dart": {"data": ".data.dart", "enum": ".enum.dart", "server": ".server.dart", "ui": ".ui.dart", "verify": ".verify.dart"},
	"java": {"data": "Data.java", "enum": "Enum.java", "server": "Server.java"},
	"ts":   {"data": ".data.ts", "enum": ".enum.ts", "server": ".server.ts", "lang": ".lang.ts", "ui": ".ui.tsx", "verify": ".verify.ts"},
}

func stdName(fn *ssa.Function) string {
	return fn.String()
}

// reaching are the functions of the program from which one of these calls is made.
func reaching(P *Program, is func(*ssa.CallCommon) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for more := true; more; {
		more = false
		for _, fn := range P.Funcs {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
						out[fn] = true
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if is(ci.Common()) {
						out[fn] = true
					} else if c := ci.Common().StaticCallee(); c != nil && out[c] {
						out[fn] = true
					}
				}
			}
			if out[fn] {
				more = true
			}
		}
	}
	return out
}

// foldPath applies functions on paths and texts to known ones.
func foldPath(name string, args []sval, s *sstate, w *sflow) (sval, bool) {
	var t []string
	for _, a := range args {
		if a.k == 'c' && a.c != nil && a.c.Kind() == constant.String {
			t = append(t, constant.StringVal(a.c))
		} else if l, ok := w.list(s, a); ok && (a.k == 'l' || a.k == 'L' || a.k == 'p') {
			for _, x := range l {
				if x.k != 'c' || x.c == nil || x.c.Kind() != constant.String {
					return sval{}, false
				}
				t = append(t, constant.StringVal(x.c))
			}
		} else if a.k == 'c' && a.c == nil {
		} else {
			return sval{}, false
		}
	}
	two := func(a, b string) (sval, bool) { return sval{k: 't', l: []sval{sStr(a), sStr(b)}}, true }
	list := func(l []string) (sval, bool) {
		v := sval{k: 'l'}
		for _, x := range l {
			v.l = append(v.l, sStr(x))
		}
		return v, true
	}
	n := len(t)
	switch name {
	case "path/filepath.Join", "path.Join":
		return sStr(filepath.Join(t...)), true
	case "path/filepath.Split", "path.Split":
		if n == 1 {
			return two(filepath.Split(t[0]))
		}
	case "path/filepath.Base", "path.Base":
		if n == 1 {
			return sStr(filepath.Base(t[0])), true
		}
	case "path/filepath.Dir", "path.Dir":
		if n == 1 {
			return sStr(filepath.Dir(t[0])), true
		}
	case "path/filepath.Ext", "path.Ext":
		if n == 1 {
			return sStr(filepath.Ext(t[0])), true
		}
	case "path/filepath.Clean", "path.Clean":
		if n == 1 {
			return sStr(filepath.Clean(t[0])), true
		}
	case "path/filepath.FromSlash", "path/filepath.ToSlash":
		if n == 1 {
			return sStr(t[0]), true
		}
	case "path/filepath.VolumeName":
		if n == 1 {
			return sStr(filepath.VolumeName(t[0])), true
		}
	case "strings.TrimSuffix":
		if n == 2 {
			return sStr(strings.TrimSuffix(t[0], t[1])), true
		}
	case "strings.HasSuffix":
		if n == 2 {
			return sBool(strings.HasSuffix(t[0], t[1])), true
		}
	case "strings.ReplaceAll":
		if n == 3 {
			return sStr(strings.ReplaceAll(t[0], t[1], t[2])), true
		}
	case "strings.Split":
		if n == 2 {
			return list(strings.Split(t[0], t[1]))
		}
	case "strings.Fields":
		if n == 1 {
			return list(strings.Fields(t[0]))
		}
	case "strings.Join":
		if n >= 1 {
			return sStr(strings.Join(t[:n-1], t[n-1])), true
		}
	case "strings.LastIndex":
		if n == 2 {
			return sInt(int64(strings.LastIndex(t[0], t[1]))), true
		}
	case "regexp.QuoteMeta":
		if n == 1 {
			return sStr(regexp.QuoteMeta(t[0])), true
		}
	}
	return sval{}, false
}

type fileMade struct {
	path, content string
	dirs          []string
}

// filesOf interprets the entry of a back end for one path and one package.
func filesOf(P *Program, fn *ssa.Function, out, pack string, reach map[*ssa.Function]bool, writes map[*ssa.Function]*makeSummary, funcs map[*ssa.Function]bool) (ends []sEnd, w *sflow) {
	w = &sflow{P: P, parts: map[string]sval{}, funcs: funcs}
	w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
		if f == nil {
			return sval{}, false
		}
		res := func() sval {
			v := sSym("%s(%s)", fnName(f), sList(args))
			tp := f.Signature.Results()
			if tp.Len() > 1 {
				t := sval{k: 't'}
				for i := 0; i < tp.Len(); i++ {
					t.l = append(t.l, sSym("%s#%d", v, i))
				}
				return t
			}
			return v
		}
		if f.Pkg == nil || !P.inRepo[f.Pkg.Pkg] {
			switch n := stdName(f); n {
			case "os.MkdirAll", "os.Mkdir":
				s.ev = append(s.ev, sEvent{"dir", args, c.Pos()})
			}
			if makers[stdName(f)] {
				s.ev = append(s.ev, sEvent{"make " + stdName(f), args, c.Pos()})
			}
			if v, ok := foldPath(stdName(f), args, s, w); ok {
				return v, true
			}
			return sval{}, false
		}
		if m := writes[f]; m != nil {
			s.ev = append(s.ev, sEvent{"write", append([]sval{{k: 'f', fn: f}}, args...), c.Pos()})
			return res(), true
		}
		// The path of the output, as the driver gives it.
		if r := f.Signature.Recv(); r != nil && len(args) == 1 && args[0].String() == "param:"+paramOf(fn) {
			if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
				if f.Name() == "GetOut" {
					return sStr(out), true
				}
				return sStr("pack"), true
			}
		}
		sg := f.Signature
		if sg.Results().Len() == 1 && isStringType(sg.Results().At(0).Type()) && sg.Recv() == nil && sg.Params().Len() == 1 && isStringType(sg.Params().At(0).Type()) && f.Pkg.Pkg.Name() == "build" && len(args) == 1 && args[0].k == 'c' {
			return sStr(f.Name() + "<" + constant.StringVal(args[0].c) + ">"), true
		}
		if reach[f] {
			return sval{}, false
		}
		// Parts of a writer are read; all else that makes no file is left open.
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		if n <= 6 && sg.Params().Len() == 0 && sg.Recv() != nil || f.Parent() != nil {
			return sval{}, false
		}
		if n <= 40 && f.Pkg == fn.Pkg && sg.Results().Len() > 0 {
			text := true
			for i := 0; i < sg.Results().Len(); i++ {
				text = text && isStringType(sg.Results().At(i).Type())
			}
			if text {
				return sval{}, false
			}
		}
		v := res()
		if v.k == 's' && sg.Results().Len() == 1 {
			if pt, ok := sg.Results().At(0).Type().(*types.Pointer); sg.Results().Len() == 1 && ok {
				w.parts[v.s+".!"] = sBool(true)
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if isStringType(f.Type()) {
							w.parts[v.s+"."+f.Name()] = sStr(pack)
						} else if isWriterPtr(f.Type()) {
							w.parts[v.s+"."+f.Name()+".!"] = sBool(true)
							w.parts[v.s+"."+f.Name()] = sSym("writer:%s", f.Name())
						}
					}
				}
			}
		}
		return v, true
	}
	var args []sval
	for _, p := range fn.Params {
		args = append(args, sSym("param:%s", p.Name()))
	}
	w.run(fn, args)
	return w.ends, w
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func isWriterPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Writer" && n.Obj().Pkg().Name() == "build"
}

func paramOf(fn *ssa.Function) string {
	for _, p := range fn.Params {
		if pt, ok := p.Type().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Param" {
				return p.Name()
			}
		}
	}
	return "?"
}

// makeSummary: a function that makes the file of one of its parameters and
// writes a writer that is another.
type makeSummary struct {
	path, data int
}

// summarise interprets a function that makes a file.
func summarise(P *Program, fn *ssa.Function, funcs map[*ssa.Function]bool, rep *Report) *makeSummary {
	w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs}
	data := -1
	for i, p := range fn.Params {
		if isWriterPtr(p.Type()) {
			data = i
			w.parts["param:"+p.Name()+".!"] = sBool(true)
		}
	}
	if data < 0 {
		return nil
	}
	w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
		if f == nil || f.Pkg == nil || P.inRepo[f.Pkg.Pkg] {
			return sval{}, false
		}
		if makers[stdName(f)] {
			s.ev = append(s.ev, sEvent{"make " + stdName(f), args, c.Pos()})
		} else if n := f.Name(); strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Copy") {
			s.ev = append(s.ev, sEvent{"put", args, c.Pos()})
		}
		return sval{}, false
	}
	var args []sval
	for _, p := range fn.Params {
		args = append(args, sSym("param:%s", p.Name()))
	}
	w.run(fn, args)
	if w.bad != "" {
		rep.undecide(w.bad)
		return nil
	}
	code := "param:" + fn.Params[data].Name() + ".code"
	m := &makeSummary{path: -1, data: data}
	say := func(msg string) { rep.add("writing "+fnName(fn), P.pos(fn.Pos())+": "+fnName(fn)+": "+msg) }
	good := 0
	for _, e := range w.ends {
		n := len(e.r)
		if n == 0 {
			continue
		}
		if x := e.r[n-1]; x.k == 'c' && x.c != nil {
			continue
		}
		// A path on which an error is known.
		failed := false
		for c, v := range e.s.conds {
			failed = failed || strings.HasPrefix(c, "eq(") && strings.Contains(c, "nil") && !v && strings.Contains(c, e.r[n-1].String())
		}
		if failed {
			continue
		}
		made, put := 0, 0
		for _, ev := range e.s.ev {
			if strings.HasPrefix(ev.kind, "make") {
				made++
				if why := truncates(ev); why != "" {
					say(why)
				}
				for i, p := range fn.Params {
					if len(ev.args) > 0 && ev.args[0].String() == "param:"+p.Name() {
						m.path = i
					}
				}
				if strings.Contains(sList(ev.args), code) {
					put++
				}
			} else if t := sList(ev.args); strings.Contains(t, code) {
				if cut := cutOf(t, code); cut != "" {
					say("only a part of the code is written: " + cut)
				}
				put++
			}
		}
		if made != 1 {
			say(fmt.Sprintf("makes %d files for one part", made))
		} else if put != 1 {
			say(fmt.Sprintf("writes the code of its part %d times", put))
		} else {
			good++
		}
	}
	if good == 0 || m.path < 0 {
		say("does not make the file that it is given and write the code into it")
		return nil
	}
	return m
}

// truncates: why an old file of the name would not be replaced.
func truncates(ev sEvent) string {
	if ev.kind != "make os.OpenFile" || len(ev.args) < 2 {
		return ""
	}
	c := ev.args[1]
	if c.k != 'c' || c.c == nil {
		return "the mode in which the file is opened is not known"
	}
	n, _ := constant.Int64Val(c.c)
	if n&0x40 == 0 || n&0x200 == 0 || n&0x400 != 0 || n&0x80 != 0 || n&3 == 0 {
		return "an older file of the name is not replaced"
	}
	return ""
}

var wholeCode = regexp.MustCompile(`^\[(0|):len\(C\)-1\]|^\[:len\(C\)-1\]`)

// cutOf: the part of the code that is written, where it is not all but a last
// line break.
func cutOf(t, code string) string {
	i := strings.LastIndex(t, ")[")
	if i < 0 || !strings.HasSuffix(t, "]") && !strings.HasSuffix(t, "])") {
		return ""
	}
	x := t[i+2:]
	if strings.HasPrefix(x, ":len(") && strings.Contains(x, ")-1]") || strings.HasPrefix(x, "0:len(") {
		return ""
	}
	return t
}

// outCases: where the output goes, the directory it must stay in, and the
// name of the input without its suffix.
var outCases = []struct{ out, dir, name string }{
	{"o/user_info.hbuf", "o", "user_info"}, {"o/p/v1.user.hbuf", "o/p", "v1.user"}, {"/o/hbuf", "/o", "hbuf"}, {"user.hbuf.hbuf", ".", "user.hbuf"},
}

func runFiles(P *Program, rep *Report, cov Coverage, tier string) {
	funcs := map[*ssa.Function]bool{}
	// 1. Effects.
	calls := 0
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || f.Pkg == nil || P.inRepo[f.Pkg.Pkg] || !effectPkgs.MatchString(f.Pkg.Pkg.Path()) {
						continue
					}
					calls++
					if n := stdName(f); !harmless[n] && !makers[n] && f.Name() != "init" {
						rep.add("effect "+n+" in "+fnName(fn), fmt.Sprintf("%s: %s uses %s", P.instrPos(in), fnName(fn), n))
					}
				}
			}
		}
	}
	// 2. Files of each back end.
	isMake := func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && makers[stdName(f)]
	}
	reach := reaching(P, isMake)
	hasWriter := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if isWriterPtr(p.Type()) {
				return true
			}
		}
		return false
	}
	// The innermost functions that get a part and make a file.
	outer := reaching(P, func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && reach[f] && hasWriter(f)
	})
	writes := map[*ssa.Function]*makeSummary{}
	for _, fn := range P.Funcs {
		if reach[fn] && hasWriter(fn) && !outer[fn] {
			if m := summarise(P, fn, funcs, rep); m != nil {
				writes[fn] = m
			}
		}
	}
	reach = reaching(P, func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && (makers[stdName(f)] || strings.HasPrefix(stdName(f), "os.Mkdir"))
	})
	bs := P.backends()
	paths, files := 0, 0
	for _, b := range bs {
		want := outFiles[b.Name]
		if want == nil {
			rep.undecide("the files of " + b.Name + " are not known")
			continue
		}
		if b.Fn.Pkg == nil || b.Fn.Pkg.Pkg.Name() != map[string]string{"go": "golang", "dart": "dart", "java": "java", "ts": "ts"}[b.Name] {
			rep.add("registered "+b.Name, fmt.Sprintf("%s: the type %s is generated by %s", P.instrPos(b.Reg), b.Name, fnName(b.Fn)))
		}
		say := func(key, msg string) {
			rep.add(b.Name+" "+key, fmt.Sprintf("%s: %s: %s", P.pos(b.Fn.Pos()), fnName(b.Fn), msg))
		}
		for _, oc := range outCases {
			packs := []string{"app", "", "app.db"}
			if b.Name == "go" {
				packs = append(packs, "../up", "/root")
			}
			for _, pack := range packs {
				ends, w := filesOf(P, b.Fn, oc.out, pack, reach, writes, funcs)
				if w.bad != "" {
					rep.undecide(w.bad)
					return
				}
				if len(ends) == 0 {
					say("end", "no path to the end")
				}
				seen := map[string]bool{}
				for _, e := range ends {
					if x := e.r[len(e.r)-1]; !(x.k == 'c' && x.c == nil) {
						continue
					}
					paths++
					made := map[string]string{}
					var dirs []string
					for _, ev := range e.s.ev {
						if ev.kind == "dir" {
							dirs = append(dirs, ev.args[0].String())
							continue
						}
						if ev.kind != "write" {
							continue
						}
						m := writes[ev.args[0].fn]
						path, part := ev.args[1+m.path], ev.args[1+m.data].String()
						if path.k != 'c' || path.c == nil || path.c.Kind() != constant.String {
							say("path", fmt.Sprintf("the file of %s is %s", part, path))
							continue
						}
						t := constant.StringVal(path.c)
						if !strings.HasPrefix(part, "writer:") {
							say("content "+filepath.Base(t), fmt.Sprintf("the content of %s is %s", t, part))
							continue
						}
						part = strings.TrimPrefix(part, "writer:")
						if old, ok := made[part]; ok {
							say("twice "+part, fmt.Sprintf("the part %s is written to %s and %s", part, old, t))
						}
						made[part] = t
						files++
						dir := filepath.Dir(t)
						if dir != oc.dir && !strings.HasPrefix(dir+"/", oc.dir+"/") && oc.dir != "." || strings.HasPrefix(t, "..") || oc.dir == "." && filepath.IsAbs(t) {
							say("outside "+part, fmt.Sprintf("with the package %q the part %s of %s goes to %s, outside the output directory", pack, part, oc.out, t))
						}
						if b.Name == "go" {
							if !strings.ContainsAny(pack, "/") && dir != filepath.Join(append([]string{oc.dir}, strings.Split(pack, ".")...)...) {
								say("directory "+part, fmt.Sprintf("the part %s of the package %s goes to %s", part, pack, t))
							}
						} else if dir != filepath.Clean(oc.dir) {
							say("directory "+part, fmt.Sprintf("the part %s goes to %s instead of the output directory", part, t))
						}
						ok := false
						for _, d := range dirs {
							ok = ok || d == strconv.Quote(dir) || filepath.Clean(strings.Trim(d, `"`)) == dir
						}
						if !ok {
							say("no directory "+part, fmt.Sprintf("the directory of %s is not made before the file", t))
						}
						base := filepath.Base(t)
						if suffix, ok := want[part]; ok {
							if base != oc.name+suffix && base != "StringToHumpName<"+oc.name+">"+suffix {
								say("name "+part, fmt.Sprintf("the part %s of %s goes to the file %s", part, oc.out, base))
							} else if (b.Name == "java") != strings.HasPrefix(base, "StringToHumpName<") {
								say("name "+part, fmt.Sprintf("the part %s of %s goes to the file %s", part, oc.out, base))
							}
						}
						seen[part] = true
					}
					by := map[string]string{}
					for part, t := range made {
						if o, ok := by[t]; ok {
							l := []string{o, part}
							sort.Strings(l)
							say("same file "+strings.Join(l, " "), fmt.Sprintf("the parts %s and %s go to one file", l[0], l[1]))
						}
						by[t] = part
					}
					if pack == "" {
						if len(made) > 0 {
							say("no package", "files are made for an input that has no package")
						}
						continue
					}
					// A part that has code is written, one that has none is not.
					for part := range want {
						has, known := false, false
						for c, v := range e.s.conds {
							if strings.Contains(c, "writer:"+part+".code") && !strings.Contains(c, "nil") {
								// 0<len, len==0, ...
								known = true
								has = v != strings.HasPrefix(c, "eq(")
							}
						}
						_, ok := made[part]
						if !known {
							say("unasked "+part, fmt.Sprintf("whether the part %s has code is not asked where it is written or left out", part))
						}
						if known && has && !ok {
							say("left out "+part, fmt.Sprintf("the part %s has code and is not written", part))
						}
						if known && !has && ok {
							say("empty "+part, fmt.Sprintf("the part %s has no code and is written", part))
						}
					}
				}
				if pack != "" {
					for part := range want {
						if !seen[part] {
							say("never "+part, fmt.Sprintf("the part %s is never written", part))
						}
					}
				}
			}
		}
	}
	if len(bs) != len(outFiles) {
		rep.add("types", fmt.Sprintf("%d of %d output types are registered", len(bs), len(outFiles)))
	}
	paths += runDriver(P, rep, funcs)
	cov["calls_with_effects"] = calls
	cov["functions_interpreted"] = len(funcs)
	cov["paths"] = paths
	cov["files"] = files
}

func init() {
	register("P24", "Abstract interpretation of the entry of every back end with the path of the output known and the code of every part open: which part goes to which file, in which directory; calls with effects outside the process are compared with a list of allowed ones.", runFiles)
}

// runDriver: every file that is read is generated once, under its own name in
// the output directory, with the options of the command.
func runDriver(P *Program, rep *Report, funcs map[*ssa.Function]bool) (paths int) {
	fn := P.fn("build.Build")
	if fn == nil || len(fn.Params) != 4 {
		rep.undecide("there is no build.Build of four options")
		return
	}
	say := func(key, msg string) {
		rep.add("driver "+key, fmt.Sprintf("%s: %s: %s", P.pos(fn.Pos()), fnName(fn), msg))
	}
	isGen := func(c *ssa.CallCommon) bool {
		if c.StaticCallee() != nil || c.IsInvoke() {
			return false
		}
		sg := c.Signature()
		for i := 0; i < sg.Params().Len(); i++ {
			if p, ok := sg.Params().At(i).Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "Param" {
					return true
				}
			}
		}
		return false
	}
	reach := reaching(P, isGen)
	inputs := []string{"src/zoo.hbuf", "src/sub/area.hbuf", "lib/My_Mid.hbuf"}
	for _, in := range []struct {
		in, dir  string
		yes, not []string
	}{
		{"src/*.hbuf", "src", []string{"a.hbuf", "a.b.hbuf"}, []string{"a.hbuf.bak", "ahbuf", "a.hbufx"}},
		{"./user.hbuf", ".", []string{"user.hbuf"}, []string{"user_hbuf", "auser.hbuf", "user.hbuf2", "userxhbuf"}},
		{"/d/a+*_b.hbuf", "/d", []string{"a+x_b.hbuf", "a+_b.hbuf"}, []string{"aa_b.hbuf", "a+x_bxhbuf"}},
	} {
		w := &sflow{P: P, parts: map[string]sval{}, funcs: funcs}
		for _, x := range inputs {
			w.parts["file:"+x+".!"] = sBool(true)
		}
		w.hook = func(s *sstate, c *ssa.CallCommon, f *ssa.Function, what sval, args []sval) (sval, bool) {
			if f == nil {
				if isGen(c) {
					s.ev = append(s.ev, sEvent{"generate", append([]sval{what}, args...), c.Pos()})
					return sSym("failure of generate %d", len(s.ev)), true
				}
				return sval{}, false
			}
			n := stdName(f)
			if f.Pkg == nil || !P.inRepo[f.Pkg.Pkg] {
				if n == "regexp.Compile" || n == "regexp.MustCompile" {
					s.ev = append(s.ev, sEvent{"pattern", args, c.Pos()})
				}
				if n == "sort.Strings" && len(args) == 1 {
					if l, ok := w.list(s, args[0]); ok && args[0].k == 'L' {
						t := append([]sval{}, l...)
						sort.SliceStable(t, func(i, j int) bool { return t[i].String() < t[j].String() })
						for i, x := range t {
							s.heap[args[0].n].f[fmt.Sprint(".", i)] = x
						}
						return sNil(), true
					}
				}
				return foldPath(n, args, s, w)
			}
			if f.Pkg.Pkg.Name() == "parser" && f.Signature.Results().Len() == 1 {
				// The input is read: the files are in the package.
				s.ev = append(s.ev, sEvent{"read", args, c.Pos()})
				for _, a := range args {
					if a.k != 'p' || s.heap[a.n] == nil {
						continue
					}
					st, ok := s.heap[a.n].t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && isStringType(m.Key()) && strings.HasSuffix(m.Elem().String(), "ast.File") {
							v := w.load(s, sval{k: 'p', n: a.n, path: fmt.Sprint(a.path, ".", i)})
							if v.k == 'm' {
								for _, x := range inputs {
									s.heap[v.n].keys = append(s.heap[v.n].keys, sStr(x))
									s.heap[v.n].vals = append(s.heap[v.n].vals, sSym("file:%s", x))
								}
							}
						}
					}
				}
				return sSym("failure of read"), true
			}
			rs := f.Signature.Results()
			if !reach[f] && f != fn && rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Universe.Lookup("error").Type()) {
				return sSym("failure of %s", fnName(f)), true
			}
			return sval{}, false
		}
		var args []sval
		for i, p := range fn.Params {
			switch {
			case p.Name() == "in":
				args = append(args, sStr(in.in))
			case p.Name() == "out":
				args = append(args, sStr("o/dir"))
			case !isStringType(p.Type()):
				args = append(args, sSym("param:%s", p.Name()))
			default:
				args = append(args, sSym("option:%d:%s", i, p.Name()))
			}
		}
		w.run(fn, args)
		if w.bad != "" {
			rep.undecide(w.bad)
			return
		}
		good := 0
		for _, e := range w.ends {
			if x := e.r[len(e.r)-1]; !(x.k == 'c' && x.c == nil) {
				continue
			}
			paths++
			good++
			got := map[string]int{}
			read, pattern := false, ""
			for _, ev := range e.s.ev {
				switch ev.kind {
				case "pattern":
					if ev.args[0].k == 'c' && ev.args[0].c != nil {
						pattern = constant.StringVal(ev.args[0].c)
					}
				case "read":
					for _, a := range ev.args {
						read = read || a.String() == strconv.Quote(in.dir)
					}
				case "generate":
					if !strings.Contains(ev.args[0].String(), "option:2:") {
						say("type", fmt.Sprintf("what generates is %s, which the type does not choose", ev.args[0]))
					}
					file, param := "", sval{}
					for _, a := range ev.args[1:] {
						if strings.HasPrefix(a.String(), "file:") {
							file = strings.TrimPrefix(a.String(), "file:")
						}
						if a.k == 'p' && e.s.heap[a.n] != nil {
							if n, ok := e.s.heap[a.n].t.(*types.Named); ok && n.Obj().Name() == "Param" {
								param = a
							}
						}
					}
					got[file]++
					if param.k != 'p' {
						say("param", "the generator gets no options")
						continue
					}
					st := e.s.heap[param.n].t.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						v := w.load(e.s, sval{k: 'p', n: param.n, path: fmt.Sprint(".", i)})
						switch st.Field(i).Name() {
						case "out":
							if v.String() != strconv.Quote("o/dir/"+filepath.Base(file)) {
								say("out", fmt.Sprintf("the output of %s is %s", file, v))
							}
						case "pack":
							if !strings.HasPrefix(v.String(), "option:3:") {
								say("pack", fmt.Sprintf("the package of %s is %s", file, v))
							}
						case "pkg", "build":
							if v.k != 'p' {
								say("pkg", fmt.Sprintf("%s of %s is %s", st.Field(i).Name(), file, v))
							}
						}
					}
				}
			}
			for _, x := range inputs {
				if got[x] != 1 {
					say("times", fmt.Sprintf("%s is generated %d times", x, got[x]))
				}
			}
			if !read {
				say("read", fmt.Sprintf("the directory %s of the input %s is not read", in.dir, in.in))
			}
			re, err := regexp.Compile(pattern)
			if err != nil || pattern == "" {
				say("pattern", fmt.Sprintf("the names of %s are matched with %q", in.in, pattern))
				continue
			}
			for _, x := range in.yes {
				if !re.MatchString(x) {
					say("pattern", fmt.Sprintf("the input %s does not match %s: %s", in.in, x, pattern))
				}
			}
			for _, x := range in.not {
				if re.MatchString(x) {
					say("pattern", fmt.Sprintf("the input %s matches %s: %s", in.in, x, pattern))
				}
			}
		}
		if good == 0 {
			say("end", "no path without an error")
		}
	}
	// The generators are registered under the names of their languages, and the
	// registration keeps them under the name.
	for _, b := range P.backends() {
		want := map[string]string{"go": "golang", "dart": "dart", "java": "java", "ts": "typescript"}[b.Name]
		if b.Fn.Pkg != nil && want != "" && filepath.Base(b.Fn.Pkg.Pkg.Path()) != want {
			rep.add("registered "+b.Name, fmt.Sprintf("%s: the type %s generates with %s", P.instrPos(b.Reg), b.Name, fnName(b.Fn)))
		}
	}
	if reg := P.fn("build.AddBuildType"); reg != nil && len(reg.Params) == 2 {
		for _, b := range reg.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				funcs[reg] = true
				if _, ok := m.Key.(*ssa.Const); ok || m.Key == reg.Params[1] {
					rep.add("registered", fmt.Sprintf("%s: a generator is not kept under the name of its type", P.instrPos(in)))
				}
				if _, ok := m.Value.(*ssa.Const); ok {
					rep.add("registered", fmt.Sprintf("%s: what is kept under the name of a type is not its generator", P.instrPos(in)))
				}
			}
		}
	}
	// The options of the command.
	calls := 0
	for _, m := range P.Funcs {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != fn {
					continue
				}
				calls++
				for i, a := range ci.Common().Args {
					if name, ok := optionOf(a, 0); ok && name != []string{"o", "i", "t", "p"}[i] {
						rep.add("option "+name, fmt.Sprintf("%s: the option -%s is given as %s", P.instrPos(in), name, fn.Params[i].Name()))
					}
				}
			}
		}
	}
	if calls == 0 {
		rep.undecide("build.Build is not called")
	}
	return
}

// optionOf: the name of the command line option that a value comes from.
func optionOf(v ssa.Value, depth int) (string, bool) {
	if depth > 8 {
		return "", false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return optionOf(v.X, depth+1)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "flag" && len(v.Call.Args) > 0 {
			if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
				return constant.StringVal(c.Value), true
			}
		}
	}
	return "", false
}
