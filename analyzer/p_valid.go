package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The checks made before anything is generated: what is known of every file of
// the package at the call of a generator.

func init() {
	register("P03", "At every call of a generator (a value of the type build.Function, called with a file of the package M) the must-facts computed over all paths from the command's entry — branch outcomes, summaries of the functions called, facts of all elements derived from finished loops — must show that declarations of every kind in every file of M have been checked; no file or directory is created before; registered generators are called nowhere else; the tree handed over is the tree checked and no generator stores to it or removes from it.", runValidated)
	register("P17", "At every call of a generator the must-facts must contain, for every file of the package: pairwise distinct type names across data, enum and server, distinct from the types of imported files; pairwise distinct field names and field numbers, enum item names and values, method names, extends, tags and tag keys; and that no name is a reserved word (the reserved words are a fixed table, only ever read). The facts come from branch outcomes on all paths, function summaries and loop generalisation; a fact killed by a later store counts as missing.", runDup)
	register("P18", "At every call of a generator the must-facts must contain, for every file of the package: each extended data (server) is bound to a declaration of a data (server); each field type, array element and map value is a built-in type or bound to a data or enum; each map key is not nullable and a built-in type or enum; each parameter is bound to a data and each result to a data or void; and every binding was found under the identifier's own name in the scope of the file or of a file it imports. Declared object kinds must agree with the declaration they are made for.", runRefs)
}

type validState struct {
	E     *FactEngine
	F     *Flow
	call  ssa.CallInstruction
	fn    *ssa.Function
	M     string // path of the map of files
	el    string // path of the file handed over
	chain []vstep
}

// vstep: a place on the way to the call, the state there and the name of M there
type vstep struct {
	s *FState
	M string
}

func validFacts(P *Program, rep *Report, cov Coverage) []*validState {
	F := newFlow(P)
	E := newFactEngine(F)
	E.derive = refFacts
	for _, p := range P.SSA {
		if c, ok := p.Pkg.Scope().Lookup("Enum").(*types.Const); ok && p.Pkg.Name() == "ast" {
			enumKind, _ = constant.Int64Val(c.Val())
		}
	}
	dumpFacts(E, P)
	var out []*validState
	for _, f := range F.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
					continue
				}
				if !isGenSig(ci.Common().Signature()) {
					continue
				}
				v := &validState{E: E, F: F, call: ci, fn: f}
				st := E.stateAt(f, in)
				if st == nil {
					continue // not reached
				}
				v.el = E.path(ci.Common().Args[0], st)
				i := strings.LastIndexByte(v.el, '{')
				if i < 0 || !strings.HasSuffix(v.el, "}") && !strings.Contains(v.el, "[#") {
					v.M = ""
				} else {
					v.M = v.el[:i]
				}
				v.chain = E.callersFrom(f, st, v.M, 0, map[*ssa.Function]bool{})
				out = append(out, v)
			}
		}
	}
	cov["generator_call_sites"] = len(out)
	cov["functions_summarised"] = E.nFn
	if len(out) == 0 {
		rep.undecide("no call of a generator was found")
	}
	return out
}

func isGenSig(s *types.Signature) bool {
	return s.Params().Len() == 3 && namedOf(s.Params().At(0).Type()) == "ast.File" && namedOf(s.Params().At(1).Type()) == "token.FileSet" && namedOf(s.Params().At(2).Type()) == "build.Param"
}

// stateAt is what is known before the instruction.
func (E *FactEngine) stateAt(f *ssa.Function, in ssa.Instruction) *FState {
	var st *FState
	E.at = func(fn *ssa.Function, i ssa.Instruction, s *FState) {
		if i == in {
			st = s.clone()
		}
	}
	E.run(f)
	E.at = nil
	return st
}

// callersFrom walks up while the files are a parameter's: what holds at every
// caller holds too. Of several callers the facts common to all count.
func (E *FactEngine) callersFrom(f *ssa.Function, st *FState, M string, d int, busy map[*ssa.Function]bool) []vstep {
	steps := []vstep{{st, M}}
	if d > 4 || busy[f] || !strings.HasPrefix(M, "$") {
		return steps
	}
	busy[f] = true
	defer delete(busy, f)
	var up []vstep
	n := 0
	for _, g := range E.F.Fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				calls := false
				for _, h := range E.F.callees(ci) {
					calls = calls || h == f
				}
				if !calls {
					continue
				}
				s2 := E.stateAt(g, in)
				if s2 == nil {
					continue
				}
				n++
				var args []string
				for _, a := range ci.Common().Args {
					args = append(args, E.path(a, s2))
				}
				x := E.callersFrom(g, s2, E.subst(M, args, "", s2), d+1, busy)
				if n == 1 {
					up = x
				} else {
					// keep what both have: compare under the name of M
					up = []vstep{{meetF(renamed(up), renamed(x)), "M"}}
				}
			}
		}
	}
	return append(steps, up...)
}

// renamed collects the facts of a chain with the files called "M".
func renamed(steps []vstep) *FState {
	o := newFState()
	for _, st := range steps {
		if st.M == "" {
			continue
		}
		o.addAll(st.s.mapPaths(func(p string) string { return strings.ReplaceAll(p, st.M+"{*}", "M{*}") }).mapPaths(func(p string) string { return strings.ReplaceAll(p, st.M+"{", "M{") }))
	}
	return o
}

// enumKind is the value of ast.Enum.
var enumKind = int64(-1)

// refFacts: an identifier of a type names something that exists.
func refFacts(s *FState) {
	for f := range s.facts {
		ps := strings.Split(f, "|")
		switch {
		case ps[0] == "has" && ps[1] == "@build._types" && strings.HasSuffix(ps[2], ".Name"):
			x := strings.TrimSuffix(ps[2], ".Name")
			s.facts["ref:type|"+x] = true
			s.facts["ref:key|"+x] = true
			if _, ok := s.from[x+".Obj"]; !ok {
				s.from[x+".Obj"] = "builtin"
			}
			// a data with the name of a built-in type: excluded by the reserved words
			for p, t := range s.typ {
				if t == "DataType" && strings.Contains(p, ".Scope.Objects{"+ps[2]+"}.Decl.(TypeSpec).Type") {
					s.facts["ref:data|"+x] = true
					s.facts["ref:result|"+x] = true
				}
			}
		case ps[0] == "eq" && ps[2] == "'void'" && strings.HasSuffix(ps[1], ".Name"):
			x := strings.TrimSuffix(ps[1], ".Name")
			s.facts["ref:result|"+x] = true
			s.facts["ref:plain|"+strings.TrimSuffix(x, ".TypeExpr.(Ident)")] = true
			if _, ok := s.from[x+".Obj"]; !ok {
				s.from[x+".Obj"] = "void"
			}
		case ps[0] == "false" && strings.HasSuffix(ps[1], ".Empty"):
			s.facts["ref:plain|"+strings.TrimSuffix(ps[1], ".Empty")] = true
		case ps[0] == "nonnil" && strings.HasSuffix(ps[1], ".Obj"):
			o := ps[1]
			x := strings.TrimSuffix(o, ".Obj")
			t := ""
			if s.typ[o+".Decl"] == "TypeSpec" {
				t = s.typ[o+".Decl.(TypeSpec).Type"]
			}
			enum := s.facts[fmt.Sprint("eq|"+o+".Kind|", enumKind)]
			if t != "" && interTypes(t, "DataType,EnumType") == t {
				s.facts["ref:type|"+x] = true
			}
			if t == "EnumType" || t != "" && interTypes(t, "DataType,EnumType") == t && enum {
				s.facts["ref:key|"+x] = true
			}
			if t == "DataType" {
				s.facts["ref:data|"+x] = true
				s.facts["ref:result|"+x] = true
			}
		}
	}
}

// known collects everything known at the call with the files called M.
func (v *validState) known() *FState { return renamed(v.chain) }

func (v *validState) where() string {
	return fnName(v.fn) + " (" + v.E.P.instrPos(v.call) + ")"
}

type vreq struct {
	key, what string
	test      func(s *FState) bool
}

func checkReqs(P *Program, rep *Report, cov Coverage, reqs []vreq) []*validState {
	vs := validFacts(P, rep, cov)
	n := 0
	for _, v := range vs {
		if v.M == "" {
			rep.add("files|"+fkey(v.fn), "the file handed to the generator at "+v.where()+" is not an element of the checked package ("+v.el+")")
			continue
		}
		s := v.known()
		for _, r := range reqs {
			n++
			if !r.test(s) {
				rep.add(r.key, r.what+": not established on every path to the call of the generator in "+v.where())
			}
		}
	}
	cov["obligations"] = n
	return vs
}

func has(fact string) func(*FState) bool { return func(s *FState) bool { return s.holds(fact) } }

const specT = "M{*}.Specs[*].(TypeSpec).Type."

func runDup(P *Program, rep *Report, cov Coverage, tier string) {
	var reqs []vreq
	kinds := []string{"DataType", "EnumType", "ServerType"}
	for i, a := range kinds {
		for _, b := range kinds[i:] {
			x, y := specT+"("+a+").Name.Name", specT+"("+b+").Name.Name"
			reqs = append(reqs, vreq{"type names|" + a + "|" + b, "no two types of a file have the same name (" + a + ", " + b + ")",
				func(s *FState) bool { return s.holds("distinct|"+x+"|"+y) && s.holds("distinct|"+y+"|"+x) }})
		}
		k := "M{M{*}.Imports[*].Path.Value}.Scope.Objects{" + specT + "(" + a + ").Name.Name}"
		reqs = append(reqs, vreq{"imported names|" + a, "no " + a + " has the name of a type of an imported file", func(s *FState) bool { return s.vacuousDeep(k) }})
	}
	dist := func(key, what, p string) {
		p = specT + p
		reqs = append(reqs, vreq{key, what, has("distinct|" + p + "|" + p)})
	}
	dist("field names", "no two fields of a data have the same name", "(DataType).Fields.List[*].Name.Name")
	dist("field numbers", "no two fields of a data have the same number", "(DataType).Fields.List[*].Id.Value")
	dist("item names", "no two items of an enum have the same name", "(EnumType).Items[*].Name.Name")
	dist("item values", "no two items of an enum have the same value", "(EnumType).Items[*].Id.Value")
	dist("method names", "no two methods of a server have the same name", "(ServerType).Methods[*].Name.Name")
	dist("data extends", "no data extends the same data twice", "(DataType).Extends[*].Name.Name")
	dist("server extends", "no server extends the same server twice", "(ServerType).Extends[*].Name.Name")
	for _, o := range []string{"(DataType)", "(EnumType)", "(ServerType)", "(DataType).Fields.List[*]", "(EnumType).Items[*]", "(ServerType).Methods[*]"} {
		dist("tags|"+o, "no two tags of one declaration have the same name ("+o+")", o+".Tags[*].Name.Name")
		dist("tag keys|"+o, "no key is repeated in a tag ("+o+")", o+".Tags[*].KV[*].Name.Name")
	}
	for _, o := range []string{"(DataType)", "(EnumType)", "(ServerType)", "(DataType).Fields.List[*]", "(EnumType).Items[*]", "(ServerType).Methods[*]", "(DataType).Extends[*]", "(ServerType).Extends[*]"} {
		reqs = append(reqs, vreq{"reserved|" + o, "no name is a reserved word (" + o + ")", has("notin|@build._keys|" + specT + o + ".Name.Name")})
	}
	reqs = append(reqs, vreq{"reserved|ParamName", "no parameter name is a reserved word", has("notin|@build._keys|" + specT + "(ServerType).Methods[*].ParamName.Name")})
	checkReqs(P, rep, cov, reqs)
	keysTable(P, rep, cov)
}

// keysTable: the reserved words are a fixed table that contains the built-in types.
func keysTable(P *Program, rep *Report, cov Coverage) {
	want := strings.Fields("int8 int16 int32 int64 uint8 uint16 uint32 uint64 bool float double decimal string date enum data server import package")
	keys := tableKeys(P, rep, "_keys")
	for _, w := range want {
		if keys != nil && !keys[w] {
			rep.add("reserved word|"+w, "the reserved word "+w+" is not in build._keys")
		}
	}
	cov["reserved_words"] = len(keys)
}

// tableKeys reads the constant keys of a map made in the package's initialiser,
// and reports every other write to it.
func tableKeys(P *Program, rep *Report, name string) map[string]bool {
	var g *ssa.Global
	for _, p := range P.SSA {
		if p.Pkg.Name() == "build" {
			g, _ = p.Members[name].(*ssa.Global)
		}
	}
	if g == nil {
		rep.undecide("the table build." + name + " was not found")
		return nil
	}
	keys := map[string]bool{}
	var mk ssa.Value
	for _, f := range allFuncs(P) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						if f.Name() != "init" || mk != nil {
							rep.add("table|"+name+"|"+fkey(f), "build."+name+" is replaced in "+fnName(f)+" ("+P.instrPos(in)+")")
						} else {
							mk = x.Val
						}
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						rep.add("table|"+name+"|"+fkey(f), "build."+name+" is changed in "+fnName(f)+" ("+P.instrPos(in)+")")
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if u, ok := x.Call.Args[0].(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							rep.add("table|"+name+"|"+fkey(f), "build."+name+" is changed in "+fnName(f)+" ("+P.instrPos(in)+")")
						}
					}
				}
			}
		}
	}
	if mk == nil {
		rep.undecide("the table build." + name + " has no initial value")
		return nil
	}
	for _, r := range *mk.Referrers() {
		if u, ok := r.(*ssa.MapUpdate); ok {
			if c, ok := u.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				keys[constant.StringVal(c.Value)] = true
				continue
			}
			rep.undecide("a key of build." + name + " is not a constant")
		}
	}
	return keys
}

func allFuncs(P *Program) []*ssa.Function {
	out := append([]*ssa.Function{}, P.Funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, p := range P.SSA {
		if f := p.Func("init"); f != nil && !seen[f] {
			out = append(out, f)
		}
	}
	return out
}

func runRefs(P *Program, rep *Report, cov Coverage, tier string) {
	var reqs []vreq
	ref := func(key, what, kind, x string, notypes bool) {
		x = specT + x
		reqs = append(reqs, vreq{key, what, has("ref:" + kind + "|" + x)})
		own := "M{*}.Scope.Objects{" + x + ".Name}"
		imp := "M{M{*}.Imports[*].Path.Value}.Scope.Objects{" + x + ".Name}"
		reqs = append(reqs, vreq{key + "|found", what + ", found under its own name in the file or a file it imports", func(s *FState) bool {
			fr, ok := s.from[x+".Obj"]
			if !ok {
				return s.vacuousDeep(x + ".Obj")
			}
			for _, o := range strings.Split(fr, ",") {
				if o != own && o != imp && o != "builtin" && o != "void" {
					return false
				}
			}
			return true
		}})
	}
	for _, k := range []string{"DataType", "ServerType"} {
		x := specT + "(" + k + ").Extends[*].Name"
		k := k
		reqs = append(reqs, vreq{"extends|" + k, "everything a " + k + " extends is bound to a declared " + k, func(s *FState) bool {
			o := x + ".Obj"
			return s.holds("allset|"+o) && s.holds("all:TypeSpec|"+o+".Decl") && s.holds("all:"+k+"|"+o+".Decl.(TypeSpec).Type")
		}})
		ref0 := "M{*}.Scope.Objects{" + x + ".Name}"
		imp := "M{M{*}.Imports[*].Path.Value}.Scope.Objects{" + x + ".Name}"
		reqs = append(reqs, vreq{"extends|" + k + "|found", "what a " + k + " extends is found under its own name in the file or a file it imports", func(s *FState) bool {
			fr, ok := s.from[x+".Obj"]
			if !ok {
				return false
			}
			for _, o := range strings.Split(fr, ",") {
				if o != ref0 && o != imp {
					return false
				}
			}
			return true
		}})
	}
	f := "(DataType).Fields.List[*].Type."
	ref("field type", "the type of every field is a built-in type or bound to a data or enum", "type", f+"(VarType).TypeExpr.(Ident)", false)
	ref("element type", "the element type of every array is a built-in type or bound to a data or enum", "type", f+"(ArrayType).VType.TypeExpr.(Ident)", false)
	ref("map value type", "the value type of every map is a built-in type or bound to a data or enum", "type", f+"(MapType).VType.TypeExpr.(Ident)", false)
	ref("map key type", "the key type of every map is a built-in type or bound to an enum", "key", f+"(MapType).Key.(VarType).TypeExpr.(Ident)", false)
	reqs = append(reqs, vreq{"map key nullable", "no map key is nullable", has("false|" + specT + f + "(MapType).Key.(VarType).Empty")})
	for _, m := range []string{"Param", "Result"} {
		reqs = append(reqs, vreq{"nullable|" + m, "the type of a method's " + strings.ToLower(m) + " is not nullable (or void)", func(s *FState) bool {
			x := specT + "(ServerType).Methods[*]." + m
			return s.holds("false|"+x+".Empty") || m == "Result" && s.holds("ref:plain|"+x)
		}})
	}
	ref("parameter type", "the parameter of every method is bound to a data", "data", "(ServerType).Methods[*].Param.TypeExpr.(Ident)", false)
	ref("result type", "the result of every method is void or bound to a data", "result", "(ServerType).Methods[*].Result.TypeExpr.(Ident)", false)
	checkReqs(P, rep, cov, reqs)
	tk, kk := tableKeys(P, rep, "_types"), tableKeys(P, rep, "_keys")
	for t := range tk {
		if kk != nil && !kk[t] {
			rep.add("built-in not reserved|"+t, "the built-in type "+t+" is not a reserved word: a declaration could take its name")
		}
	}
	for _, w := range strings.Fields("int8 int16 int32 int64 uint8 uint16 uint32 uint64 bool float double decimal string date") {
		if tk != nil && !tk[w] {
			rep.add("built-in|"+w, "the built-in type "+w+" is not in build._types")
		}
		delete(tk, w)
	}
	for t := range tk {
		rep.add("built-in unknown|"+t, "build._types accepts "+t+", which no generator knows")
	}
	objectKinds(P, rep, cov)
}

func runValidated(P *Program, rep *Report, cov Coverage, tier string) {
	var reqs []vreq
	for _, k := range []string{"DataType", "EnumType", "ServerType"} {
		p := specT + "(" + k + ")"
		reqs = append(reqs, vreq{"checked|" + k, "every " + k + " of every file has passed the checks", func(s *FState) bool {
			for f := range s.facts {
				if strings.HasPrefix(f, "notin|") && strings.HasSuffix(f, "|"+p+".Name.Name") {
					return true
				}
			}
			return false
		}})
	}
	vs := checkReqs(P, rep, cov, reqs)
	if len(vs) == 0 {
		return
	}
	F := vs[0].F
	calls := map[ssa.CallInstruction]bool{}
	gens := map[*ssa.Function]bool{}
	for _, v := range vs {
		calls[v.call] = true
		for _, h := range F.callees(v.call) {
			gens[h] = true
		}
		// the package handed over is the one checked
		if len(v.call.Common().Args) == 3 && v.M != "" && len(v.chain) > 0 {
			a := v.E.path(v.call.Common().Args[2], v.chain[0].s)
			a = strings.TrimPrefix(a, "&")
			want := strings.TrimSuffix(v.M, ".Files")
			ok := false
			for f := range v.chain[0].s.facts {
				if f == "set|"+a+".pkg|"+want {
					ok = true
				}
			}
			if !ok {
				rep.add("package|"+fkey(v.fn), "the package handed to the generator at "+v.where()+" is not shown to be the one whose files were checked ("+want+")")
			}
		}
	}
	// before the checks: nothing is created, no generator runs
	seen := map[*ssa.Function]bool{}
	var trail []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		trail = append(trail, fnName(f))
		if gens[f] && isGenSig(f.Signature) {
			rep.add("direct generator call|"+fkey(f), "the generator "+fnName(f)+" can be reached without the checks ("+strings.Join(trail, " -> ")+")")
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calls[ci] {
					continue
				}
				if n := callName(ci.Common()); fileWrite(n, ci.Common()) {
					rep.add("written before the checks|"+fkey(f)+"|"+n, n+" is called in "+fnName(f)+" ("+P.instrPos(in)+"), which runs before or without the checks")
				}
				for _, h := range F.callees(ci) {
					walk(h)
				}
			}
		}
		trail = trail[:len(trail)-1]
	}
	walk(F.Main)
	cov["functions_before_generation"] = len(seen)
	// the generators leave the tree as it is
	done := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for g := range gens {
		work = append(work, g)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if done[f] {
			continue
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if what := treeWrite(in); what != "" {
					rep.add("tree changed|"+fkey(f)+"|"+what, "the generators change the checked tree: "+what+" in "+fnName(f)+" ("+P.instrPos(in)+")")
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					work = append(work, F.callees(ci)...)
				}
			}
		}
	}
	cov["generator_functions"] = len(done)
	cov["generators"] = len(gens)
}

// fileWrite: the call creates or changes something in the file system.
func fileWrite(n string, cc *ssa.CallCommon) bool {
	switch n {
	case "os.Create", "os.CreateTemp", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.WriteFile", "io/ioutil.WriteFile", "ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Link", "os.Symlink", "os.Chmod", "os.Chown", "os.Chdir", "os/exec.Command":
		return true
	case "os.OpenFile":
		k, ok := constInt(cc.Args[1])
		return !ok || k != 0
	}
	return false
}

// treeWrite: the instruction stores to a node of the syntax tree that it has not made itself.
func treeWrite(in ssa.Instruction) string {
	astType := func(t types.Type) bool { return strings.HasPrefix(namedOf(t), "ast.") }
	switch x := in.(type) {
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if _, local := rootOf(a).(*ssa.Alloc); !local && astType(a.X.Type()) {
				return "store to " + namedOf(a.X.Type()) + "." + structOf(a.X.Type()).Field(a.Field).Name()
			}
		case *ssa.IndexAddr:
			if fromTree(a.X) {
				return "store to an element of a list of the tree"
			}
		}
	case *ssa.MapUpdate:
		if fromTree(x.Map) {
			return "store to a map of the tree"
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") && fromTree(x.Call.Args[0]) {
			return bi.Name() + " on the tree"
		}
		n := callName(&x.Call)
		if (strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse") && len(x.Call.Args) > 0 && fromTree(stripIface(x.Call.Args[0])) {
			return n + " on a list of the tree"
		}
	}
	return ""
}

// fromTree: a list or map read from a field of a node.
func fromTree(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return fromTree(x.X)
	case *ssa.ChangeType:
		return fromTree(x.X)
	case *ssa.Slice:
		return fromTree(x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return strings.HasPrefix(namedOf(fa.X.Type()), "ast.")
		}
	}
	return false
}

// kinds: an object's kind is that of the declaration it is made for.
func objectKinds(P *Program, rep *Report, cov Coverage) {
	want := map[string]int64{}
	for _, p := range P.SSA {
		if p.Pkg.Name() != "ast" {
			continue
		}
		for typ, k := range map[string]string{"DataType": "Data", "EnumType": "Enum", "ServerType": "Server"} {
			if c, ok := p.Pkg.Scope().Lookup(k).(*types.Const); ok {
				want[typ], _ = constant.Int64Val(c.Val())
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Call{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if g := ci.Call.StaticCallee(); g != nil {
						callers[g] = append(callers[g], ci)
					}
				}
			}
		}
	}
	unwrap := func(v ssa.Value) ssa.Value {
		for {
			v = stripIface(v)
			mi, ok := v.(*ssa.MakeInterface)
			if !ok {
				return v
			}
			v = mi.X
		}
	}
	paramIdx := func(f *ssa.Function, v ssa.Value) int {
		for i, p := range f.Params {
			if ssa.Value(p) == v {
				return i
			}
		}
		return -1
	}
	returned := func(f *ssa.Function, v ssa.Value) bool {
		n := 0
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(r.Results) != 1 || unwrap(r.Results[0]) != v {
					return false
				}
			}
		}
		return n > 0
	}
	// the concrete types a value stored as the type of a declaration has
	var concrete func(f *ssa.Function, v ssa.Value, depth int, out map[string]bool)
	concrete = func(f *ssa.Function, v ssa.Value, depth int, out map[string]bool) {
		v = unwrap(v)
		if _, isIf := v.Type().Underlying().(*types.Interface); !isIf {
			out[tname(v.Type())] = true
			return
		}
		if i := paramIdx(f, v); i >= 0 && depth < 6 && len(callers[f]) > 0 {
			for _, c := range callers[f] {
				concrete(c.Parent(), c.Call.Args[i], depth+1, out)
			}
			return
		}
		out["?"] = true
	}
	stored := func(f *ssa.Function, spec ssa.Value, depth int, out map[string]bool) {
		var look func(f *ssa.Function, spec ssa.Value, depth int)
		look = func(f *ssa.Function, spec ssa.Value, depth int) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						fa, ok := in.Addr.(*ssa.FieldAddr)
						if ok && unwrap(fa.X) == spec && namedOf(fa.X.Type()) == "ast.TypeSpec" && structOf(fa.X.Type()).Field(fa.Field).Name() == "Type" {
							concrete(f, in.Val, 0, out)
						}
					case *ssa.Call:
						g := in.Call.StaticCallee()
						if g == nil || depth >= 6 {
							continue
						}
						for i, a := range in.Call.Args {
							if unwrap(a) == spec && i < len(g.Params) && namedOf(g.Params[i].Type()) == "ast.TypeSpec" {
								look(g, g.Params[i], depth+1)
							}
						}
					}
				}
			}
			if c, ok := spec.(*ssa.Call); ok && depth < 6 {
				if g := c.Call.StaticCallee(); g != nil {
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							look(g, unwrap(r.Results[0]), depth+1)
						}
					}
				}
			}
		}
		look(f, spec, depth)
	}
	n := 0
	var decl func(f *ssa.Function, spec ssa.Value, kind ssa.Value, at ssa.Instruction, depth int)
	decl = func(f *ssa.Function, spec, kind ssa.Value, at ssa.Instruction, depth int) {
		k, isC := constInt(kind)
		ts := map[string]bool{}
		stored(f, spec, 0, ts)
		if isC && len(ts) > 0 {
			n++
			for t := range ts {
				if w, ok := want[t]; !ok || w != k {
					rep.add("kind|"+fkey(f)+"|"+t, "the object declared in "+fnName(f)+" ("+P.instrPos(at)+") has not the kind of a "+t)
				}
			}
			return
		}
		// one or the other comes from, or is left to, the callers
		ki, si := paramIdx(f, kind), paramIdx(f, spec)
		up := (isC || ki >= 0) && (len(ts) > 0 || si >= 0 || returned(f, spec))
		if !up || len(callers[f]) == 0 || depth > 6 {
			if !isC {
				rep.undecide("kind of the object declared in " + fnName(f) + " is not a constant")
			} else {
				rep.add("kind|"+fkey(f)+"|none", "the declaration made known in "+fnName(f)+" ("+P.instrPos(at)+") is given no type")
			}
			return
		}
		for _, c := range callers[f] {
			nk, ns := kind, ssa.Value(c)
			if ki >= 0 {
				nk = c.Call.Args[ki]
			}
			if si >= 0 {
				ns = unwrap(c.Call.Args[si])
			}
			decl(c.Parent(), ns, nk, c, depth+1)
		}
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var spec, kind ssa.Value
				iface := false
				for _, a := range ci.Call.Args {
					if namedOf(a.Type()) == "ast.ObjKind" {
						kind = a
					}
					if x := unwrap(a); namedOf(x.Type()) == "ast.TypeSpec" {
						spec = x
						_, iface = a.Type().Underlying().(*types.Interface)
					}
				}
				// the spec is handed on as any declaration: here it is made known
				if kind != nil && spec != nil && iface {
					decl(f, spec, kind, in, 0)
				}
			}
		}
	}
	if n == 0 {
		rep.undecide("no declaration of a type was found in the parser")
	}
	cov["declarations_checked"] = n
}

func dumpFacts(E *FactEngine, P *Program) {
	n := os.Getenv("HBUF_FACTS")
	if n == "" {
		return
	}
	for _, f := range P.Funcs {
		if strings.HasSuffix(fnName(f), n) {
			E.at = func(fn *ssa.Function, in ssa.Instruction, st *FState) {
				if fn == f && in == in.Block().Instrs[0] {
					fmt.Println("-- block", in.Block().Index, in.Block().Comment)
					dumpState(st)
				}
			}
			E.run(f)
			for w := range E.writes(f, map[*ssa.Function]bool{}) {
				fmt.Println("WRITES", w)
			}
			E.at = nil
			for o, s := range E.summary(f) {
				fmt.Println("==", n, o)
				dumpState(s)
			}
		}
	}
}

func dumpState(s *FState) {
	var l []string
	for k := range s.facts {
		l = append(l, k)
	}
	for k := range s.vac {
		l = append(l, "VAC "+k)
	}
	for k, v := range s.typ {
		l = append(l, "TYP "+k+" = "+v)
	}
	for k, v := range s.from {
		l = append(l, "FROM "+k+" = "+v)
	}
	sort.Strings(l)
	for _, x := range l {
		fmt.Println(x)
	}
}
