package main

import (
	"go/types"

	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dumpCmd(P *Program, what string, args []string) {
	switch what {
	case "funcs":
		for _, f := range P.Funcs {
			fmt.Println(calleeName(f))
		}
	case "regions": // backend shape...
		var sc Scenario
		switch args[1] {
		case "enum":
			sc = enumScenario(len(args) > 2)
		case "db":
			sc = dbScenario(dbCase{Shape: parseShape(args[3]), Fake: len(args) > 2 && strings.Contains(args[2], "fake"), Cache: len(args) > 2 && strings.Contains(args[2], "cache"), View: len(args) > 2 && strings.Contains(args[2], "view")})
		case "verify":
			sc = verifyScenario(verifyCase{Shape: parseShape(args[3]), Null: strings.Contains(args[2], "null"), Min: strings.Contains(args[2], "min"), Max: strings.Contains(args[2], "max"), Reg: strings.Contains(args[2], "reg")})
		case "server":
			sc = methodScenario(len(args) > 2 && args[2] == "void", len(args) > 3)
		default:
			sc = fieldShape(parseShape(args[1]))
			if len(args) > 2 && args[2] == "doc" {
				sc = fieldShapeDoc(parseShape(args[1]))
			}
		}
		var rs regRun
		for _, b := range P.backends() {
			if b.Name == args[0] {
				rs = runScenario(P, b, sc)
			}
		}
		for _, g := range rs.regs {
			fmt.Printf("== %s (in %s) sink=%s %s %s\n   lead: …%q\n   %q\n", g.Kind, g.Outer, short(g.Sink, 60), g.Func, g.At, lastN(normText(g.Lead), 60), normText(g.Text))
		}
		seenAt := map[string]int{}
		for _, t := range rs.trips {
			seenAt[t.Kind+" "+t.Func+" "+t.At+" "+t.List]++
		}
		fmt.Println(seenAt)
		if args[1] == "verify" {
			for _, t := range rs.trips {
				fmt.Printf("TRIP %+v\n", t)
			}
		}
		if args[1] == "db" {
			for _, w := range rs.wins {
				fmt.Printf("WIN %s\n", w)
			}
		}
		for _, d := range rs.decls {
			fmt.Println("DECL", d)
		}
		fmt.Println(rs.undecided, rs.steps)
	}
}

func lastN(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func short(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func parseShape(t string) Shape {
	var s Shape
	if strings.HasSuffix(t, "?") {
		s.Null = true
		t = t[:len(t)-1]
	}
	if i := strings.Index(t, "<"); i > 0 {
		s.Cont = "map"
		s.Key = strings.TrimSuffix(t[i+1:], ">")
		t = t[:i]
	} else if strings.HasSuffix(t, "[]") {
		s.Cont = "array"
		t = t[:len(t)-2]
	}
	if s.Cont != "" {
		if strings.HasSuffix(t, "?") {
			s.VNul = true
			t = t[:len(t)-1]
		}
	}
	s.Base = t
	return s
}

type regRun struct {
	regs      []Region
	trips     []Trip
	decls     []string
	undecided []string
	steps     int
	emits     int
	fns       map[*ssa.Function]bool
	wins      []string
}

// Scenario fixes what is known about the declaration a generator is given.
type Scenario struct {
	Spec   string // ast type of the declaration: DataType, EnumType, ServerType
	OnSpec func(k scen, decl *V)
	OnElem func(k scen, elem *V)
	Win    bool // keep the text outside member loops

	Prim   map[string]primFn
	WinLen int
	Widen  bool
	Member func(elem *V) bool
	NoTag  bool // the tags present are none the generator asks for
}

func runScenario(P *Program, b Backend, sc Scenario) regRun {
	cl := newRegClient(P)
	e := newEngine(P, cl)
	e.Max = 400000
	e.maxRec = 6
	if sc.NoTag {
		e.prim["build.GetTag"] = func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
			return []Result{{st: s, ret: []*V{e.T.nilv(), e.T.boolean(false)}}}, true
		}
	}
	for n, p := range sc.Prim {
		e.prim[n] = p
	}
	if sc.Widen {
		cl.render = func(v *V) string { return renderAlts(e, v, 0) }
	}
	cl.widen, cl.member = sc.Widen, sc.Member
	cl.marks = map[*V]map[string]bool{}
	if sc.Win {
		cl.wins = map[string]bool{}
		cl.maxTop = 1000
		cl.winLen = 700
		if sc.WinLen > 0 {
			cl.winLen, cl.maxTop = sc.WinLen, sc.WinLen+300
		}
	}
	cl.onSpec = func(k scen, spec *V) {
		ts := k.is(spec, k.ptr("ast", "TypeSpec"))
		d := k.is(k.f(ts, "Type"), k.ptr("ast", sc.Spec))
		if sc.OnSpec != nil {
			sc.OnSpec(k, d)
		}
	}
	cl.onElem = func(e *Engine, st *State, elem *V) {
		if sc.OnElem != nil {
			sc.OnElem(scen{e, st}, elem)
		}
	}
	st := &State{prop: cl.Init(), mem: newMem()}
	e.exec(b.Fn, e.paramVals(b.Fn), nil, st, nil, nil)
	var decls []string
	for k := range cl.decls {
		decls = append(decls, k)
	}
	sort.Strings(decls)
	for w := range cl.tails {
		bs, ok := blocks(e, w, "func (", 200000)
		if !ok {
			e.undecided("too many forms of a function are generated")
		}
		for _, b := range bs {
			cl.wins[normText(b)] = true
		}
	}
	return regRun{regs: cl.regions(), trips: cl.tripList(), decls: decls, undecided: e.Undecided, steps: e.Steps, emits: e.Emits, fns: e.Inlined, wins: sortedSet(cl.wins)}
}

// fullDataSpec: no tags or documentation, and at least one field.
func fullDataSpec(k scen, decl *V) {
	k.plain(decl)
	k.nonempty(k.f(k.f(decl, "Fields"), "List"))
	k.nonempty(k.e.T.mk("members", "EnumField", types.NewSlice(k.ptr("ast", "Field")), 0, decl))
}

func plainSpec(k scen, decl *V) { k.plain(decl) }

// fieldShape is the scenario "every field has this shape and no tags".
func fieldShape(s Shape) Scenario {
	return Scenario{Spec: "DataType", OnSpec: fullDataSpec, OnElem: func(k scen, elem *V) {
		f := elem
		switch namedOf(elem.T) {
		case "build.DBField":
			f = k.f(elem, "Field")
		case "ast.Field":
		default:
			return
		}
		k.plain(f)
		k.shape(k.f(f, "Type"), s)
	}}
}

// fieldShapeDoc is fieldShape with nothing known about documentation and tags.
func fieldShapeDoc(s Shape) Scenario {
	return Scenario{NoTag: true, Spec: "DataType", OnSpec: func(k scen, decl *V) {
		k.nonempty(k.f(k.f(decl, "Fields"), "List"))
		k.nonempty(k.e.T.mk("members", "EnumField", types.NewSlice(k.ptr("ast", "Field")), 0, decl))
		k.empty(k.f(decl, "Tags"))
	}, OnElem: func(k scen, elem *V) {
		if namedOf(elem.T) == "ast.Field" {
			k.shape(k.f(elem, "Type"), s)
		}
	}}
}
