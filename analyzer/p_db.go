package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// dbCase is what is known of a data with a db tag.
type dbCase struct {
	Shape Shape
	Fake  bool // rows are marked as deleted
	Cache bool // the data has a cache tag
	View  bool // the data is a view of the table of another data
}

func dbScenario(d dbCase) Scenario {
	return Scenario{Win: true, WinLen: 4000, Widen: true, Member: func(elem *V) bool {
		l := listOf(elem)
		if l == nil {
			return false
		}
		if l.Op == "call" && strings.HasPrefix(l.S, "(*regexp.Regexp).FindAll") {
			return true // placeholders of a condition
		}
		return l.Op == "field" && l.S == "Where" && namedOf(l.Args[0].T) == "build.DB"
	}, Spec: "DataType", OnSpec: func(k scen, decl *V) {
		k.nonempty(k.f(k.f(decl, "Fields"), "List"))
		k.nonempty(k.e.T.mk("members", "EnumField", types.NewSlice(k.ptr("ast", "Field")), 0, decl))
	}, OnElem: func(k scen, elem *V) {
		f := elem
		switch namedOf(elem.T) {
		case "build.DBField":
			f = k.f(elem, "Field")
		case "ast.Field":
		default:
			return
		}
		k.plain(f)
		k.shape(k.f(f, "Type"), d.Shape)
	}, Prim: map[string]primFn{
		"build.GetTag": func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
			n, _ := args[1].constStr()
			if n == "cache" && d.Cache {
				t := e.T.mk("tag", n, cc.Signature().Results().At(0).Type(), 0, args[0])
				scen{e, s}.nonnil(t)
				return []Result{{st: s, ret: []*V{t, e.T.boolean(true)}}}, true
			}
			return []Result{{st: s, ret: []*V{e.T.nilv(), e.T.boolean(false)}}}, true
		},
		"build.GetDB": func(e *Engine, s *State, cc *ssa.CallCommon, args []*V, c *Ctx, in ssa.Instruction) ([]Result, bool) {
			st := cc.Signature().Results().At(0).Type()
			l := e.T.mk("dbs", "", st, 0, args[1])
			k := scen{e, s}
			db := e.T.mk("index", "", st.Underlying().(*types.Slice).Elem(), 0, l, e.T.integer(0))
			if args[1].Op == "field" && namedOf(args[1].Args[0].T) == "ast.DataType" {
				k.nonempty(l)
				k.boolean(k.f(db, "Fake"), d.Fake)
				data := args[1].Args[0]
				if spec := specOf(data); d.View && spec {
					k.nonempty(k.f(db, "Table"))
				} else {
					if d.View {
						k.eq(k.f(k.f(data, "Name"), "Name"), e.T.str("table"))
					} else {
						k.eq(k.f(db, "Table"), e.T.str(""))
					}
					k.eq(k.f(db, "Name"), e.T.str("own_table"))
					k.eq(k.f(db, "Schema"), e.T.str(d.schema()))
				}
			}
			return []Result{{st: s, ret: []*V{l}}}, true
		},
	}}
}

// specOf: v is the declaration being generated, not one that is looked up.
func specOf(v *V) bool {
	for v != nil {
		if v.Op == "call" || v.S == "Decl" || v.S == "Obj" {
			return false
		}
		if len(v.Args) == 0 {
			return true
		}
		v = v.Args[0]
	}
	return true
}

// dbRun is what is generated for one kind of database data.
type dbRun struct {
	regRun
	dbCase
	Label string
	loops map[string][]string // texts of one way through a loop, by loop symbol
	trips map[string][]Trip   // by place and call
	fns   map[string]map[string]bool
}

// schema: the table is in a schema of its own in some of the cases.
func (d dbCase) schema() string {
	if d.View {
		return "own_schema"
	}
	return ""
}

func (d dbCase) label() string {
	var p []string
	if d.View {
		p = append(p, "view")
	} else {
		p = append(p, "table")
	}
	if d.Fake {
		p = append(p, "rows marked as deleted")
	}
	if d.Cache {
		p = append(p, "cached")
	}
	return strings.Join(p, ", ") + ", fields " + d.Shape.String()
}

var (
	loopSymRx  = regexp.MustCompile(`‹(loop [^›]*)›`)
	dbFuncRx   = regexp.MustCompile(`^func \(g \S+\) (Db\w+)\(ctx context\.Context[^{]*\{\n`)
	joinTextRx = regexp.MustCompile(`"\)\.T\("`)
)

// dbRuns generates every kind of database data.
func dbRuns(P *Program, rep *Report, cov Coverage, cases []dbCase) []*dbRun {
	var back Backend
	found := false
	for _, b := range P.backends() {
		if b.Name == "go" {
			back, found = b, true
		}
	}
	if !found {
		rep.add("anchor|backend|go", "no generator is registered under the name go")
		return nil
	}
	runs := make([]*dbRun, len(cases))
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for i := range cases {
		wg.Add(1)
		sem <- 1
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			defer rep.guard()
			r := &dbRun{dbCase: cases[i], Label: cases[i].label(), regRun: runScenario(P, back, dbScenario(cases[i]))}
			r.index()
			runs[i] = r
		}(i)
	}
	wg.Wait()
	fns := map[*ssa.Function]bool{}
	for _, r := range runs {
		addInt(cov, "block_visits", r.steps)
		addInt(cov, "text_emissions_interpreted", r.emits)
		addInt(cov, "ways_through_member_loops", len(r.regRun.trips))
		for _, m := range r.fns {
			addInt(cov, "generated_functions_compared", len(m))
		}
		for f := range r.regRun.fns {
			fns[f] = true
		}
		for _, u := range r.undecided {
			rep.undecide("go " + r.Label + ": " + u)
		}
	}
	cov["functions_interpreted"] = len(fns)
	cov["kinds_of_data"] = len(cases)
	return runs
}

func (r *dbRun) index() {
	r.loops = map[string][]string{}
	r.trips = map[string][]Trip{}
	seen := map[string]bool{}
	for _, t := range r.regRun.trips {
		place := fmt.Sprintf("loop %s#%d", t.At, t.Ctx)
		r.trips[place] = append(r.trips[place], t)
		for id, x := range t.Text {
			k := place + "#" + id
			x = joinTextRx.ReplaceAllString(normText(x), "")
			if !seen[k+"\x00"+x] {
				seen[k+"\x00"+x] = true
				r.loops[k] = append(r.loops[k], x)
			}
		}
	}
	r.fns = map[string]map[string]bool{}
	for _, w := range r.wins {
		m := dbFuncRx.FindStringSubmatch(w)
		if m == nil {
			continue
		}
		i := strings.Index(w, "\n}\n")
		if i < 0 {
			continue
		}
		if r.fns[m[1]] == nil {
			r.fns[m[1]] = map[string]bool{}
		}
		r.fns[m[1]][joinTextRx.ReplaceAllString(w[:i+3], "")] = true
	}
}

// syms are the loop symbols of a text.
func syms(t string) []string {
	var o []string
	for _, m := range loopSymRx.FindAllStringSubmatch(t, -1) {
		o = append(o, m[1])
	}
	return o
}

// dbPlaceholder is what one placeholder of a condition or assignment becomes.
var dbPlaceholder = regexp.MustCompile(`^(\.T\("◊"\))?(\.T\(\*?g\.Ⓝ\)|\.V\(&g\.Ⓝ(\[[^\]]*\])?\)|\.V\(db\.NewJson\(&g\.Ⓝ\)(\[[^\]]*\])?\)|\.L\(",", utl\.ToAnyList\(g\.Ⓝ\)\.\.\.\))?$`)

// param replaces the placeholder loops of a text by Ⓥ; false if one is odd.
func (r *dbRun) param(t string) (string, string) {
	bad := ""
	out := loopSymRx.ReplaceAllStringFunc(t, func(x string) string {
		fs := r.loops[x[len("‹"):len(x)-len("›")]]
		all := len(fs) > 0
		for _, f := range fs {
			if f != "" && !dbPlaceholder.MatchString(f) {
				all = false
			}
		}
		if all {
			return "Ⓥ"
		}
		return x
	})
	return out, bad
}

// tables names the tables a function asks for.
var dbTableRx = regexp.MustCompile(`\n tableName := ([^\n]*)\n`)

// facts about the generated functions of a data.
func (r *dbRun) each(names []string, f func(name, text string)) {
	for _, n := range names {
		for _, t := range sortedKeys(r.fns[n]) {
			f(n, t)
		}
	}
}

var (
	dbReaders  = []string{"DbGet", "DbList", "DbMap", "DbCount"}
	dbMutators = []string{"DbDel", "DbRemove", "DbInsert", "DbInsertList", "DbUpdate", "DbSet"}
)

// dbMissing reports functions that are not generated.
func (r *dbRun) missing(rep *Report, names []string) {
	for _, n := range names {
		if len(r.fns[n]) == 0 {
			rep.add("missing|"+n, fmt.Sprintf("go: no %s is found in what is generated for %s", n, r.Label))
		}
	}
}

func init() {
	register("P14", "Abstract interpretation of the Go generator for data with a database tag, for every combination of soft deletion on or off, table or view, cached or not and several field types: every text a database function may be generated as is enumerated, and the statement it builds must begin as required (reads skip rows marked as deleted exactly if the table marks rows; DbDel marks or deletes accordingly; DbRemove deletes), be added to only by conditions, and be the one executed.", runSoftDelete)
	register("P15", "Abstract interpretation of the Go generator for data with and without a cache tag: every text a database function may be generated as is enumerated; cached reads must look the finished statement up before querying, return what is found and store what was read after the error check under the same key; cached writes must drop the table's entries, with their error returned, before the statement is built; without the tag nothing mentions the cache.", runCacheUse)
	register("P16", "Abstract interpretation of the Go generator for data with a database tag: every text a database function may be generated as, and every way through the loops that write its column lists, assignments and conditions, is enumerated; statements must name the data's own table, pair each column with the field of the same iteration, and carry the key condition (own tables) or every declared condition (views).", runDbStatements)
}

var dbShapes = []Shape{{Base: "int64"}, {Base: "int64", Null: true}, {Base: "int64", Cont: "array", Null: true}}

func dbCases(shapes []Shape, caches ...bool) []dbCase {
	var out []dbCase
	for _, s := range shapes {
		for _, fake := range []bool{true, false} {
			for _, view := range []bool{false, true} {
				for _, c := range caches {
					out = append(out, dbCase{Shape: s, Fake: fake, View: view, Cache: c})
				}
			}
		}
	}
	return out
}

// dbFind matches rx once in a text.
func dbFind(t string, rx *regexp.Regexp) map[string]string {
	m := rx.FindStringSubmatch(t)
	if m == nil {
		return nil
	}
	o := map[string]string{}
	for i, n := range rx.SubexpNames() {
		if n != "" {
			o[n] = m[i]
		}
	}
	return o
}

func dbShow(t string) string {
	if i := strings.Index(t, "\n s := "); i >= 0 {
		t = t[i+1:]
		t = strings.TrimPrefix(t, " s := db.NewSql()\n")
	}
	return short(loopSymRx.ReplaceAllString(t, "…"), 200)
}

var (
	dbSqlRx    = regexp.MustCompile(`(?s)^func [^\n]*\n(?P<pre>.*?) s := db\.NewSql\(\)\n(?P<body>.*)$`)
	dbSelectRx = regexp.MustCompile(`(?s)^ s\.T\("SELECT (?P<item>[^"]*) FROM "\)\.T\(tableName\)\.T\(" WHERE (?P<cond>[^"]*?) ?"\)\n(?P<rest>.*)$`)
	dbDeleteRx = regexp.MustCompile(`(?s)^ s\.T\("(?P<verb>UPDATE|DELETE FROM) "\)\.T\(tableName\)\.T\(" (?P<cond>[^"]*?) ?"\)\n(?P<rest>.*)$`)
	dbPageRx   = regexp.MustCompile(` s\.T\(" LIMIT (?:1|‹build\.DB\.Limit›|‹build\.DB\.Offset›, ‹build\.DB\.Limit›)"\)(?:\.P\(g\.Ⓝ(?:, g\.Ⓝ)?\))?\n`)
	dbAddRx    = regexp.MustCompile(`^(?:‹loop [^›]*›)*$`)
)

// split: what a function does before it starts its statement, and from there on.
func dbSplit(t string) (pre, body string, ok bool) {
	m := dbFind(t, dbSqlRx)
	if m == nil || strings.Contains(m["body"], "NewSql") {
		return "", "", false
	}
	return m["pre"], m["body"], true
}

func runSoftDelete(P *Program, rep *Report, cov Coverage, tier string) {
	shapes := dbShapes[:2]
	if tier == "thorough" {
		shapes = dbShapes
	}
	for _, r := range dbRuns(P, rep, cov, dbCases(shapes, false, true)) {
		r.missing(rep, append([]string{"DbDel", "DbRemove"}, dbReaders...))
		live := "1 = 1"
		if r.Fake {
			live = "delete_time IS NULL"
		}
		kind := "kept"
		if r.Fake {
			kind = "marked"
		}
		say := func(rule, n, text, why string) {
			rep.add(rule+"|"+n+"|"+kind, fmt.Sprintf("go %s (%s): %s: %q", n, r.Label, why, dbShow(text)))
		}
		r.each(dbReaders, func(n, t string) {
			_, body, ok := dbSplit(t)
			m := dbFind(body, dbSelectRx)
			if !ok || m == nil {
				say("read", n, t, "it is not one SELECT of the table")
				return
			}
			if m["cond"] != live {
				say("read", n, t, "it must select WHERE "+live)
			}
			addInt(cov, "statements_checked", 1)
			i := strings.Index(m["rest"], " var ")
			if j := strings.Index(m["rest"], " ret := "); i < 0 || j >= 0 && j < i {
				i = j
			}
			if i < 0 || !dbAddRx.MatchString(dbPageRx.ReplaceAllString(m["rest"][:i], "")) {
				say("read", n, t, "something other than conditions, order and page is added to the statement")
				return
			}
			rest := m["rest"][i:]
			if strings.Count(rest, " s.Query(ctx, ") != 1 || strings.Contains(rest, " s.T(") || strings.Contains(rest, " s =") || len(syms(rest[:strings.Index(rest, " s.Query(ctx, ")])) > 0 {
				say("read", n, t, "the statement is not run as it was built")
			}
		})
		r.each([]string{"DbDel", "DbRemove"}, func(n, t string) {
			_, body, ok := dbSplit(t)
			m := dbFind(body, dbDeleteRx)
			if !ok || m == nil {
				say("delete", n, t, "it is not one statement on the table")
				return
			}
			addInt(cov, "statements_checked", 1)
			want, verb := "WHERE 1 = 1", "DELETE FROM"
			if n == "DbDel" && r.Fake {
				want, verb = "SET delete_time = NOW() WHERE 1 = 1", "UPDATE"
			}
			if m["verb"] != verb || m["cond"] != want {
				say("delete", n, t, "it must "+verb+" the table "+want)
			}
			rest := dbPageRx.ReplaceAllString(m["rest"], "")
			if !strings.HasSuffix(rest, " return s.Exec(ctx)\n}\n") || !dbAddRx.MatchString(strings.TrimSuffix(rest, " return s.Exec(ctx)\n}\n")) {
				say("delete", n, t, "something other than conditions is added, or the statement is not run")
			}
		})
	}
}

var (
	dbErrRx   = `if err != nil \{\n return (?:nil|0|0, 0), err\n \}\n`
	dbDropRx  = regexp.MustCompile(`(?s)^(?: if nil == val \|\| 0 == len\(val\) \{\n return 0, 0, nil\n \}\n)? ?err := cache\.DbDel\(ctx, tableName\)\n ` + dbErrRx + ` defer cache\.DbUnlock\(ctx, tableName\)\n$`)
	dbCacheRx = regexp.MustCompile(`(?s)^(?P<build>.*?)(?: var (?P<v1>\w+) [^\n]*| (?P<v2>\w+) := make[^\n]*)\n (?P<c>\w+), key, _ := cache\.DbGet\(ctx, "", tableName, s, &(?P<v3>\w+)\)\n if (?P<c2>\w+) != nil \{\n return \*(?P<c3>\w+), nil\n \}\n _, err := s\.Query\(ctx, func\(rows \*sql\.Rows\) \(bool, error\) \{\n(?P<row>.*?)\n \}\)\n ` + dbErrRx + ` _, _ = cache\.DbSet\(ctx, key, tableName, s, &(?P<v4>\w+), (?P<dur>[^\n]*)\)\n defer cache\.DbUnlock\(ctx, tableName\)\n return (?P<v5>\w+), nil\n\}\n$`)
	dbPlainRx = regexp.MustCompile(`(?s)^(?P<build>.*?)(?: var (?P<v1>\w+) [^\n]*| (?P<v2>\w+) := make[^\n]*)\n _, err := s\.Query\(ctx, func\(rows \*sql\.Rows\) \(bool, error\) \{\n(?P<row>.*?)\n \}\)\n ` + dbErrRx + ` return (?P<v5>\w+), nil\n\}\n$`)
	dbDurRx   = regexp.MustCompile(`^time\.Duration\(rand\.Intn\((?P<a>‹[^›]*(?:‹[^›]*›[^›]*)*›|\d+) ?- ?(?P<b>‹[^›]*(?:‹[^›]*›[^›]*)*›|\d+)\) ?\+ ?(?P<c>‹[^›]*(?:‹[^›]*›[^›]*)*›|\d+)\) ?\* ?time\.Second$`)
	dbNumRx   = regexp.MustCompile(`[(|](\d+)`)
)

func runCacheUse(P *Program, rep *Report, cov Coverage, tier string) {
	shapes := dbShapes[:1]
	if tier == "thorough" {
		shapes = dbShapes
	}
	for _, r := range dbRuns(P, rep, cov, dbCases(shapes, true, false)) {
		r.missing(rep, append(append([]string{}, dbMutators...), dbReaders...))
		say := func(rule, n, text, why string) {
			rep.add(rule+"|"+n, fmt.Sprintf("go %s (%s): %s: %q", n, r.Label, why, short(loopSymRx.ReplaceAllString(text, "…"), 400)))
		}
		if !r.Cache {
			r.each(append(append([]string{}, dbMutators...), dbReaders...), func(n, t string) {
				addInt(cov, "functions_without_cache_checked", 1)
				if strings.Contains(t, "cache.") {
					say("uncached", n, t, "it uses the cache of a data without a cache tag")
				}
			})
			continue
		}
		r.each(dbMutators, func(n, t string) {
			addInt(cov, "cached_writes_checked", 1)
			pre, body, ok := dbSplit(t)
			if i := strings.Index(pre, "\n"); ok && i > 0 {
				pre = pre[i+1:]
			}
			if !ok || !dbDropRx.MatchString(pre) || strings.Contains(body, "cache.") {
				say("write", n, t, "the cached entries of the table must be dropped first, and the write fail if they cannot be")
			}
		})
		long := map[string]bool{}
		r.each(dbReaders, func(n, t string) {
			addInt(cov, "cached_reads_checked", 1)
			pre, body, ok := dbSplit(t)
			m := dbFind(body, dbCacheRx)
			if !ok || m == nil || strings.Contains(pre, "cache.") {
				say("read", n, t, "it must look the statement up, return what is found, else query and store the result")
				return
			}
			v := m["v1"] + m["v2"]
			if m["c"] != m["c2"] || m["c"] != m["c3"] || m["c"] == v {
				say("read", n, t, "what is looked up is not what is tested and returned")
			}
			if v != m["v3"] || v != m["v4"] || v != m["v5"] {
				say("read", n, t, "what is stored is not what is returned")
			}
			if !dbUses(m["row"], v) {
				say("read", n, t, "the rows are not read into what is stored")
			}
			if strings.Contains(m["row"], "cache.") {
				say("read", n, t, "the cache is used while rows are read")
			}
			if m["dur"] == "0" {
				return
			}
			long[n] = true
			d := dbFind(m["dur"], dbDurRx)
			if d == nil || d["b"] != d["c"] || !dbLess(d["b"], d["a"]) {
				say("validity", n, m["dur"], "the validity must lie between min and max of the cache tag")
			}
		})
		for _, n := range dbReaders {
			if !long[n] && len(r.fns[n]) > 0 {
				say("validity", n, "", "entries never expire")
			}
		}
	}
}

// dbUses: the row function assigns the result.
func dbUses(row, v string) bool {
	for _, p := range []string{" " + v + " = ", " " + v + "[", "&" + v + ")", "&" + v + "."} {
		if strings.Contains(" "+row, p) {
			return true
		}
	}
	return false
}

// dbLess: the numbers a may be by default are less than those of b.
func dbLess(a, b string) bool {
	max, min := -1, -1
	for _, m := range dbNumRx.FindAllStringSubmatch("("+strings.Trim(a, "‹›"), -1) {
		if n, err := strconv.Atoi(m[1]); err == nil && n > 1 && n > max {
			max = n
		}
	}
	for _, m := range dbNumRx.FindAllStringSubmatch("("+strings.Trim(b, "‹›"), -1) {
		if n, err := strconv.Atoi(m[1]); err == nil && n > 1 && (min < 0 || n < min) {
			min = n
		}
	}
	return max >= 0 && min >= 0 && max < min
}

var (
	dbTableName = ` tableName := db\.GET\(ctx\)\.Table\("(?P<table>[^"]*)"\)\n`
	dbLoops     = `(?:‹loop [^›]*›)*`
	dbHeadRx    = regexp.MustCompile(`^func \(g \S+\) Db\w+\(ctx context\.Context(?:, val \[\]\*\S+)?\) \((?P<ret>[^\n]*), error\) \{\n` + dbTableName + `(?P<more>)`)
	dbInsertRx  = regexp.MustCompile(`(?s)^ s\.T\("INSERT INTO "\)\.T\(tableName\)\.T\(" SET "\)\.Del\(","\)\n(?P<set>` + dbLoops + `) return s\.Exec\(ctx\)\n\}\n$`)
	dbUpdateRx  = regexp.MustCompile(`(?s)^ s\.T\("UPDATE "\)\.T\(tableName\)\.T\(" SET "\)\.Del\(","\)\n(?P<set>` + dbLoops + `) s\.T\("WHERE 1 = 1 "\)\n(?P<where>` + dbLoops + `)\n? return s\.Exec\(ctx\)\n\}\n$`)
	dbListRx    = regexp.MustCompile(`(?s)^ s\.T\("INSERT INTO "\)\.T\(tableName\)\.T\(" \((?P<cols>` + dbLoops + `)\) VALUES"\)\n for i, val := range val \{\n if (?:0 != i|i != 0|i > 0|0 < i) \{\n s\.T\(","\)\n \}\n s\.T\("\("\)\.L\(",", (?P<vals>` + dbLoops + `)\)\.T\("\)"\)\n \}\n return s\.Exec\(ctx\)\n\}\n$`)
	dbScanRx    = regexp.MustCompile(`rows\.Scan\((?P<scan>[^()\n]*)\)`)
	dbColRx     = regexp.MustCompile(`^(?P<sep>, ?)?(?P<col>‹build\.DB\.Name›|‹strings\.ReplaceAll\(build\.DB\.Get,"\?",build\.DB\.Name\)›)$`)
	dbValRx     = regexp.MustCompile(`^(?P<sep>, ?)?(?:&val\.Ⓝ|db\.NewJson\(&val\.Ⓝ\))$`)
	dbSetRx     = regexp.MustCompile(`^(?P<guard> if nil != g\.Ⓝ \{\n)? s\.T\(",(?P<text>[^"]*)"\)(?P<val>Ⓥ)?(?:\.T\("◊"\))?\n(?P<end> \}\n)?$`)
	dbCondRx    = regexp.MustCompile(`^(?P<guard> if [^\n]* \{\n)? s(?:\.T\("(?P<text>[^"]*)"\)|(?P<val>Ⓥ)(?:\.T\("◊"\))?)?\n(?P<end> \}\n)?$`)
	dbGroupRx   = regexp.MustCompile(`^(?P<guard> if nil != g\.Ⓝ \{\n?)? s\.T\("(?: GROUP BY |, )(?P<text>[^"]*)"\)(?P<val>Ⓥ)?(?:\.T\("◊"\))?\n(?P<end> \}\n)?$`)
	dbOrderRx   = regexp.MustCompile(`^ if (?P<guard>[^\n]*) \{\n s\.T\(" ORDER BY (?P<text>[^"]*)"\)(?P<val>Ⓥ)?(?:\.T\("◊"\))?\n \}\n$`)
)

func runDbStatements(P *Program, rep *Report, cov Coverage, tier string) {
	shapes := dbShapes
	var cases []dbCase
	for _, s := range shapes {
		for _, view := range []bool{false, true} {
			cases = append(cases, dbCase{Shape: s, View: view, Fake: true})
			if tier == "thorough" {
				cases = append(cases, dbCase{Shape: s, View: view}, dbCase{Shape: s, View: view, Cache: true, Fake: true})
			}
		}
	}
	for _, r := range dbRuns(P, rep, cov, cases) {
		r.missing(rep, append(append([]string{}, dbMutators...), dbReaders...))
		r.statements(rep, cov)
	}
}

func (r *dbRun) statements(rep *Report, cov Coverage) {
	kind := "table"
	if r.View {
		kind = "view"
	}
	done := map[string]bool{} // loops by role
	n := 0
	say := func(rule, fn, text, why string) {
		rep.add(rule+"|"+fn+"|"+kind, fmt.Sprintf("go %s (%s): %s: %q", fn, r.Label, why, dbShow(text)))
	}
	// role checks every way through the loops of one place.
	role := func(rule, fn, list string, check func(sym string, forms []string) string) {
		for _, s := range syms(list) {
			k := rule + "|" + fn + "|" + s
			if done[k] {
				continue
			}
			done[k] = true
			fs := r.loops[s]
			if len(fs) == 0 {
				say(rule, fn, "", "nothing is known of the loop at "+s)
				continue
			}
			n += len(fs)
			if why := r.whole(s); why != "" {
				say(rule, fn, "", why)
			}
			if rule == "condition" && (fn == "DbCount" || fn == "DbList" || fn == "DbMap") {
				for _, t := range r.trips[s[:strings.LastIndex(s, "#")]] {
					if t.Of != "" && t.Of != "spec" {
						say(rule, fn, "", "the conditions are not those of the data's own fields ("+t.At+")")
					}
				}
			}
			if why := check(s, fs); why != "" {
				say(rule, fn, "", why+" (loop at "+strings.TrimPrefix(strings.SplitN(s, "#", 2)[0], "loop ")+")")
			}
		}
	}
	has := map[string]bool{} // what is generated at least once
	conds := func(fn, list string) {
		own := !r.View && (fn == "DbDel" || fn == "DbRemove" || fn == "DbUpdate" || fn == "DbSet" || fn == "DbGet")
		role("condition", fn, list, func(s string, fs []string) string {
			return r.condLoop(fn, s, fs, own, has, say)
		})
	}
	for _, fn := range append(append([]string{}, dbReaders...), dbMutators...) {
		for _, t := range sortedKeys(r.fns[fn]) {
			head := dbFind(t, dbHeadRx)
			if want := strings.TrimPrefix(r.schema()+".own_table", "."); head == nil || head["table"] != want {
				say("table", fn, t, "the statement must be on the data's own table")
				continue
			}
			_, body, ok := dbSplit(t)
			if !ok {
				say("form", fn, t, "it must build one statement")
				continue
			}
			switch fn {
			case "DbInsert":
				m := dbFind(body, dbInsertRx)
				if m == nil {
					say("form", fn, t, "it must INSERT INTO the table SET the columns")
					continue
				}
				role("set", fn, m["set"], func(s string, fs []string) string { return r.setLoop(fn, fs, false, has) })
			case "DbUpdate", "DbSet":
				m := dbFind(body, dbUpdateRx)
				if m == nil {
					say("form", fn, t, "it must UPDATE the table SET the columns WHERE the conditions hold")
					continue
				}
				role("set", fn, m["set"], func(s string, fs []string) string { return r.setLoop(fn, fs, fn == "DbUpdate", has) })
				conds(fn, m["where"])
				if !r.View && m["where"] == "" {
					say("condition", fn, t, "it is not restricted by the key")
				}
			case "DbInsertList":
				m := dbFind(body, dbListRx)
				if m == nil {
					say("form", fn, t, "it must INSERT INTO the table the columns VALUES those of each element")
					continue
				}
				r.columns(fn, m["cols"], m["vals"], true, has, say, done)
			case "DbDel", "DbRemove":
				m := dbFind(body, dbDeleteRx)
				if m == nil {
					say("form", fn, t, "it must be one statement on the table")
					continue
				}
				rest := strings.TrimSuffix(dbPageRx.ReplaceAllString(m["rest"], ""), " return s.Exec(ctx)\n}\n")
				if !dbAddRx.MatchString(rest) {
					say("form", fn, t, "something other than conditions is added")
					continue
				}
				conds(fn, rest)
				if !r.View && rest == "" {
					say("condition", fn, t, "it is not restricted by the key")
				}
			default:
				m, c := map[string]string(nil), ""
				if r.Cache {
					m = dbFind(body, dbCacheRx)
				} else {
					m = dbFind(body, dbPlainRx)
				}
				if m == nil {
					say("form", fn, t, "it must query the statement and return the rows")
					continue
				}
				sel := dbFind(m["build"], dbSelectRx)
				if sel == nil {
					say("form", fn, t, "it must SELECT from the table")
					continue
				}
				c = dbPageRx.ReplaceAllString(sel["rest"], "")
				if !dbAddRx.MatchString(c) {
					say("form", fn, t, "something other than conditions is added")
					continue
				}
				conds(fn, c)
				if fn == "DbGet" && !r.View && c == "" {
					say("condition", fn, t, "it is not restricted by the key")
				}
				sc := dbFind(m["row"], dbScanRx)
				if sc == nil {
					say("row", fn, t, "the row is not scanned")
					continue
				}
				if fn == "DbCount" {
					if sel["item"] != "COUNT(1)" && sel["item"] != "COUNT(*)" || sc["scan"] != "&"+m["v1"] {
						say("row", fn, t, "it must count the rows")
					}
					continue
				}
				r.columns(fn, sel["item"], sc["scan"], false, has, say, done)
				if why := dbRow(fn, head["ret"], m["v1"]+m["v2"], m["row"]); why != "" {
					say("row", fn, m["row"], why)
				}
			}
		}
	}
	addInt(cov, "ways_through_loops_matched", n)
	for _, fn := range append(append([]string{}, dbReaders...), dbMutators...) {
		var want []string
		switch fn {
		case "DbInsert":
			want = []string{"set", "bound"}
		case "DbInsertList":
			want = []string{"columns"}
		case "DbUpdate", "DbSet":
			want = []string{"set", "bound", "where"}
		case "DbDel", "DbRemove":
			want = []string{"where"}
		case "DbGet":
			want = []string{"columns", "where"}
		case "DbList", "DbMap":
			want = []string{"columns", "where", "group", "order", "page"}
		case "DbCount":
			want = []string{"where", "group"}
		}
		for _, w := range want {
			if len(r.fns[fn]) == 0 {
				continue
			}
			if w == "page" {
				for t := range r.fns[fn] {
					if strings.Contains(t, " s.T(\" LIMIT ‹build.DB.Offset›, ‹build.DB.Limit›\").P(g.Ⓝ, g.Ⓝ)") {
						has[w+fn] = true
					}
				}
			}
			if !has[w+fn] {
				say(w, fn, "", "no way of generating it writes its "+map[string]string{"bound": "values", "set": "assignments", "where": "conditions", "columns": "columns", "group": "grouping", "order": "order", "page": "page"}[w])
			}
		}
	}
}

// dbRow: each row becomes one value of the result.
func dbRow(fn, ret, v, row string) string {
	scan := `rows\.Scan\([^()\n]*\)`
	one := regexp.QuoteMeta(strings.TrimPrefix(strings.TrimPrefix(ret, "*"), "[]"))
	q := regexp.QuoteMeta(v)
	var rx string
	switch fn {
	case "DbGet":
		rx = ` ` + q + ` = &` + one + `\{\}\n return false, ` + scan
	case "DbList":
		rx = ` var (\w+) ` + one + `\n err := ` + scan + `\n if err == nil \{\n ` + q + ` = append\(` + q + `, \w+\)\n \}\n return true, err`
	case "DbMap":
		i := strings.LastIndex(ret, "]")
		rx = ` var (\w+) ` + regexp.QuoteMeta(ret[i+1:]) + `\n err := ` + scan + `\n if err == nil \{\n ` + q + `\[\w+\.Get‹[^›]*›\(\)\] = \w+\n \}\n return true, err`
	}
	if !regexp.MustCompile(`^` + rx + `$`).MatchString(row) {
		return "each row must become one value of the result"
	}
	return ""
}

// whole says why the loop of a symbol may stop before the last element.
func (r *dbRun) whole(sym string) string {
	for _, t := range r.trips[sym[:strings.LastIndex(sym, "#")]] {
		if t.In == nil {
			continue
		}
		if why := exhaustiveLoop(loopsOf(t.In.Parent()), t.In); why != "" {
			return why + " (" + t.At + ")"
		}
	}
	return ""
}

// setLoop: every way through the loop assigns the field's column its own value
// (or what its set tag says), or leaves it out.
func (r *dbRun) setLoop(fn string, fs []string, skipNull bool, has map[string]bool) string {
	guarded := false
	for _, f := range fs {
		if f == "" {
			continue // fields of a view that assigns only what has a set tag
		}
		f, _ = r.param(f)
		if strings.HasPrefix(f, " s.T(\",\")Ⓥ") || strings.Contains(f, "\n s.T(\",\")Ⓥ") {
			has["bound"+fn] = true
		}
		m := dbFind(f, dbSetRx)
		if m == nil || (m["guard"] == "") != (m["end"] == "") {
			return fmt.Sprintf("not an assignment: %q", short(f, 160))
		}
		switch m["text"] {
		case "‹build.DB.Name› = ?", "‹build.DB.Name› = ‹build.DB.Set›":
			has["set"+fn] = true
		case "", "◊":
		default:
			return fmt.Sprintf("not the column of the field with its value: %q", short(f, 160))
		}
		if m["guard"] != "" {
			if !skipNull || !r.Shape.Null {
				return "a value is left out depending on whether it is null"
			}
			guarded = true
		}
	}
	if skipNull && r.Shape.Null && !guarded {
		return "null values are written over existing ones"
	}
	return ""
}

// columns: the lists are written by the same loop, a column and the variable of
// the same field each time.
func (r *dbRun) columns(fn, cols, vals string, all bool, has map[string]bool, say func(rule, fn, text, why string), done map[string]bool) {
	a, b := syms(cols), syms(vals)
	if loopSymRx.ReplaceAllString(cols, "") != "" || loopSymRx.ReplaceAllString(vals, "") != "" || len(a) > 1 || len(b) > 1 {
		say("columns", fn, "", fmt.Sprintf("columns %q for values %q", short(cols, 80), short(vals, 80)))
		return
	}
	if len(a) == 0 || len(b) == 0 {
		return
	}
	k := "columns|" + fn + "|" + a[0] + "|" + b[0]
	if done[k] {
		return
	}
	done[k] = true
	cut := func(s string) (string, string) { i := strings.LastIndex(s, "#"); return s[:i], s[i+1:] }
	pa, ia := cut(a[0])
	pb, ib := cut(b[0])
	has["columns"+fn] = true
	for _, l := range []string{a[0], b[0]} {
		if why := r.whole(l); why != "" {
			say("columns", fn, "", why)
		}
	}
	if pa != pb {
		// two loops: each must write every field
		ta, tb := r.trips[pa], r.trips[pb]
		if len(ta) == 0 || len(tb) == 0 || ta[0].List != tb[0].List {
			say("columns", fn, "", "columns and values are written from different lists")
			return
		}
		for _, t := range ta {
			if !dbColRx.MatchString(normText(t.Text[ia])) {
				say("columns", fn, "", fmt.Sprintf("a field gets %q for a column", short(normText(t.Text[ia]), 100)))
			}
		}
		for _, t := range tb {
			if !dbValRx.MatchString(normText(t.Text[ib])) {
				say("columns", fn, "", fmt.Sprintf("a field gets %q for a value", short(normText(t.Text[ib]), 100)))
			}
		}
		return
	}
	plain := false
	for _, t := range r.trips[pa] {
		x, y := normText(t.Text[ia]), normText(t.Text[ib])
		if x == "" && y == "" && !all {
			continue
		}
		m, v := dbFind(x, dbColRx), dbFind(y, dbValRx)
		if m == nil || v == nil || m["sep"] != v["sep"] {
			say("columns", fn, "", fmt.Sprintf("a field gets the column %q and the variable %q", short(x, 100), short(y, 100)))
			return
		}
		if m["col"] == "‹build.DB.Name›" {
			plain = true
		}
	}
	if !plain {
		say("columns", fn, "", "no field is selected by its column")
	}
}

// condLoop: every way through the loop adds a condition.
func (r *dbRun) condLoop(fn, s string, fs []string, own bool, has map[string]bool, say func(rule, fn, text, why string)) string {
	for _, f := range fs {
		if strings.Contains(f, " GROUP BY ") {
			return r.groupLoop(fn, fs, has)
		}
		if strings.Contains(f, " ORDER BY ") {
			return r.orderLoop(fn, fs, has)
		}
	}
	lit := false
	for _, f := range fs {
		forms := []string{f}
		if ss := syms(f); len(ss) == 1 && f == "‹"+ss[0]+"›" && len(r.loops[ss[0]]) > 0 && !r.isParam(ss[0]) {
			// one condition after the other
			forms = r.loops[ss[0]]
			if why := r.whole(ss[0]); why != "" {
				return why
			}
			if own {
				return "it is restricted by something other than the key"
			}
		}
		for _, g := range forms {
			g, _ = r.param(g)
			if g == "" && !own {
				continue
			}
			m := dbFind(g, dbCondRx)
			if m == nil || (m["guard"] == "") != (m["end"] == "") {
				return fmt.Sprintf("not a condition: %q", short(g, 160))
			}
			switch m["text"] {
			case "‹elem(build.DB.Where)›":
				if own {
					return "it is restricted by something other than the key"
				}
				lit = true
			case "AND ‹build.DB.Name› = ?":
				if !own {
					return "a condition nobody asked for"
				}
				lit = true
			case "", "◊":
			default:
				return fmt.Sprintf("not a condition of the field: %q", short(g, 160))
			}
			if own && m["guard"] != "" {
				if r.Shape.Null {
					say("nullable key", fn, "", "without a key the statement is not restricted: a nullable key only restricts it when it is set")
				} else {
					return "the key condition is left out at times"
				}
			}
			if !own {
				if (m["guard"] != "") != r.Shape.Null {
					return "an optional condition must depend on its value being there, others must not: " + strings.TrimSpace(strings.SplitN(g, "\n", 2)[0])
				}
				if m["guard"] != "" && !strings.Contains(m["guard"], "nil != g.Ⓝ") && !strings.Contains(m["guard"], "0 < len(g.Ⓝ)") {
					return "an optional condition must depend on its value being there"
				}
			}
		}
	}
	if !lit {
		return "no condition is written as it is declared"
	}
	has["where"+fn] = true
	return ""
}

func (r *dbRun) isParam(s string) bool {
	for _, f := range r.loops[s] {
		if f != "" && !dbPlaceholder.MatchString(f) {
			return false
		}
	}
	return true
}

func (r *dbRun) groupLoop(fn string, fs []string, has map[string]bool) string {
	for _, f := range fs {
		f, _ = r.param(f)
		if f == "" {
			continue
		}
		m := dbFind(f, dbGroupRx)
		if m == nil || (m["guard"] == "") != (m["end"] == "") || m["text"] != "" && m["text"] != "◊" && m["text"] != "‹build.DB.Group›" || (m["guard"] != "") != r.Shape.Null {
			return fmt.Sprintf("not a grouping: %q", short(f, 160))
		}
		if m["text"] == "‹build.DB.Group›" {
			has["group"+fn] = true
		}
	}
	return ""
}

func (r *dbRun) orderLoop(fn string, fs []string, has map[string]bool) string {
	for _, f := range fs {
		f, _ = r.param(f)
		if f == "" {
			continue
		}
		m := dbFind(f, dbOrderRx)
		if m == nil || m["text"] != "" && m["text"] != "◊" && m["text"] != "‹build.DB.Order›" {
			return fmt.Sprintf("not an order: %q", short(f, 160))
		}
		p, pre := "", ""
		if r.Shape.Null {
			p, pre = "*", "nil != g.Ⓝ && ("
		}
		want := pre + `"ASC" == ` + p + `g.Ⓝ || "DESC" == ` + p + `g.Ⓝ`
		if pre != "" {
			want += ")"
		}
		if m["guard"] != want {
			return "the order of the rows is taken from a value that is neither ASC nor DESC: " + m["guard"]
		}
		if m["text"] == "‹build.DB.Order›" {
			has["order"+fn] = true
		}
	}
	return ""
}
