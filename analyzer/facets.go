package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Facets: the member-wise parts of the code a back end generates for a data
// declaration, each recognised by the text written per field.  Names in the
// normalised text: Ⓝ/ⓝ/ⓚ the field's name in upper camel, lower camel and
// underscore form, Ⓣ the name of a declared type the field refers to, Ⓓ the
// declaration's own name.

type facet struct {
	Back string
	Name string
	Decl string // "own" (fields of the declaration) or "all" (inherited ones too)
	Lead *regexp.Regexp
	Text *regexp.Regexp
	Nest string
}

func fc(back, name, decl, lead, text string) facet {
	f := facet{Back: back, Name: name, Decl: decl, Text: regexp.MustCompile(`(?s)^` + text + `$`)}
	if lead != "" {
		f.Lead = regexp.MustCompile(`(?s)` + lead + `$`)
	}
	return f
}

const (
	tyGo = "(?P<type>[^ `{}()]+)"
	tyDt = `(?P<type>[^ {}()]+(?: [^ {}()]+)*)`
)

var fieldFacets = []facet{
	fc("go", "struct field", "own", "", " Ⓝ ?"+tyGo+" ?`json:\"(?P<key>[^\",]+)(?P<omit>,omitempty)?\"` ?//[^\n]*\n"),
	fc("go", "getter and setter", "own", "", `func \(g \*Ⓓ\) GetⓃ\(\) (?P<gtype>\S+) \{\n(?: if nil == g\.Ⓝ \{\n return (?P<dflt>[^\n]+)\n \}\n return (?P<deref>\*)g\.Ⓝ\n| return g\.Ⓝ\n)\}\n\nfunc \(g \*Ⓓ\) SetⓃ\(val (?P<stype>\S+)\) \{\n g\.Ⓝ = (?P<addr>&?)val\n\}\n\n`),

	fc("dart", "interface accessors", "own", "", `(?: @override\n)? `+tyDt+` get ⓝ;\n\n(?: @override\n)? set ⓝ\((?P<stype>[^\n]+) value\);\n\n`),
	fc("dart", "factory parameter", "all", `factory Ⓓ\(`, `(?:\{\n)? (?P<req>required )?`+tyDt+` ⓝ,\n`),
	fc("dart", "factory argument", "all", `\)\{\n return _Ⓓ\(\n`, ` ⓝ: ⓝ,\n`),
	fc("dart", "copyWith declaration", "all", `\n\n Ⓓ copyWith\(`, `(?:\{\n)? (?P<otype>[^\n]+) ⓝ,\n`),
	fc("dart", "entity field", "all", "", ` @override\n `+tyDt+` ⓝ;\n\n`),
	fc("dart", "entity constructor", "all", ` _Ⓓ\(`, `(?:\{\n)? (?P<req>required )?this\.ⓝ,\n`),
	fc("dart", "from JSON", "all", `return _Ⓓ\(\n`, ` ⓝ: null == \(temp = map\["(?P<key>[^"]+)"\]\) \? (?P<dec>[^\n]+),\n`),
	fc("dart", "to JSON", "all", `toMap\(\) \{\n return \{\n`, ` "(?P<key>[^"]+)": ?(?P<enc>[^\n]+),\n`),
	fc("dart", "copyWith parameter", "all", `_Ⓓ copyWith\(`, `(?:\{\n)? (?P<otype>[^\n]+) ⓝ,\n`),
	fc("dart", "copyWith argument", "all", `\) \{\n return _Ⓓ\(\n`, ` ⓝ: ⓝ ?\?\? this\.ⓝ,\n`),
	fc("dart", "equality", "all", `bool operator ==.*runtimeType == other\.runtimeType `, `(?:&& |)\n? ?ⓝ == other\.ⓝ`),
	fc("dart", "hash code", "all", `int get hashCode => 0 ?`, ` \^ ⓝ\.hashCode`),
	fc("dart", "copy", "all", `copy\(\)\{\n return _Ⓓ\(\n`, ` ⓝ: (?P<copy>[^\n]+),\n`),
	fc("dart", "toString", "all", `toString\(\)\{\n return '''`, `(?:\n )?ⓝ: \$ⓝ`),

	fc("ts", "class field", "all", "", ` ⓝ: (?P<type>[^\n=]+?) = (?P<dflt>[^\n]+);\n\n`),
	fc("ts", "from JSON", "all", "", ` ret\.ⓝ = null == \(temp = json\["(?P<key>[^"]+)"\]\) \? (?P<dec>[^\n]+)\n`),
	fc("ts", "to JSON", "all", `return \{\n`, ` "(?P<key>[^"]+)": ?(?P<enc>[^\n]+),\n`),
	fc("ts", "clone", "all", `const ret = new Ⓓ\(\)\n`, ` ret\.ⓝ = (?P<copy>[^\n]+)\n`),

	fc("java", "interface accessors", "own", "", `(?: @(?:o|O)verride\n)? `+tyDt+` getⓃ\(\);\n\n(?: @(?:o|O)verride\n)? void setⓃ\((?P<stype>[^\n]+) value\);\n\n`),
	fc("java", "implementation", "all", "", ` `+tyDt+` ⓝ;\n\n @Override\n public (?P<gtype>[^\n]+) getⓃ\(\)\{\n return this\.ⓝ;\n \}\n\n @Override\n public void setⓃ\((?P<stype>[^\n]+) value\)\{\n this\.ⓝ = value;\n \}\n\n`),
}

var holeNorm = strings.NewReplacer(
	"‹Hump(ast.Field.Name.Name)›", "Ⓝ",
	"‹lower(ast.Field.Name.Name)›", "ⓝ",
	"‹under(ast.Field.Name.Name)›", "ⓚ",
	"‹Hump(ast.DataType.Name.Name)›", "Ⓓ",
	"‹?›‹ast.Field.Type.TypeExpr.Name›", "Ⓣ",
	"‹?›‹ast.Field.Type.VType.TypeExpr.Name›", "Ⓣ",
	"‹?›‹Hump(ast.Field.Type.TypeExpr.Name)›", "Ⓣ",
	"‹?›‹Hump(ast.Field.Type.VType.TypeExpr.Name)›", "Ⓣ",
	"‹ast.Field.Type.TypeExpr.Name›", "Ⓣ",
	"‹ast.Field.Type.VType.TypeExpr.Name›", "Ⓣ",
	"‹Hump(ast.Field.Type.TypeExpr.Name)›", "Ⓣ",
	"‹Hump(ast.Field.Type.VType.TypeExpr.Name)›", "Ⓣ",
	"‹Hump(ast.Field.Type.Key.TypeExpr.Name)›", "Ⓚ",
	"‹ast.Field.Type.Key.TypeExpr.Name›", "Ⓚ",
	"‹Hump(ast.EnumItem.Name.Name)›", "Ⓝ",
	"‹lower(ast.EnumItem.Name.Name)›", "ⓝ",
	"‹under(ast.EnumItem.Name.Name)›", "ⓚ",
	"‹upper(ast.EnumItem.Name.Name)›", "Ⓤ",
	"‹ast.EnumItem.Id.Value›", "Ⓘ",
	"‹Hump(ast.EnumType.Name.Name)›", "Ⓓ",
	"‹lower(ast.EnumType.Name.Name)›", "ⓛ",
	"‹Hump(ast.FuncType.Name.Name)›", "Ⓝ",
	"‹lower(ast.FuncType.Name.Name)›", "ⓝ",
	"‹under(ast.FuncType.Name.Name)›", "ⓚ",
	"‹lower(ast.FuncType.ParamName.Name)›", "ⓟ",
	"‹ast.FuncType.Id.Value›", "Ⓘ",
	"‹Hump(ast.ServerType.Name.Name)›", "Ⓓ",
	"‹under(ast.ServerType.Name.Name)›", "Ⓢ",
	"‹Hump(owner.Name.Name)›", "Ⓞ",
	"‹under(owner.Name.Name)›", "Ⓗ",
	"‹?›‹Hump(ast.FuncType.Param.TypeExpr.Name)›", "Ⓟ",
	"‹Hump(ast.FuncType.Param.TypeExpr.Name)›", "Ⓟ",
	"‹?›‹Hump(ast.FuncType.Result.TypeExpr.Name)›", "Ⓡ",
	"‹Hump(ast.FuncType.Result.TypeExpr.Name)›", "Ⓡ",
)

var tsPrefix = regexp.MustCompile(`‹(?:substr:\([^›]*›[^›]*|[^‹›]*)›\.([ⓉⓅⓇⒹⓀ])`)

var docLine = regexp.MustCompile(` ?//+ ?[^\n‹]*‹\?›`)

var padding = regexp.MustCompile(`‹(?:substr|strings\.Repeat)[:(](?:[^‹›]|‹[^‹›]*›)*›`)

func normText(s string) string {
	s = holeNorm.Replace(s)
	s = docLine.ReplaceAllString(s, "")
	s = tsPrefix.ReplaceAllString(s, "$1")
	return padding.ReplaceAllString(s, "◊")
}

// facetHit is one facet found in one run.
type facetHit struct {
	Facet facet
	Trip  Trip
	Text  string
	G     map[string]string // named groups
}

// groups matches and returns the named groups.
func groups(re *regexp.Regexp, s string) (map[string]string, bool) {
	m := re.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	g := map[string]string{}
	for i, n := range re.SubexpNames() {
		if n != "" {
			g[n] = m[i]
		}
	}
	return g, true
}

type fieldRun struct {
	Back  Backend
	Shape Shape
	Label string // what the members are, if they are no fields
	regRun
}

func (r *fieldRun) what() string {
	if r.Label != "" {
		return r.Label
	}
	return "a field of type " + r.Shape.String()
}

func (f facet) match(t Trip) (map[string]string, string, bool) {
	for id, tx := range t.Text {
		if f.Lead != nil && !f.Lead.MatchString(normText(t.Lead[id])) {
			continue
		}
		n := normText(tx)
		if g, ok := groups(f.Text, n); ok {
			return g, n, true
		}
	}
	return nil, "", false
}

// hits finds the loops that write facet f: every way through the loop body must
// match.  why explains a miss.
func (r *fieldRun) hits(f facet) (hits []facetHit, at map[string]bool, why string) {
	at = map[string]bool{}
	bad := map[string]string{}
	for _, t := range r.trips {
		if g, n, ok := f.match(t); ok {
			at[t.At] = true
			hits = append(hits, facetHit{f, t, n, g})
		}
	}
	for _, t := range r.trips {
		if !at[t.At] {
			continue
		}
		if _, _, ok := f.match(t); !ok {
			got := "nothing"
			for _, x := range t.Text {
				got = fmt.Sprintf("%q", normText(x))
			}
			bad[t.At] = fmt.Sprintf("on some path through the loop in %s (%s) %s gets %s", t.Func, t.At, r.what(), short(got, 160))
		}
	}
	for a, w := range bad {
		delete(at, a)
		why = w
	}
	var keep []facetHit
	for _, h := range hits {
		if at[h.Trip.At] {
			keep = append(keep, h)
		}
	}
	return keep, at, why
}

// closest finds the text that is nearest to what a missing facet should be.
func (r *fieldRun) closest(f facet) string {
	best := ""
	for _, t := range r.trips {
		for id, tx := range t.Text {
			if f.Lead != nil && !f.Lead.MatchString(normText(t.Lead[id])) {
				continue
			}
			if f.Lead == nil && t.Kind != "ast.Field" && t.Kind != "ast.EnumItem" && t.Kind != "ast.FuncType" {
				continue
			}
			if f.Lead != nil || best == "" {
				best = fmt.Sprintf("%s (%s) writes %q", t.Func, t.At, short(normText(tx), 200))
			}
		}
	}
	return best
}

func allShapes(thorough bool) []Shape {
	bases := append(append([]string{}, scalars...), "enum", "data")
	var out []Shape
	for _, b := range bases {
		for _, n := range []bool{false, true} {
			out = append(out, Shape{Base: b, Null: n})
			for _, vn := range []bool{false, true} {
				out = append(out, Shape{Cont: "array", Base: b, Null: n, VNul: vn})
				out = append(out, Shape{Cont: "map", Base: b, Null: n, VNul: vn, Key: "string"})
			}
		}
	}
	for _, b := range []string{"int64", "string", "enum", "data"} {
		out = append(out, Shape{Base: b, Doc: true}, Shape{Base: b, Null: true, Doc: true}, Shape{Cont: "array", Base: b, Doc: true})
	}
	for _, k := range mapKeys {
		if k == "string" {
			continue
		}
		out = append(out, Shape{Cont: "map", Base: "int32", Key: k})
		out = append(out, Shape{Cont: "map", Base: "data", Key: k, Null: true, VNul: true})
		if thorough {
			for _, b := range bases {
				for _, n := range []bool{false, true} {
					for _, vn := range []bool{false, true} {
						out = append(out, Shape{Cont: "map", Base: b, Key: k, Null: n, VNul: vn})
					}
				}
			}
		}
	}
	return out
}

var mapKeys = []string{"string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "date", "enum"}

// fieldRuns analyses the back ends for every shape.
func fieldRuns(P *Program, rep *Report, cov Coverage, only string, shapes []Shape) []*fieldRun {
	var in []fieldRun
	var scs []Scenario
	for _, s := range shapes {
		sc := fieldShape(s)
		if s.Doc {
			sc = fieldShapeDoc(s)
		}
		in = append(in, fieldRun{Shape: s})
		scs = append(scs, sc)
	}
	out := memberRuns(P, rep, cov, only, in, scs)
	cov["type_shapes"] = len(shapes)
	addInt(cov, "backend_shape_runs", len(out))
	return out
}

// memberRuns analyses every back end for every scenario.
func memberRuns(P *Program, rep *Report, cov Coverage, only string, in []fieldRun, scs []Scenario) []*fieldRun {
	var jobs []*fieldRun
	var jsc []Scenario
	bs := P.backends()
	names := map[string]bool{}
	for _, b := range bs {
		names[b.Name] = true
	}
	for _, w := range []string{"go", "dart", "ts", "java"} {
		if !names[w] {
			rep.add("anchor|backend|"+w, "no generator is registered under the name "+w)
		}
	}
	for _, b := range bs {
		if only != "" && !strings.Contains(only, b.Name) {
			continue
		}
		for i, r := range in {
			r.Back = b
			x := r
			jobs = append(jobs, &x)
			jsc = append(jsc, scs[i])
		}
	}
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for i := range jobs {
		wg.Add(1)
		sem <- 1
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			defer rep.guard()
			jobs[i].regRun = runScenario(P, jobs[i].Back, jsc[i])
		}(i)
	}
	wg.Wait()
	fns := map[*ssa.Function]bool{}
	for _, r := range jobs {
		addInt(cov, "block_visits", r.steps)
		addInt(cov, "text_emissions_interpreted", r.emits)
		addInt(cov, "ways_through_member_loops", len(r.trips))
		for f := range r.fns {
			fns[f] = true
		}
		for _, u := range r.undecided {
			rep.undecide(r.Back.Name + " " + r.what() + ": " + u)
		}
	}
	cov["functions_interpreted"] = len(fns)
	return jobs
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
