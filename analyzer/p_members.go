package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P10 and P11: the parts generated per enum item and per service method.
//
// Names in the normalised text, besides those of facets.go: Ⓤ the item's name in
// capitals, Ⓘ its number, ⓟ the method's parameter name, Ⓟ and Ⓡ its parameter
// and result type, Ⓢ the service's underscore name, Ⓗ that of the service
// declaring the method, ◊ padding.

func init() {
	register("P10", "Abstract interpretation of each registered generator for an enum with at least one item. For every item-wise part of the generated enum (constant with its number, value list, name table, ...) there must be a loop over the complete item list whose every way through the body writes that part for the item, that visits every item, and that runs on every path that generates an enum; the look-up functions must compare and return what those tables hold.", runEnumItems)
	register("P11", "Abstract interpretation of each registered generator for services whose methods return a data type or nothing. For every method-wise part (interface, client, router, default implementation) there must be a loop over the complete method list (own and inherited for clients and routers) whose every way through the body writes that part with the method's own name, parameter and result; the route a client calls must be the one every router registers, and the service name announced the one the routes begin with.", runMethods)
}

var enumFacets = []facet{
	fc("go", "constant", "own", `type Ⓓ int\n\n`, `const ⒹⓃ Ⓓ = Ⓘ\n\n`),
	fc("go", "name table", "own", `Map = map\[Ⓓ\]string\{\n`, ` ⒹⓃ: ◊?"Ⓝ",\n`),
	fc("go", "value table", "own", `Values = map\[string\]Ⓓ\{\n`, ` "Ⓝ": ◊?ⒹⓃ,\n`),
	fc("dart", "constant", "own", "", ` static final Ⓤ = Ⓓ\._\(Ⓘ, 'Ⓝ'(?:, \(context\) => ⒹLocalizations\.of\(context\)\.Ⓤ)?\);\n\n`),
	fc("dart", "value list", "own", `static final List<Ⓓ> values = \[\n`, ` Ⓤ,\n`),
	fc("ts", "constant", "own", "", ` public static readonly Ⓤ = new Ⓓ\(Ⓘ, "Ⓝ"\);\n\n`),
	fc("ts", "value list", "own", `static readonly values: Ⓓ\[\] = \[\n`, ` Ⓓ\.Ⓤ,\n`),
	fc("java", "constant", "own", "", ` static final Ⓓ Ⓤ = new Ⓓ\(Ⓘ, "(?:Ⓤ|Ⓝ)"(?:, \(context\) => ⒹLocalizations\.of\(context\)\.Ⓤ)?\);\n`),
	fc("java", "value list", "own", `static final Ⓓ\[\] values = new Ⓓ\[\]\{\n`, ` Ⓤ,\n`),
}

// fixed is text that is the same for every declaration: whatever is found must
// be as wanted, and it must be found.
type fixed struct {
	Back, Name string
	Find       *regexp.Regexp // group x is the part in question
	Want       *regexp.Regexp
}

func fx(back, name, find, want string) fixed {
	return fixed{back, name, regexp.MustCompile(`(?s)` + find), regexp.MustCompile(`(?s)^` + want + `$`)}
}

var enumFixed = []fixed{
	fx("go", "name table", `func \(e Ⓓ\) ToName\(\) string \{\n(?P<x>.*?)\}\n`, ` return ⓛMap\[e\]\n`),
	fx("go", "name table declaration", `var (?P<x>\S+) = map\[Ⓓ\]string`, `ⓛMap`),
	fx("go", "value table", `func ⒹValues\(\) map\[string\]Ⓓ \{\n(?P<x>.*?)\}\n`, ` return ⓛValues\n`),
	fx("go", "value table declaration", `var (?P<x>\S+) = map\[string\]Ⓓ`, `ⓛValues`),
	fx("go", "pointer", `func \(e Ⓓ\) Pointer\(\) \*Ⓓ \{\n(?P<x>.*?)\}\n`, ` pointer := e\n return &pointer\n`),
	fx("dart", "find by number", `static Ⓓ valueOf\(int value\) \{\n(?P<x>.*?) throw `, ` for \(var item in values\) \{\n if \((?:item\.value == value|value == item\.value)\) \{\n return item;\n \}\n \}\n`),
	fx("dart", "find by name", `static Ⓓ nameOf\(String name\) \{\n(?P<x>.*?) throw `, ` for \(var item in values\) \{\n if \((?:item\.name == name|name == item\.name)\) \{\n return item;\n \}\n \}\n`),
	fx("dart", "constructor", `const Ⓓ\._\((?P<x>.*?)\);\n`, `this\.value, this\.name, \[this\._onText\]`),
	fx("dart", "equality", `other is Ⓓ &&\n(?P<x>.*?);\n`, ` runtimeType == other\.runtimeType &&\n value == other\.value`),
	fx("dart", "hash code", `int get hashCode => (?P<x>.*?);\n`, `value(?:\.hashCode)?`),
	fx("ts", "find by number", `static valueOf\(value: number\): Ⓓ \{\n(?P<x>.*?) throw `, ` for \(const i in Ⓓ\.values\) \{\n if \(Ⓓ\.values\[i\]\.value ===? value\) \{\n return Ⓓ\.values\[i\];\n \}\n \}\n`),
	fx("ts", "find by name", `static nameOf\(name: string\): Ⓓ \{\n(?P<x>.*?) throw `, ` for \(const i in Ⓓ\.values\) \{\n if \(Ⓓ\.values\[i\]\.name ===? name\) \{\n return Ⓓ\.values\[i\];\n \}\n \}\n`),
	fx("ts", "constructor", `private constructor\((?P<x>.*?\n) \}\n`, `value: number, name: string\) \{\n this\.value = value;\n this\.name = name;\n`),
	fx("java", "find by number", `static Ⓓ valueOf\(int value\) \{\n(?P<x>.*?) throw `, ` for \(Ⓓ item : values\) \{\n if \(item\.value == value\) \{\n return item;\n \}\n \}\n`),
	fx("java", "find by name", `static Ⓓ nameOf\(String name\) \{\n(?P<x>.*?) throw `, ` for \(Ⓓ item : values\) \{\n if \((?:item\.name\.equals\(name\)|name\.equals\(item\.name\))\) \{\n return item;\n \}\n \}\n`),
	fx("java", "constructor", `private Ⓓ\(int value, String name\)\{\n(?P<x>.*?) \}\n`, ` this\.value = value;\n this\.name = name;\n`),
	fx("java", "equality", `boolean equals\(Object o\) \{\n(?P<x>.*?) \}\n`, ` if \(this == o\) return true;\n if \(o == null \|\| getClass\(\) != o\.getClass\(\)\) return false;\n Ⓓ (\S+) = \(Ⓓ\) o;\n return value == \S+\.value;\n`),
	fx("java", "hash code", `int hashCode\(\) \{\n(?P<x>.*?) \}\n`, ` return (?:this\.)?value;\n`),
}

// methodFacets lists the parts per method; void: of methods without result.
func methodFacets(void bool) []facet {
	pick := func(v, r string) string {
		if void {
			return v
		}
		return r
	}
	goRet := pick(`error`, `\(\*Ⓡ, error\)`)
	goErr := pick(``, `nil, ?`)
	return []facet{
		fc("go", "interface method", "own", "", `\n? Ⓝ\(ctx context\.Context, ⓟ \*Ⓟ\) `+goRet+`\n`),
		fc("go", "default implementation", "own", "", `func \(s \*DefaultⒹ\) Ⓝ\(ctx context\.Context, ⓟ \*Ⓟ\) `+goRet+` \{\n return `+goErr+` ?erro\.NewError\("[^"]*"\)\n\}\n\n`),
		fc("go", "client", "all", "", `func \(r \*ⒹClient\) Ⓝ\(ctx context\.Context, ⓟ \*Ⓟ\) `+goRet+` \{\n `+pick(`_`, `ret`)+`, err := r\.client\.Invoke\(ctx, ⓟ, "Ⓢ/(?P<route>[^"]*)", &rpc\.ClientInvoke\{\n`+
			pick(``, ` ToData: func\(buf \[\]byte\) \(hbuf\.Data, error\) \{\n var req Ⓡ\n return &req, json\.Unmarshal\(buf, &req\)\n \},\n`)+
			` FormData: func\(data hbuf\.Data\) \(\[\]byte, error\) \{\n return json\.Marshal\(&data\)\n \},\n \}, 1, &rpc\.ClientInvoke\{\}\)\n if err != nil \{\n return `+goErr+`err\n \}\n return `+pick(`nil`, `ret\.\(\*Ⓡ\), nil`)+`\n\}\n\n`),
		fc("go", "router", "all", `names: map\[string\]\*rpc\.ServerInvoke\{\n`, ` "(?P<route>[^"]*)": \{\n ToData: func\(buf \[\]byte\) \(hbuf\.Data, error\) \{\n var req Ⓟ\n return &req, json\.Unmarshal\(buf, &req\)\n \},\n`+
			pick(`(?: FormData: func\(data hbuf\.Data\) \(\[\]byte, error\) \{\n return json\.Marshal\(&data\)\n \},\n)?`, ` FormData: func\(data hbuf\.Data\) \(\[\]byte, error\) \{\n return json\.Marshal\(&data\)\n \},\n`)+
			` SetInfo: func\(ctx context\.Context\) \{\n \},\n Invoke: func\(ctx context\.Context, data hbuf\.Data\) \(hbuf\.Data, error\) \{\n return `+pick(`nil, `, ``)+`server\.Ⓝ\(ctx, data\.\(\*Ⓟ\)\)\n \},\n \},\n`),

		fc("dart", "interface method", "own", "", `(?: @override\n)? Future<`+pick(`void`, `Ⓡ`)+`> ⓝ\(Ⓟ ⓟ, \[Context\? ctx\]\);\n\n`),
		fc("dart", "client", "all", "", ` @override\n Future<`+pick(`void`, `Ⓡ`)+`> ⓝ\(Ⓟ ⓟ, \[Context\? ctx\]\) ?\{\n return invoke<`+pick(`void`, `Ⓡ`)+`>\("(?P<route>[^"]*)", (?P<num>[^,]+), ⓟ, `+pick(`(?:null, null|\(map\) \{\}, \(data\) \{\})`, `Ⓡ\.fromMap, Ⓡ\.fromData`)+`\);\n \}\n\n`),
		fc("dart", "router by name", "all", `_invokeNames = \{\n`, ` "(?P<route>[^"]*)": ServerInvoke\(\n toData: \(List<int> buf\) async \{\n return Ⓟ\.fromMap\(json\.decode\(utf8\.decode\(buf\)\)\);\n \},\n formData: \(Data data\) async \{\n return utf8\.encode\(json\.encode\(data\.toMap\(\)\)\);\n \},\n invoke: \(Context ctx, Data data\) async \{\n return await server\.ⓝ\(data as Ⓟ, ctx\);\n \},\n \),\n`),
		fc("dart", "router by number", "all", `_invokeIds = \{\n`, ` (?P<num>[^:]+): ServerInvoke\(\n toData: \(List<int> buf\) async \{\n return Ⓟ\.fromData\(ByteData\.view\(Uint8List\.fromList\(buf\)\.buffer\)\);\n \},\n formData: \(Data data\) async \{\n return data\.toData\(\)\.buffer\.asUint8List\(\);\n \},\n invoke: \(Context ctx, Data data\) async \{\n return await server\.ⓝ\(data as Ⓟ, ctx\);\n \},\n \),\n`),

		fc("ts", "interface method", "own", "", ` ⓝ\(ⓟ: Ⓟ, ctx\?: h\.Context\): Promise<`+pick(`void`, `Ⓡ`)+`>\n\n`),
		fc("ts", "client", "all", "", ` ⓝ\(ⓟ: Ⓟ, ctx\?: h\.Context\): Promise<`+pick(`void`, `Ⓡ`)+`> \{\n return this\.invoke<`+pick(`void`, `Ⓡ`)+`>\("(?P<route>[^"]*)", (?P<num>[^,]+), ⓟ, `+pick(`null, null`, `Ⓡ\.fromJson, Ⓡ\.fromData`)+`\);\n \}\n\n`),
		fc("ts", "router", "all", `this\.invoke = \{\n`, ` "(?P<route>[^"]*)": \{\n formData\(data: BinaryData \| Record<string, any>\): h\.Data \{\n return Ⓟ\.fromJson\(data\)\n \},\n toData\(data: h\.Data\): BinaryData \| Record<string, any> \{\n return data\.toJson\(\)\n \},\n invoke\(data: h\.Data, ctx\?: h\.Context\): Promise<h\.Data \| void> \{\n return (?:this\.)?server\.ⓝ\(data as Ⓟ, ctx\);\n \}\n \},\n`),

		fc("java", "interface method", "own", "", `(?: @Override\n)? CompletableFuture<`+pick(`Void`, `Ⓡ`)+`> ⓝ\(Ⓟ ⓟ, Server\.Context ctx\) throws Exception ?;\n\n`),
		fc("java", "client", "all", "", ` @Override\n public CompletableFuture<`+pick(`Void`, `Ⓡ`)+`> ⓝ\(Ⓟ ⓟ, Server\.Context ctx\) throws Exception \{\n return invoke\("(?P<route>[^"]*)", (?P<num>[^,]+), ⓟ, `+pick(`(?:null, null|\(data\) ?-> null, \(data\) ?-> null)`, `\(data\) ?-> Data\.formJson\.invoke\(new String\(data\), ⓇImpl\.class\), \(data\) ?-> new ⓇImpl\(\)\.formData\(data\)`)+`\);\n \}\n\n`),
	}
}

var methodFixed = []fixed{
	fx("go", "service name", `GetName\(\) string \{\n(?P<x>.*?)\}\n`, ` return "Ⓢ"\n`),
	fx("go", "wrapped server", `GetServer\(\) rpc\.Init \{\n(?P<x>.*?)\}\n`, ` return p\.server\n`),
	fx("go", "routes", `GetInvoke\(\) map\[string\]\*rpc\.ServerInvoke \{\n(?P<x>.*?)\}\n`, ` return p\.names\n`),
	fx("go", "router construction", `func NewⒹRouter\((?P<x>.*?) names: `, `server Ⓓ\) \*ⒹRouter \{\n return &ⒹRouter\{\n server: server,\n`),
	fx("go", "client construction", `func NewⒹClient\((?P<x>.*?)\n \}\n\}`, `client rpc\.Client\) \*ⒹClient \{\n return &ⒹClient\{\n client: client,`),
	fx("go", "server look-up", `func GetⒹ\(ctx context\.Context\) Ⓓ \{\n(?P<x>.*?)\n\}\n`, ` router := manage\.GET\(ctx\)\.Get\(&ⒹRouter\{\}\)\n if nil == router \{\n return NotFoundⒹ\n \}\n if val, ok := router\.\(Ⓓ\); ok \{\n return val\n \}\n return NotFoundⒹ`),
	fx("dart", "service name", `String get name => (?P<x>.*?);\n`, `"Ⓢ"`),
	fx("dart", "routes by name", `get invokeNames => (?P<x>.*?);\n`, `_invokeNames`),
	fx("dart", "routes by number", `get invokeIds => (?P<x>.*?);\n`, `_invokeIds`),
	fx("ts", "client service name", `get name\(\): string \{\n(?P<x>.*?) \}\n`, ` return "Ⓢ";?\n`),
	fx("ts", "router service name", `getName\(\): string \{\n(?P<x>.*?) \}\n`, ` return "Ⓢ";?\n`),
	fx("ts", "routes", `getInvoke\(\): Record<string, h\.ServerInvoke> \{\n(?P<x>.*?) \}\n`, ` return this\.invoke;?\n`),
	fx("ts", "wrapped server", `constructor\(server: Ⓓ\) \{\n(?P<x>.*?) this\.invoke = `, ` this\.server = server;?\n`),
	fx("java", "service name", `getName\(\) \{\n(?P<x>.*?) \}\n`, ` return "Ⓢ";\n`),
}

func runEnumItems(P *Program, rep *Report, cov Coverage, tier string) {
	runs := memberRuns(P, rep, cov, "", []fieldRun{{Label: "an enum item"}, {Label: "an enum item (documented, tagged)"}, {Label: "an enum item of a ui enum"}},
		[]Scenario{enumScenario(false), enumScenario(true), enumUiScenario()})
	loops := memberParts(runs, rep, cov, func(r *fieldRun) []facet { return enumFacets }, nil)
	fixedParts(runs, rep, cov, enumFixed)
	cov["member_loops_checked_exhaustive"] = len(loops)
	coverDecls(P, rep)
	if len(loops) < 6 {
		rep.add("anchor|loops", fmt.Sprintf("only %d loops over enum items were found in the generators", len(loops)))
	}
}

func runMethods(P *Program, rep *Report, cov Coverage, tier string) {
	var in []fieldRun
	var scs []Scenario
	for _, void := range []bool{false, true} {
		for _, doc := range []bool{false, true} {
			l := "a method"
			if void {
				l = "a method without result"
			}
			if doc {
				l += " (documented, tagged)"
			}
			in = append(in, fieldRun{Label: l})
			scs = append(scs, methodScenario(void, doc))
		}
	}
	runs := memberRuns(P, rep, cov, "", in, scs)
	type use struct{ back, part, what, text, at string }
	var uses []use
	loops := memberParts(runs, rep, cov, func(r *fieldRun) []facet {
		return methodFacets(strings.Contains(r.Label, "without result"))
	}, func(r *fieldRun, f facet, h facetHit) {
		for _, w := range []string{"route", "num"} {
			if t, ok := h.G[w]; ok {
				uses = append(uses, use{f.Back, f.Name, w, t, h.Trip.Func + " (" + h.Trip.At + ")"})
			}
		}
	})
	done := map[string]bool{}
	n := 0
	for _, u := range uses {
		want := "Ⓗ/ⓚ"
		if u.what == "num" {
			want = "0 << 32 | Ⓘ"
		}
		n++
		if u.text == want {
			continue
		}
		if u.what == "num" && strings.ReplaceAll(u.text, " ", "") == strings.ReplaceAll(want, " ", "") {
			continue
		}
		group := "name"
		if u.text == "Ⓢ/ⓚ" {
			group = "inherited"
		}
		key := "route|" + u.back + "|" + u.part + "|" + u.what + "|" + group
		if done[key] {
			continue
		}
		done[key] = true
		if group == "inherited" {
			rep.add(key, fmt.Sprintf("%s %s: an inherited method goes by the route <extending service>/<method>, in other languages by <declaring service>/<method> (%s)", u.back, u.part, u.at))
		} else {
			rep.add(key, fmt.Sprintf("%s %s: a method goes by %q, elsewhere by %q (%s)", u.back, u.part, u.text, want, u.at))
		}
	}
	cov["routes_compared"] = n
	fixedParts(runs, rep, cov, methodFixed)
	for _, r := range runs {
		coverExtends(r, rep)
	}
	cov["member_loops_checked_exhaustive"] = len(loops)
	cov["enumerator_loops_checked"] = checkEnumerators(P, rep)
	coverDecls(P, rep)
	if len(loops) < 8 {
		rep.add("anchor|loops", fmt.Sprintf("only %d loops over methods were found in the generators", len(loops)))
	}
}

// memberParts requires every part in every run, written by an exhaustive loop.
func memberParts(runs []*fieldRun, rep *Report, cov Coverage, facets func(*fieldRun) []facet, each func(*fieldRun, facet, facetHit)) map[ssa.Instruction]bool {
	loops := map[ssa.Instruction]bool{}
	n := 0
	for _, r := range runs {
		for _, f := range facets(r) {
			if f.Back != r.Back.Name {
				continue
			}
			n++
			key := "part|" + f.Back + "|" + f.Name + "|" + r.class()
			hits, at, why := r.hits(f)
			if len(hits) == 0 {
				if why == "" {
					why = "no loop writes it for " + r.what() + "; nearest: " + r.closest(f)
				}
				rep.add(key, fmt.Sprintf("%s %s: %s", f.Back, f.Name, why))
				continue
			}
			ok := false
			var problem string
			for _, h := range hits {
				p := coverLoop(h, f, r, at)
				loops[h.Trip.In] = true
				if p == "" {
					ok = true
				} else if problem == "" {
					problem = fmt.Sprintf("the loop in %s (%s): %s", h.Trip.Func, h.Trip.At, p)
				}
				if each != nil {
					each(r, f, h)
				}
			}
			if !ok {
				rep.add(key, fmt.Sprintf("%s %s: %s", f.Back, f.Name, problem))
			}
		}
	}
	addInt(cov, "parts_checked", n)
	return loops
}

// class groups scenarios for the keys of findings.
func (r *fieldRun) class() string {
	return strings.TrimSuffix(r.what(), " (documented, tagged)")
}

func fixedParts(runs []*fieldRun, rep *Report, cov Coverage, fs []fixed) {
	n := 0
	for _, r := range runs {
		for _, f := range fs {
			if f.Back != r.Back.Name {
				continue
			}
			found := 0
			xi := f.Find.SubexpIndex("x")
			for _, w := range r.wins {
				for _, m := range f.Find.FindAllStringSubmatch(w, -1) {
					found++
					if !f.Want.MatchString(m[xi]) {
						rep.add("fixed|"+f.Back+"|"+f.Name, fmt.Sprintf("%s %s: the generator writes %q", f.Back, f.Name, short(m[xi], 200)))
					}
				}
			}
			n++
			if found == 0 {
				rep.add("fixed|"+f.Back+"|"+f.Name, fmt.Sprintf("%s %s: not generated for %s", f.Back, f.Name, r.what()))
			}
		}
	}
	addInt(cov, "fixed_texts_checked", n)
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
