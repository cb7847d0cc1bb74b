package main

import (
	"fmt"
	"regexp"
	"strings"
)

// The declared type and the conversions of a member, per target language.

func init() {
	register("P04", "Abstract interpretation of each registered generator for every shape of field type. Every text position that states the type of a member (struct field, accessor, parameter, entity field, class field, copyWith parameter), its default value, and its nullability (pointer, ?, | null, required, address-of, dereference) is compared with the table of the four target languages.", runTypes)
	register("P07", "Abstract interpretation of the Go, Dart and TypeScript generators for every shape of field type: the object key each of them writes for a field (struct tag, decode, encode) is extracted as a term over the field's declaration, and all of them have to be the same term, not a constant.", runKeys)
	register("P09", "Abstract interpretation of the Dart and TypeScript generators for every shape of field type: the decode expression written for the field is compared with the one its type determines - null exactly for nullable members, else the zero of the type; element and map value converted by the same rule as a member of that type, applied to the bound variable; nested data decoded by its own decoder; map keys converted by the key's rule.", runDecode)
	register("P26", "Abstract interpretation of the Dart and TypeScript generators for every shape of field type: the encode expression written for the field is compared with the one its type determines - the wire form the decoders read back (text for 64 bit and decimal numbers, epoch milliseconds, enum value, nested object), null-safe exactly for nullable members, applied to every element, key and value of containers.", runEncode)
	register("P27", "Abstract interpretation of the Dart and TypeScript generators for every shape of field type: the expression that copies the field into the copy is compared with the one its type determines - mutable values (nested data, decimals, dates and 64 bit numbers where the language's are mutable, containers) are copied element by element through the same variable, null kept as null.", runCopy)
}

func squeeze(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r != ' ' && r != '\n' && r != '\t' {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

const keyDecl = "Ⓚ"

// leafType is the type of a non-null value of the base type.
func leafType(back, base string, asKey bool) string {
	if base == "enum" || base == "data" {
		if asKey {
			if back == "go" {
				return "‹?›" + keyDecl
			}
			return keyDecl
		}
		return "Ⓣ"
	}
	switch back {
	case "go":
		switch base {
		case "int64":
			return "hbuf.Int64"
		case "uint64":
			return "hbuf.Uint64"
		case "float":
			return "float32"
		case "double":
			return "float64"
		case "decimal":
			return "decimal.Decimal"
		case "date":
			return "hbuf.Time"
		}
		return base
	case "dart":
		switch base {
		case "int64", "uint64":
			return "Int64"
		case "float", "double":
			return "double"
		case "bool":
			return "bool"
		case "decimal":
			return "Decimal"
		case "string":
			return "String"
		case "date":
			return "DateTime"
		}
		return "int"
	case "ts":
		switch base {
		case "int64", "uint64":
			return "Long"
		case "bool":
			return "boolean"
		case "decimal":
			return "d.Decimal"
		case "string":
			return "string"
		case "date":
			return "Date"
		}
		return "number"
	case "java":
		return map[string]string{"int8": "Byte", "int16": "Short", "int32": "Integer", "int64": "Long", "uint8": "Character", "uint16": "Integer", "uint32": "Long", "uint64": "BigInteger", "bool": "Boolean", "float": "Float", "double": "Double", "decimal": "BigDecimal", "string": "String", "date": "Date"}[base]
	}
	return "?"
}

// tsKeyType: the keys of a record are property names.
func tsKeyType(base string) string {
	switch base {
	case "bool":
		return "boolean"
	case "string", "int64", "uint64", "decimal":
		return "string"
	}
	return "number"
}

func nullableType(back, t string, null bool) string {
	if !null {
		return t
	}
	switch back {
	case "go":
		return "*" + t
	case "dart":
		return t + "?"
	case "ts":
		return t + "|null"
	}
	return t
}

// wantType is the declared type of a member of shape s; opt asks for the form
// that is always optional.
func wantType(back string, s Shape, opt bool) string {
	elem := nullableType(back, leafType(back, s.Base, false), s.VNul)
	var t string
	switch s.Cont {
	case "array":
		switch back {
		case "go":
			return "[]" + elem
		case "ts":
			t = "(" + elem + ")[]"
		default:
			t = "List<" + elem + ">"
		}
	case "map":
		switch back {
		case "go":
			return "map[" + leafType(back, s.Key, true) + "]" + elem
		case "ts":
			t = "Record<(" + tsKeyType(s.Key) + "),(" + elem + ")>"
		default:
			t = "Map<" + leafType(back, s.Key, true) + "," + elem + ">"
		}
	default:
		t = leafType(back, s.Base, false)
	}
	return nullableType(back, t, s.Null || opt)
}

// nonNullType is the type accessors exchange.
func nonNullType(back string, s Shape) string {
	if back == "go" {
		s.Null = false
		return wantType(back, s, false)
	}
	return wantType(back, s, false)
}

func goZero(base string) []string {
	switch base {
	case "bool":
		return []string{"false"}
	case "string":
		return []string{`""`}
	case "decimal":
		return []string{"decimal.Zero", "decimal.Decimal{}"}
	case "date":
		return []string{"hbuf.Time{}"}
	case "enum":
		return []string{"Ⓣ(0)", "0"}
	case "data":
		return []string{"Ⓣ{}"}
	}
	return []string{leafType("go", base, false) + "(0)", "0"}
}

func tsZero(s Shape) []string {
	switch {
	case s.Null:
		return []string{"null"}
	case s.Cont == "array":
		return []string{"[]"}
	case s.Cont == "map":
		return []string{"{}"}
	}
	switch s.Base {
	case "bool":
		return []string{"false"}
	case "string":
		return []string{`""`}
	case "decimal":
		return []string{"newd.Decimal(0)"}
	case "date":
		return []string{"newDate()", "newDate(0)"}
	case "enum":
		return []string{"Ⓣ.valueOf(0)"}
	case "data":
		return []string{"newⓉ()"}
	case "int64", "uint64":
		return []string{"Long.ZERO"}
	case "float", "double":
		return []string{"0", "0.0"}
	}
	return []string{"0"}
}

func in(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// forFacets runs the back ends and hands every hit of the facets chosen by pick to f.
func forFacets(P *Program, rep *Report, cov Coverage, tier, only string, pick func(facet) bool, f func(r *fieldRun, ft facet, h facetHit) (group, got string, want []string, ok bool), all ...func(r *fieldRun, hits map[string][]facetHit)) {
	runs := fieldRuns(P, rep, cov, only, allShapes(tier == "thorough"))
	n, met := 0, map[string]bool{}
	for _, r := range runs {
		hm := map[string][]facetHit{}
		for _, ft := range fieldFacets {
			if ft.Back != r.Back.Name || !pick(ft) {
				continue
			}
			hs, _, why := r.hits(ft)
			if len(hs) == 0 {
				if why == "" {
					why = "not written; nearest: " + r.closest(ft)
				}
				rep.add("part|"+ft.Back+"|"+ft.Name, fmt.Sprintf("%s %s of a field of type %s: %s", ft.Back, ft.Name, r.Shape, why))
				continue
			}
			met[ft.Back+ft.Name] = true
			hm[ft.Name] = hs
			if f == nil {
				continue
			}
			for _, h := range hs {
				n++
				if g, got, want, ok := f(r, ft, h); !ok {
					rep.add("text|"+ft.Back+"|"+ft.Name+"|"+g+"|"+shapeClass(r.Shape), fmt.Sprintf("%s %s: a field of type %s gets %s %q where its type determines %q (%s, %s)", ft.Back, ft.Name, r.Shape, g, got, want[0], h.Trip.Func, h.Trip.At))
				}
			}
		}
		for _, a := range all {
			a(r, hm)
		}
	}
	addInt(cov, "positions_compared", n)
	cov["parts_found"] = len(met)
}

// shapeClass groups shapes so that one defect is one finding.
func shapeClass(s Shape) string {
	if s.Cont == "" {
		return s.Base
	}
	return s.Cont
}

func runTypes(P *Program, rep *Report, cov Coverage, tier string) {
	pick := func(f facet) bool {
		for _, g := range f.Text.SubexpNames() {
			switch g {
			case "type", "stype", "gtype", "otype", "req", "dflt":
				return true
			}
		}
		return false
	}
	forFacets(P, rep, cov, tier, "", pick, func(r *fieldRun, ft facet, h facetHit) (string, string, []string, bool) {
		s, b := r.Shape, ft.Back
		scalarNull := s.Cont == "" && s.Null
		for _, g := range sortedKeys(h.G) {
			got := squeeze(h.G[g])
			var want []string
			switch g {
			case "type":
				want = []string{wantType(b, s, false)}
			case "stype", "gtype":
				want = []string{nonNullType(b, s)}
			case "otype":
				want = []string{wantType(b, s, true)}
			case "req":
				want = []string{"required"}
				if s.Null {
					want = []string{""}
				}
			case "dflt":
				if b == "go" {
					want = []string{""}
					if scalarNull {
						want = goZero(s.Base)
					}
				} else {
					want = tsZero(s)
				}
			case "deref":
				want = []string{""}
				if scalarNull {
					want = []string{"*"}
				}
			case "addr":
				want = []string{""}
				if scalarNull {
					want = []string{"&"}
				}
			default:
				continue
			}
			if !in(want, got) {
				return g, h.G[g], want, false
			}
		}
		return "", "", nil, true
	})
}

func runKeys(P *Program, rep *Report, cov Coverage, tier string) {
	pick := func(f facet) bool {
		for _, g := range f.Text.SubexpNames() {
			if g == "key" {
				return true
			}
		}
		return false
	}
	type use struct{ where string }
	keys := map[string]map[string]string{} // shape -> key -> where
	n := 0
	forFacets(P, rep, cov, tier, "go,dart,ts", pick, nil, func(r *fieldRun, hm map[string][]facetHit) {
		for name, hs := range hm {
			for _, h := range hs {
				n++
				k := h.G["key"]
				if keys[r.Shape.String()] == nil {
					keys[r.Shape.String()] = map[string]string{}
				}
				w := fmt.Sprintf("%s %s (%s, %s)", r.Back.Name, name, h.Trip.Func, h.Trip.At)
				if o, ok := keys[r.Shape.String()][k]; !ok || w < o {
					keys[r.Shape.String()][k] = w
				}
				if !strings.ContainsAny(k, "Ⓝⓝⓚ") && !strings.Contains(k, "ast.Field.Name.Name") {
					rep.add("const|"+r.Back.Name+"|"+name, fmt.Sprintf("%s uses the key %q, which does not depend on the field", w, k))
				}
			}
		}
	})
	for sh, m := range keys {
		if len(m) > 1 {
			var l []string
			for _, k := range sortedKeys(m) {
				l = append(l, fmt.Sprintf("%q in %s", k, m[k]))
			}
			rep.add("keys", fmt.Sprintf("a field of type %s has different keys: %s", sh, strings.Join(l, "; ")))
		}
	}
	cov["keys_compared"] = n
}

// ---- decode

func decLeaf(back, base, v string, null, asKey bool) []string {
	T := "Ⓣ"
	if asKey {
		T = keyDecl
	}
	var w []string
	add := func(s string) { w = append(w, s) }
	if back == "dart" {
		num := v + "isnum?" + v + ".toInt():num.tryParse(" + v + ".toString())?.toInt()"
		switch base {
		case "int64", "uint64":
			p := "Int64.parseInt(" + v + ".toString())"
			if null {
				add("null:" + p)
			} else {
				add("Int64.ZERO:" + p)
			}
		case "bool":
			if null {
				add("null:(" + v + "isbool?" + v + ":(" + v + "isnum?0!=" + v + ":(null==num.tryParse(" + v + ".toString())?null:0!=num.tryParse(" + v + ".toString()))))")
			} else {
				add("false:(" + v + "isbool?" + v + ":0!=(" + v + "isnum?" + v + ":num.tryParse(" + v + ".toString())??0))")
			}
		case "float", "double":
			d := v + "isnum?" + v + ".toDouble():num.tryParse(" + v + ".toString())?.toDouble()"
			if null {
				add("null:(" + d + ")")
			} else {
				add("0:(" + d + "??0)")
				add("0.0:(" + d + "??0.0)")
				add("0.0:(" + d + "??0)")
			}
		case "decimal":
			if null {
				add("null:Decimal.tryParse(" + v + ".toString())")
			} else {
				add("Decimal.zero:(Decimal.tryParse(" + v + ".toString())??Decimal.zero)")
			}
		case "string":
			s := "(" + v + "isString?" + v + ":" + v + ".toString())"
			if null {
				add("null:" + s)
			} else {
				add(`"":` + s)
			}
		case "date":
			if null {
				add("null:" + v + "isnum?DateTime.fromMillisecondsSinceEpoch(" + v + ".toInt()):null==num.tryParse(" + v + ".toString())?null:DateTime.fromMillisecondsSinceEpoch(num.tryParse(" + v + ".toString())!.toInt())")
			} else {
				add("DateTime.fromMillisecondsSinceEpoch(0):DateTime.fromMillisecondsSinceEpoch(" + num + "??0)")
			}
		case "enum":
			if null {
				add("null:" + v + "isnum?" + T + ".valueOf(" + v + ".toInt()):null==num.tryParse(" + v + ".toString())?null:" + T + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
			} else {
				add(T + ".valueOf(0):" + T + ".valueOf(" + num + "??0)")
			}
		case "data":
			if null {
				add("null:" + T + ".fromMap(" + v + ")")
			} else {
				add(T + ".fromMap({}):" + T + ".fromMap(" + v + ")")
			}
		default:
			if null {
				add("null:(" + num + ")")
			} else {
				add("0:(" + num + "??0)")
			}
		}
		return w
	}
	// ts
	if asKey {
		switch tsKeyType(base) {
		case "number":
			add("0:(Number(" + v + ").valueOf()??0)")
		default:
			add(`"":` + v + ".toString()")
		}
		return w
	}
	switch base {
	case "int64", "uint64":
		if null {
			add("null:Long.fromString(" + v + ".toString())")
		} else {
			add("Long.ZERO:Long.fromString(" + v + ".toString())")
		}
	case "bool":
		b := `("true"===` + v + "?true:Boolean(" + v + "))"
		if null {
			add("null:" + b)
		} else {
			add("false:" + b)
		}
	case "decimal":
		if null {
			add("null:newd.Decimal(" + v + ")")
		} else {
			add("newd.Decimal(0):newd.Decimal(" + v + ")")
		}
	case "string":
		if null {
			add("null:" + v + ".toString()")
		} else {
			add(`"":` + v + ".toString()")
		}
	case "date":
		if null {
			add("null:newDate(Number(" + v + ").valueOf())")
		} else {
			add("newDate(0):newDate(Number(" + v + ").valueOf())")
		}
	case "enum":
		if null {
			add("null:Ⓣ.valueOf(Number(" + v + ").valueOf())")
		} else {
			add("Ⓣ.valueOf(0):Ⓣ.valueOf(Number(" + v + ").valueOf())")
		}
	case "data":
		if null {
			add("null:Ⓣ.fromJson(" + v + ")")
		} else {
			add("Ⓣ.fromJson({}):Ⓣ.fromJson(" + v + ")")
		}
	default:
		if null {
			add("null:Number(" + v + ").valueOf()")
		} else {
			for _, z := range []string{"0", "0.0"} {
				add(z + ":(Number(" + v + ").valueOf()??0)")
				add(z + ":(Number(" + v + ").valueOf()??0.0)")
			}
		}
	}
	return w
}

// cross gives every combination of the alternatives.
func cross(parts ...[]string) []string {
	out := []string{""}
	for _, p := range parts {
		var n []string
		for _, o := range out {
			for _, x := range p {
				n = append(n, o+x)
			}
		}
		out = n
	}
	return out
}

func one1(s string) []string { return []string{s} }

// balancedParens drops one pair of parentheses around the whole of s.
func strip(s string) string { return s }

func wantDecode(back string, s Shape, v string) []string {
	var out []string
	switch s.Cont {
	case "":
		return decLeaf(back, s.Base, v, s.Null, false)
	case "array":
		for _, e := range []string{"item", "temp", "e", "value"} {
			el := decLeaf(back, s.Base, e, s.VNul, false)
			if back == "dart" {
				d := "null"
				if !s.Null {
					d = "<" + nullableType(back, leafType(back, s.Base, false), s.VNul) + ">[]"
				}
				out = append(out, cross(one1(d+":("+v+"!is!List?"+d+":("+v+"asList).map(("+e+")=>null=="+e+"?"), el, one1(").toList())"))...)
				continue
			}
			d, b := "null", ""
			if !s.Null {
				d, b = "[]", "!"
			}
			out = append(out, cross(one1(d+":(!h.isArray("+v+")?"+d+":(h.convertArray("+v+",("+e+")=>null=="+e+"?"), el, one1("))"+b+")"))...)
		}
	case "map":
		ky := decLeaf(back, s.Key, "key", false, true)
		el := decLeaf(back, s.Base, "value", s.VNul, false)
		if back == "dart" {
			d := "null"
			if !s.Null {
				d = "<" + leafType(back, s.Key, true) + "," + nullableType(back, leafType(back, s.Base, false), s.VNul) + ">{}"
			}
			return cross(one1(d+":("+v+"!is!Map?"+d+":("+v+"asMap).map((key,value)=>MapEntry(null==key?"), ky, one1(",null==value?"), el, one1(")))"))
		}
		d, b := "null", ""
		if !s.Null {
			d, b = "{}", "!"
		}
		return cross(one1(d+":(!h.isRecord("+v+")?"+d+":(h.convertRecord("+v+",(key,value)=>newh.RecordEntry(null==key?"), ky, one1(",null==value?"), el, one1(")))"+b+")"))
	}
	return out
}

func groupCheck(P *Program, rep *Report, cov Coverage, tier, group string, want func(back string, s Shape) []string) {
	pick := func(f facet) bool { return in(f.Text.SubexpNames(), group) }
	forFacets(P, rep, cov, tier, "dart,ts", pick, func(r *fieldRun, ft facet, h facetHit) (string, string, []string, bool) {
		w := want(ft.Back, r.Shape)
		return group, h.G[group], w, in(w, squeeze(h.G[group]))
	})
}

func runDecode(P *Program, rep *Report, cov Coverage, tier string) {
	groupCheck(P, rep, cov, tier, "dec", func(back string, s Shape) []string { return wantDecode(back, s, "temp") })
}

// ---- encode

func encLeaf(back, base, v string, null, asKey bool) []string {
	q := ""
	if null {
		q = "?"
	}
	call := map[string]string{"int64": ".toString()", "uint64": ".toString()", "decimal": ".toString()", "enum": ".value"}
	if back == "dart" {
		call["date"] = ".millisecondsSinceEpoch"
		call["data"] = ".toMap()"
	} else {
		call["date"] = ".getTime()"
		call["data"] = ".toJson()"
		if asKey { // keys are property names already
			if base == "decimal" {
				return []string{v + ".toString()", v}
			}
			return []string{v}
		}
	}
	if c := call[base]; c != "" {
		return []string{v + q + c}
	}
	return []string{v}
}

func wantEncode(back string, s Shape) []string {
	v := "ⓝ"
	if back == "ts" {
		v = "this.ⓝ"
	}
	q := []string{""}
	if s.Null {
		q = []string{"?"}
	}
	var out []string
	switch s.Cont {
	case "":
		return encLeaf(back, s.Base, v, s.Null, false)
	case "array":
		for _, e := range []string{"e", "item", "temp", "value"} {
			el := encLeaf(back, s.Base, e, s.VNul, false)
			if back == "dart" {
				tail := one1(".toList()")
				if s.Null {
					tail = []string{"?.toList()", ".toList()"}
				}
				out = append(out, cross(one1(v), q, one1(".map(("+e+")=>"), el, one1(")"), tail)...)
			} else {
				out = append(out, cross(one1("h.convertArray("+v+",("+e+")=>"), el, one1(")"))...)
			}
		}
	case "map":
		ky := encLeaf(back, s.Key, "key", false, true)
		el := encLeaf(back, s.Base, "value", s.VNul, false)
		if back == "dart" {
			return cross(one1(v), q, one1(".map((key,value)=>MapEntry("), ky, one1(","), el, one1("))"))
		}
		return cross(one1("h.convertRecord("+v+",(key,value)=>newh.RecordEntry("), ky, one1(","), el, one1("))"))
	}
	return out
}

func runEncode(P *Program, rep *Report, cov Coverage, tier string) {
	groupCheck(P, rep, cov, tier, "enc", wantEncode)
}

// ---- copy

func copyLeaf(back, base, v string, null, asKey bool) []string {
	if back == "dart" {
		switch base {
		case "decimal":
			if null {
				return []string{"null==" + v + "?null:Decimal.fromJson(" + v + "!.toJson())"}
			}
			return []string{"Decimal.fromJson(" + v + ".toJson())"}
		case "data":
			if null {
				return []string{v + "?.copy()"}
			}
			return []string{v + ".copy()"}
		}
		return []string{v}
	}
	if asKey {
		return []string{v}
	}
	g := ""
	if null {
		g = v + "==null?null:"
	}
	switch base {
	case "int64", "uint64":
		return []string{g + "Long.fromValue(" + v + ")"}
	case "decimal":
		return []string{g + "newd.Decimal(" + v + ")"}
	case "date":
		return []string{g + "newDate(" + v + "!.getTime())", g + "newDate(" + v + ".getTime())"}
	case "data":
		return []string{g + v + ".clone()"}
	}
	return []string{v}
}

func wantCopy(back string, s Shape) []string {
	v := "ⓝ"
	if back == "ts" {
		v = "this.ⓝ"
	}
	q := ""
	if s.Null {
		q = "?"
	}
	var out []string
	switch s.Cont {
	case "":
		return copyLeaf(back, s.Base, v, s.Null, false)
	case "array":
		for _, e := range []string{"temp", "item", "e", "value"} {
			el := copyLeaf(back, s.Base, e, s.VNul, false)
			if back == "dart" {
				out = append(out, cross(one1(v+q+".map(("+e+")=>"), el, one1(").toList()"))...)
				continue
			}
			d, b := "null", ""
			if !s.Null {
				d, b = "[]", "!"
			}
			out = append(out, cross(one1(v+"==null?"+d+":(h.convertArray("+v+",("+e+")=>"), el, one1("))"+b))...)
		}
	case "map":
		ky := copyLeaf(back, s.Key, "key", false, true)
		el := copyLeaf(back, s.Base, "value", s.VNul, false)
		if back == "dart" {
			return cross(one1(v+q+".map((key,value)=>MapEntry("), ky, one1(","), el, one1("))"))
		}
		d, b := "null", ""
		if !s.Null {
			d, b = "{}", "!"
		}
		return cross(one1(v+"==null?"+d+":(h.convertRecord("+v+",(key,value)=>newh.RecordEntry("), ky, one1(","), el, one1(")))"+b))
	}
	return out
}

func runCopy(P *Program, rep *Report, cov Coverage, tier string) {
	groupCheck(P, rep, cov, tier, "copy", wantCopy)
}

var _ = regexp.MustCompile
