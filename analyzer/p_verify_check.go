package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// The verify functions that the Go, Dart and TypeScript generators write: a
// value is rejected exactly when it breaks a format of its field.

var (
	vHole = regexp.MustCompile(`‹[^‹›]*›`)
	vAlts = regexp.MustCompile(`⦃[^⦃⦄]*⦄`)
)

// verifySyms gives the parts of a generated text that come from the schema
// short names: F the field, D the data, Ê the enum of the item, Î the item, and
// m, M, R for the limits and the expression.
func verifySyms(lang, t string) string {
	own := func(h string) string {
		in := strings.Trim(h, "‹›")
		if strings.HasPrefix(in, "loop ") {
			return "◌"
		}
		if strings.Contains(in, "Format.") || strings.Contains(in, "format:(") {
			k := ""
			switch {
			case strings.Contains(in, ".Min"):
				k = "m"
			case strings.Contains(in, ".Max"):
				k = "M"
			case strings.Contains(in, ".Reg"):
				return "R"
			}
			if strings.Contains(in, "UnixMilli") && strings.Contains(in, "time.Parse") {
				return k + "ₘₛ"
			}
			if strings.HasPrefix(in, "build.Format.") {
				return k
			}
			return h
		}
		switch in {
		case "Hump(ast.DataType.Name.Name)":
			return "D"
		case "Hump(ast.Field.Name.Name)":
			return "F"
		case "Hump(ast.EnumType.Name.Name)":
			return "Ê"
		}
		if lang == "go" && in == "Hump(ast.EnumItem.Name.Name)" || lang != "go" && in == "upper(ast.EnumItem.Name.Name)" {
			return "Î"
		}
		if lang == "ts" && in == "substr:(string, 5, nil)" {
			return "℗" // the name after "* as " of an import
		}
		if strings.Contains(in, "Packages") || strings.Contains(in, "GetImports") || strings.Contains(in, "\"$\"") {
			return "℗"
		}
		return h
	}
	t = vHole.ReplaceAllStringFunc(strings.ReplaceAll(t, "‹string›", "string"), own)
	for {
		n := vAlts.ReplaceAllStringFunc(t, func(a string) string {
			in := strings.TrimSuffix(strings.TrimPrefix(a, "⦃"), "⦄")
			all := true
			var rest []string
			seen := map[string]bool{}
			for _, x := range strings.Split(in, "|") {
				y := strings.TrimSuffix(x, ".")
				if y != "" && y != "℗" && y != "$℗" {
					all = false
				}
				if !seen[x] {
					seen[x] = true
					rest = append(rest, x)
				}
			}
			if all {
				return "℗"
			}
			if len(rest) == 1 {
				return rest[0]
			}
			return "⟨" + strings.Join(rest, "|") + "⟩"
		})
		if n == t {
			break
		}
		t = n
	}
	t = strings.ReplaceAll(t, "℗.", "")
	t = strings.ReplaceAll(t, "℗", "")
	return t
}

// vStmt is one statement of a verify function.
type vStmt struct {
	kind string // if, try, return, do
	text string // condition, value or statement
	body []vStmt
}

// parseVerify parses the statements of a function.
func parseVerify(lang, t string) ([]vStmt, string) {
	switch lang {
	case "go":
		t = regexp.MustCompile(`&rpc\.Result\{\s*Code: int\(ÊÎ\), Msg: ÊÎ\.ToName\(\)\s*\}`).ReplaceAllString(t, "REJECT")
		t = strings.ReplaceAll(t, "return nil", "return OK")
	case "dart":
		t = strings.ReplaceAll(t, "return Ê.Î.toText(context)", "return REJECT")
		t = strings.ReplaceAll(t, "return null", "return OK")
	case "ts":
		t = strings.ReplaceAll(t, "return callback(new Error(locale.t(Ê.Î.toString())))", "return REJECT")
		t = strings.ReplaceAll(t, "return callback()", "return OK")
	}
	p := &vParser{s: regexp.MustCompile(`\{ ?//[^\n]*`).ReplaceAllString(t, "{")}
	out := p.block(false)
	if p.err == "" && strings.TrimSpace(p.s) != "" {
		p.err = "text remains: " + p.s
	}
	return out, p.err
}

type vParser struct {
	s, err string
}

func (p *vParser) fail(w string) {
	if p.err == "" {
		n := p.s
		if len(n) > 60 {
			n = n[:60]
		}
		p.err = w + " at " + fmt.Sprintf("%q", n)
	}
}

func (p *vParser) block(inner bool) []vStmt {
	var out []vStmt
	for p.err == "" {
		p.s = strings.TrimLeft(p.s, " \t\n;")
		switch {
		case p.s == "":
			if inner {
				p.fail("a block is not closed")
			}
			return out
		case strings.HasPrefix(p.s, "}"):
			if !inner {
				p.fail("a block is closed that was not opened")
				return out
			}
			p.s = p.s[1:]
			return out
		case strings.HasPrefix(p.s, "if ") || strings.HasPrefix(p.s, "if("):
			c := p.until('{')
			out = append(out, vStmt{kind: "if", text: strings.TrimSpace(c[2:]), body: p.block(true)})
		case strings.HasPrefix(p.s, "try"):
			p.until('{')
			b := p.block(true)
			p.s = strings.TrimLeft(p.s, " \t\n")
			if !strings.HasPrefix(p.s, "catch") {
				p.fail("try without catch")
				return out
			}
			p.until('{')
			c := p.block(true)
			out = append(out, vStmt{kind: "try", body: b}, vStmt{kind: "catch", body: c})
		case strings.HasPrefix(p.s, "◌"):
			p.s = p.s[len("◌"):]
			out = append(out, vStmt{kind: "loop"})
		default:
			c := p.line()
			if strings.HasPrefix(c, "return ") {
				out = append(out, vStmt{kind: "return", text: strings.TrimSpace(c[7:])})
			} else if c != "" {
				out = append(out, vStmt{kind: "do", text: c})
			}
		}
	}
	return out
}

// until cuts the text up to an opening brace outside quotes and parentheses.
func (p *vParser) until(end byte) string {
	d, q := 0, byte(0)
	for i := 0; i < len(p.s); i++ {
		c := p.s[i]
		switch {
		case q != 0:
			if c == '\\' {
				i++
			} else if c == q {
				q = 0
			}
		case c == '"' || c == '\'':
			q = c
		case c == '(':
			d++
		case c == ')':
			d--
		case c == end && d == 0:
			r := p.s[:i]
			p.s = p.s[i+1:]
			return r
		}
	}
	p.fail("no " + string(end))
	r := p.s
	p.s = ""
	return r + "  "
}

func (p *vParser) line() string {
	i := strings.IndexAny(p.s, ";\n}")
	if i < 0 {
		i = len(p.s)
	}
	r := p.s[:i]
	p.s = p.s[i:]
	return strings.TrimSpace(r)
}

// vAtoms are the alternatives of a condition, in a common form.
func vAtoms(lang, c string) []string {
	c = strings.TrimSpace(c)
	for strings.HasPrefix(c, "(") && closes(c) {
		c = strings.TrimSpace(c[1 : len(c)-1])
	}
	var out []string
	d, q, at := 0, byte(0), 0
	for i := 0; i < len(c); i++ {
		switch x := c[i]; {
		case q != 0:
			if x == '\\' {
				i++
			} else if x == q {
				q = 0
			}
		case x == '"' || x == '\'':
			q = x
		case x == '(':
			d++
		case x == ')':
			d--
		case x == '|' && d == 0 && i+1 < len(c) && c[i+1] == '|':
			out = append(out, vAtoms(lang, c[at:i])...)
			i++
			at = i + 1
		}
	}
	if at > 0 {
		return append(out, vAtoms(lang, c[at:])...)
	}
	return []string{vAtom(lang, c)}
}

// closes: the first parenthesis is closed by the last.
func closes(c string) bool {
	d := 0
	for i := 0; i < len(c); i++ {
		switch c[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i == len(c)-1
			}
		}
	}
	return false
}

var vValues = map[string][][2]string{
	"go": {
		{`i.GetF().UnixMilli()`, `MS`}, {`utf8.RuneCountInString(i.GetF())`, `LEN`}, {`len([]rune(i.GetF()))`, `LEN`},
		{`len(i.GetF().ToName())`, `NAME`}, {`len(i.GetF())`, `BYTES`}, {`i.GetF().Val`, `VAL`}, {`i.GetF()`, `V`}, {`i.F`, `P`},
		{`decimal.NewFromFloat(m)`, `m`}, {`decimal.NewFromFloat(M)`, `M`},
		{`decimal.RequireFromString("m")`, `m`}, {`decimal.RequireFromString("M")`, `M`},
		{`.GreaterThan`, `.>`}, {`.LessThan`, `.<`},
	},
	"dart": {
		{`text!`, `text`}, {`(text?.length??0)`, `LEN`}, {`text.length`, `LEN`},
		{`DateTime.parse(text).millisecondsSinceEpoch`, `MS`}, {`DateTime.tryParse(text)`, `DATE`},
		{`Decimal.tryParse(text)`, `NUM`}, {`Decimal.parse(text)`, `V`},
		{`Decimal.parse("m")`, `m`}, {`Decimal.parse("M")`, `M`},
	},
	"ts": {
		{`value!`, `value`}, {`(value?.length??0)`, `LEN`}, {`value.length`, `LEN`},
		{`Date.parse(value)`, `MS`}, {`newd.Decimal("m")`, `m`}, {`newd.Decimal("M")`, `M`}, {`newd.Decimal(value)`, `V`},
		{`.greaterThan`, `.>`}, {`.lessThan`, `.<`},
	},
}

var (
	vRange = regexp.MustCompile(`(?:newd\.Decimal|Decimal\.parse)\("(-?[0-9.]+)"\)`)
	vCmp   = regexp.MustCompile(`^([^<>=()]+?)\.?(<=?|>=?)\(?([^<>=()]+?)\)?$`)
	vMatch = regexp.MustCompile(`^!(?:newRegExp|RegExp)\("(.*)"\)\.(?:hasMatch|test)\((?:text|value)\)$`)
)

func vAtom(lang, c string) string {
	// A regular expression is kept as it is.
	if m := vMatch.FindStringSubmatch(strings.Replace(strings.NewReplacer("new RegExp", "newRegExp", "text!", "text", "value!", "value").Replace(c), " ", "", 0)); m != nil {
		return "!~" + m[1]
	}
	c = strings.ReplaceAll(c, " ", "")
	for _, r := range vValues[lang] {
		c = strings.ReplaceAll(c, r[0], r[1])
	}
	if lang == "ts" {
		c = regexp.MustCompile(`\bval\b`).ReplaceAllString(c, "V")
	}
	c = vRange.ReplaceAllString(c, "$1")
	if m := vCmp.FindStringSubmatch(c); m != nil {
		l, op, r := m[1], m[2], m[3]
		if lim := regexp.MustCompile(`^(?:[mM](?:ₘₛ)?|-?[0-9.]+)$`); lim.MatchString(l) && !lim.MatchString(r) {
			l, r = r, l
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		}
		return l + op + r
	}
	return c
}

// vRejects are the conditions under which the statements of one format reject,
// in order; bad says what is not understood.
func vRejects(lang string, ss []vStmt) (atoms []string, bad string) {
	rejects := func(b []vStmt) bool { return len(b) == 1 && b[0].kind == "return" && b[0].text == "REJECT" }
	for i := 0; i < len(ss); i++ {
		s := ss[i]
		switch {
		case s.kind == "if" && rejects(s.body):
			atoms = append(atoms, vAtoms(lang, s.text)...)
		case s.kind == "if" && len(s.body) == 1 && s.body[0].kind == "return" && s.body[0].text == "OK":
			atoms = append(atoms, "accept "+strings.Join(vAtoms(lang, s.text), "|"))
		case lang == "go" && s.kind == "do" && strings.HasPrefix(s.text, "match, err "):
			m := regexp.MustCompile(`^match, err (:?=) regexp\.MatchString\("(.*)", i\.GetF\(\)\)$`).FindStringSubmatch(s.text)
			if m == nil || i+2 >= len(ss) || ss[i+1].kind != "if" || ss[i+1].text != "err != nil" || len(ss[i+1].body) != 1 || ss[i+1].body[0].text != "err" ||
				ss[i+2].kind != "if" || ss[i+2].text != "!match" || !rejects(ss[i+2].body) {
				return nil, "the expression is not matched as expected: " + s.text
			}
			atoms = append(atoms, "declare"+m[1], "!~"+m[2])
			i += 2
		case s.kind == "try" && i+1 < len(ss) && ss[i+1].kind == "catch":
			if !rejects(ss[i+1].body) {
				return nil, "a value that is no number is not rejected"
			}
			b := s.body
			if len(b) == 0 || b[0].kind != "do" || strings.ReplaceAll(strings.ReplaceAll(b[0].text, "!", ""), " ", "") != "constval=newd.Decimal(value)" {
				return nil, "the value is not converted to a number"
			}
			a, w := vRejects(lang, b[1:])
			if w != "" {
				return nil, w
			}
			atoms = append(append(atoms, "NUM"), a...)
			i++
		default:
			return nil, fmt.Sprintf("%s %q is not expected%s", s.kind, s.text, first(s.body))
		}
	}
	for i, a := range atoms {
		switch a {
		case "null==NUM", "NUM==null":
			atoms[i] = "NUM"
		case "null==DATE", "DATE==null", "isNaN(MS)":
			atoms[i] = "DATE"
		case "0==NAME", "NAME==0":
			atoms[i] = "NAME"
		}
	}
	return atoms, ""
}

var vRanges = map[string][2]string{
	"int8": {"-128", "127"}, "int16": {"-32768", "32767"}, "int32": {"-2147483648", "2147483647"}, "int64": {"-9223372036854775808", "9223372036854775807"},
	"uint8": {"0", "255"}, "uint16": {"0", "65535"}, "uint32": {"0", "4294967295"}, "uint64": {"0", "18446744073709551615"},
}

// wantRejects is the set of conditions a format of a field stands for.
func wantRejects(lang string, v verifyCase) []string {
	if v.Shape.Cont != "" {
		return nil
	}
	var out []string
	lim := func(x, sub string) {
		if v.Min {
			out = append(out, x+"<m"+sub)
		}
		if v.Max {
			out = append(out, x+">M"+sub)
		}
	}
	num := false
	switch b := v.Shape.Base; b {
	case "string":
		lim("LEN", "")
		if v.Reg {
			out = append(out, "!~R")
		}
	case "date":
		if lang != "go" {
			out = append(out, "DATE")
		}
		lim("MS", "ₘₛ")
	case "enum":
		if lang == "go" {
			out = append(out, "NAME")
		}
	case "data", "bool":
	case "int64", "uint64":
		if lang == "go" {
			lim("VAL", "")
		} else {
			lim("V", "")
		}
		num = true
	default:
		lim("V", "")
		num = true
	}
	if num && lang != "go" {
		d := "$"
		if lang == "dart" {
			d = `\$`
		}
		re := `^-?[0-9]+` + d
		switch b := v.Shape.Base; b {
		case "float", "double", "decimal":
			re = `^-?[0-9]+(\\.[0-9]+)?` + d
			if b == "decimal" && v.Reg {
				out = append(out, "!~R")
			}
		default:
			if strings.HasPrefix(b, "u") {
				re = `^[0-9]+` + d
			}
			out = append(out, "V<"+vRanges[b][0], "V>"+vRanges[b][1])
		}
		out = append(out, "!~"+re, "NUM")
	}
	sort.Strings(out)
	return out
}

// wantNull is the condition under which a value counts as absent.
func wantNull(lang string, v verifyCase) string {
	switch lang {
	case "go":
		if v.Shape.Base == "string" && v.Shape.Cont == "" {
			return "BYTES==0|P==nil"
		}
		return "P==nil"
	case "dart":
		return "text?.isEmpty??true"
	}
	return "value==''|value=='null'|value=='undefined'"
}

func flipNull(a string) string {
	for _, n := range []string{"nil", "0", "null", "''", "'null'", "'undefined'"} {
		if strings.HasPrefix(a, n+"==") {
			return strings.TrimPrefix(a, n+"==") + "==" + n
		}
	}
	return a
}

func (v verifyCase) label() string {
	s := v.Shape.String()
	for _, x := range []struct {
		b bool
		n string
	}{{v.Min, "min"}, {v.Max, "max"}, {v.Reg, "reg"}, {v.Null, "null"}} {
		if x.b {
			s += " " + x.n
		}
	}
	return s
}

func verifyCases(thorough bool) []verifyCase {
	var out []verifyCase
	for _, b := range append(append([]string{}, scalars...), "enum", "data") {
		s := Shape{Base: b}
		for f := 0; f < 8; f++ {
			c := verifyCase{Shape: s, Min: f&1 > 0, Max: f&2 > 0, Reg: f&4 > 0}
			if c.Reg && b != "string" && b != "decimal" && !thorough && f != 7 {
				continue
			}
			out = append(out, c)
			n := c
			n.Shape.Null = true
			if f == 7 || f == 0 || thorough {
				out = append(out, n)
				n.Null = true
				out = append(out, n)
			}
		}
	}
	for _, s := range []Shape{{Cont: "array", Base: "string"}, {Cont: "map", Base: "int32", Key: "string"}} {
		out = append(out, verifyCase{Shape: s, Min: true, Max: true, Reg: true})
		s.Null = true
		out = append(out, verifyCase{Shape: s, Min: true, Max: true, Reg: true}, verifyCase{Shape: s, Null: true, Min: true, Max: true, Reg: true})
	}
	return out
}

var vHead = map[string]*regexp.Regexp{
	"go":   regexp.MustCompile(`(?s)^func \(i \*D\) VerifyF\(ctx context\.Context\) error \{(.*)\}$`),
	"dart": regexp.MustCompile(`(?s)^String\? verifyD_F\(BuildContext context, String\? text\) \{(.*)\}$`),
	"ts":   regexp.MustCompile(`(?s)^export const verifyD_F = \(locale: LocaleContext\) => \(rule: any, value: any, callback: any\): any => \{(.*)\}$`),
}

// checkVerify compares what was written for one case with what it stands for.
func checkVerify(lang string, v verifyCase, r regRun, say func(rule, why string), loops map[string]string) (formats int) {
	heads, calls := 0, 0
	var firsts, others int
	for _, t := range r.trips {
		if t.Kind != "ast.Field" && t.Kind != "build.VerifyEnum" {
			continue
		}
		var keys []string
		for k := range t.Text {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if t.Kind == "ast.Field" {
			for _, k := range keys {
				x := strings.TrimSpace(verifySyms(lang, t.Text[k]))
				if m := vHead[lang].FindStringSubmatch(x); m != nil {
					heads++
					ss, bad := parseVerify(lang, m[1])
					if lang == "ts" && len(ss) > 0 && ss[0].kind == "do" && ss[0].text == "value = '' + value" {
						ss = ss[1:]
					}
					n := 0
					for len(ss) > 0 && ss[0].kind == "loop" {
						ss = ss[1:]
						n++
					}
					silent := len(wantRejects(lang, v)) == 0 && !v.Shape.Null
					if bad != "" || len(ss) != 1 || ss[0].text != "OK" || n > 1 || n == 0 && !silent {
						say("body", fmt.Sprintf("the function of a field is %q", clip(x)))
					}
					loops[t.At] = why(t)
					continue
				}
				if lang == "go" && strings.Contains(x, "VerifyF(ctx)") {
					y := strings.TrimSpace(strings.TrimPrefix(x, "var err error"))
					if regexp.MustCompile(`^(?:err :?= i\.VerifyF\(ctx\)\s+if err != nil \{\s+return err\s+\}|if err :?= i\.VerifyF\(ctx\); err != nil \{\s+return err\s+\})$`).MatchString(y) {
						calls++
						declares := y != x
						later := strings.Contains(t.Lead[k], "‹loop")
						if declares && later || strings.HasPrefix(y, "err = ") && !declares && !later && !strings.Contains(t.Lead[k], "var err error") {
							say("call", "the error of Verify of the data is declared twice, or not at all")
						}
						loops[t.At] = why(t)
					} else {
						say("call", fmt.Sprintf("Verify of the data calls that of a field as %q", clip(x)))
					}
				} else if strings.Contains(x, "erifyD_F") || strings.Contains(x, "VerifyF") {
					say("head", fmt.Sprintf("the function of a field is %q", clip(x)))
				}
			}
			continue
		}
		text, lead := "", ""
		for _, k := range keys {
			text += t.Text[k]
			lead += t.Lead[k]
		}
		first := !strings.Contains(lead, "‹loop")
		loops[t.At] = why(t)
		ss, bad := parseVerify(lang, verifySyms(lang, text))
		if bad != "" {
			say("text", bad)
			continue
		}
		atoms, bad := vRejects(lang, ss)
		if bad != "" {
			say("text", bad)
			continue
		}
		formats++
		null := ""
		if v.Shape.Null && len(atoms) > 0 {
			n := 1
			if !v.Null {
				// The rejection of null values consists of leading comparisons.
				n = strings.Count(wantNull(lang, v), "|") + 1
			}
			if n <= len(atoms) {
				as := append([]string{}, atoms[:n]...)
				if v.Null {
					as = strings.Split(strings.TrimPrefix(atoms[0], "accept "), "|")
				}
				for i := range as {
					as[i] = flipNull(as[i])
				}
				sort.Strings(as)
				if strings.Join(as, "|") == wantNull(lang, v) && v.Null == strings.HasPrefix(atoms[0], "accept ") {
					null, atoms = wantNull(lang, v), atoms[n:]
				}
			}
		}
		switch {
		case null != "":
			firsts++
		case v.Shape.Null:
			others++
		}
		if first && null == "" && v.Shape.Null && t.Text != nil && len(t.Lead) > 0 {
			say("null", fmt.Sprintf("the first format does not decide about null values: %q", clip(verifySyms(lang, text))))
		}
		if !first && null != "" {
			say("null", "a later format decides about null values")
		}
		got := []string{}
		for i := 0; i < len(atoms); i++ {
			if strings.HasPrefix(atoms[i], "declare") {
				if first && atoms[i] != "declare:=" {
					say("declare", "the first match assigns variables that are not declared")
				} else if !first && atoms[i] == "declare:=" {
					say("declare", "a later match declares its variables again")
				}
				continue
			}
			got = append(got, atoms[i])
		}
		sort.Strings(got)
		want := wantRejects(lang, v)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			miss, more := diff(want, got), diff(got, want)
			say("rejects", fmt.Sprintf("a format does not reject on [%s] and rejects on [%s]", strings.Join(miss, " "), strings.Join(more, " ")))
		}
	}
	if heads == 0 {
		say("head", "no verify function is written for a field")
	}
	if lang == "go" && calls == 0 {
		say("call", "Verify of the data does not call that of the field")
	}
	if formats == 0 && !(len(wantRejects(lang, v)) == 0 && !v.Shape.Null) {
		say("formats", "nothing is written for a format")
	}
	if v.Shape.Null && firsts == 0 {
		say("null", "no format decides about null values")
	}
	_ = others
	return formats
}

func why(t Trip) string {
	if t.In == nil {
		return "is not known"
	}
	return exhaustiveLoop(loopsOf(t.In.Parent()), t.In)
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if r := []rune(s); len(r) > 160 {
		s = string(r[:160]) + "…"
	}
	return s
}

func diff(a, b []string) []string {
	var out []string
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x] == 0 {
			out = append(out, x)
		} else {
			n[x]--
		}
	}
	return out
}

func runVerify(langs ...string) func(P *Program, rep *Report, cov Coverage, tier string) {
	return func(P *Program, rep *Report, cov Coverage, tier string) {
		backs := map[string]Backend{}
		for _, b := range P.backends() {
			backs[b.Name] = b
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan int, 8)
		steps, forms, runs := 0, 0, 0
		loops := map[string]string{}
		type miss struct {
			n   int
			msg string
		}
		bad := map[string]*miss{}
		for _, l := range langs {
			b, ok := backs[l]
			if !ok {
				rep.add("anchor|backend|"+l, "no generator is registered under the name "+l)
				continue
			}
			for _, v := range verifyCases(tier == "thorough") {
				wg.Add(1)
				sem <- 1
				go func(l string, b Backend, v verifyCase) {
					defer func() { <-sem; wg.Done() }()
					defer rep.guard()
					r := runScenario(P, b, verifyScenario(v))
					mu.Lock()
					defer mu.Unlock()
					for _, u := range r.undecided {
						rep.undecide(l + " " + v.label() + ": " + u)
					}
					runs++
					steps += r.steps
					lo := map[string]string{}
					forms += checkVerify(l, v, r, func(rule, w string) {
						k := l + "|" + rule + "|" + v.Shape.Base + v.Shape.Cont
						if bad[k] == nil {
							bad[k] = &miss{msg: l + " verify of " + v.label() + ": " + w}
						}
						bad[k].n++
					}, lo)
					for at, w := range lo {
						if w != "" {
							loops[at] = w
						} else if _, ok := loops[at]; !ok {
							loops[at] = ""
						}
					}
				}(l, b, v)
			}
		}
		wg.Wait()
		for k, m := range bad {
			rep.add(k, m.msg)
		}
		for at, w := range loops {
			if w != "" {
				rep.add("loop|"+at[:strings.LastIndex(at, ":")], "the loop at "+at+" "+w)
			}
		}
		cov["cases_interpreted"] = runs
		cov["block_visits"] = steps
		cov["formats_compared"] = forms
		cov["loops_checked_exhaustive"] = len(loops)
	}
}

func init() {
	register("P12", "Abstract interpretation of the Go generator for every type of field and every combination of limits; the verify functions are parsed and their conditions compared with the formats.", runVerify("go"))
	register("P13", "Abstract interpretation of the Dart and TypeScript generators for every type of field and every combination of limits; the verify functions are parsed and their conditions compared with the formats and the ranges of the types.", runVerify("dart", "ts"))
}

// first shows what a block begins with.
func first(b []vStmt) string {
	if len(b) == 0 {
		return ""
	}
	return fmt.Sprintf(" (%s %s)", b[0].kind, clip(b[0].text))
}
