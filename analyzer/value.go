package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an abstract value: a constant, a symbolic access path / application,
// a text (concatenation), an allocated object, an address, or a function.
// Values are interned, so equality is pointer equality.
type V struct {
	id    int
	Op    string // const, nil, zero, sym ops...
	C     constant.Value
	S     string // operator payload: field name, function name, ...
	Args  []*V
	T     types.Type
	Fn    *ssa.Function
	sites []int // program-point symbols this value mentions (sorted)
	str   string
}

type vtab struct {
	m      map[string]*V
	nsite  int
	siteK  map[string]int
	alts   map[*V][]*V // joined symbol -> the values it may be (bounded)
	altTop map[*V]bool
}

func newVtab() *vtab {
	return &vtab{m: map[string]*V{}, siteK: map[string]int{}, alts: map[*V][]*V{}, altTop: map[*V]bool{}}
}

func (t *vtab) site(key string) int {
	if n, ok := t.siteK[key]; ok {
		return n
	}
	t.nsite++
	t.siteK[key] = t.nsite
	return t.nsite
}

func mergeSites(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	m := append(append([]int{}, a...), b...)
	sort.Ints(m)
	o := m[:1]
	for _, x := range m[1:] {
		if x != o[len(o)-1] {
			o = append(o, x)
		}
	}
	return o
}

func (t *vtab) mk(op, s string, typ types.Type, site int, args ...*V) *V {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(site))
	for _, a := range args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteString("_")
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if v, ok := t.m[k]; ok {
		if v.T == nil && typ != nil {
			v.T = typ
		}
		return v
	}
	v := &V{id: len(t.m) + 1, Op: op, S: s, T: typ, Args: args}
	for _, a := range args {
		if a != nil {
			v.sites = mergeSites(v.sites, a.sites)
		}
	}
	if site != 0 {
		v.sites = mergeSites(v.sites, []int{site})
	}
	t.m[k] = v
	return v
}

func (t *vtab) konst(c constant.Value, typ types.Type) *V {
	k := "const|" + strconv.Itoa(int(c.Kind())) + "|" + c.ExactString()
	if v, ok := t.m[k]; ok {
		return v
	}
	v := &V{id: len(t.m) + 1, Op: "const", C: c, T: typ}
	t.m[k] = v
	return v
}

func (t *vtab) str(s string) *V   { return t.konst(constant.MakeString(s), types.Typ[types.String]) }
func (t *vtab) boolean(b bool) *V { return t.konst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (t *vtab) integer(i int64) *V {
	return t.konst(constant.MakeInt64(i), types.Typ[types.Int])
}
func (t *vtab) nilv() *V { return t.mk("nil", "", types.Typ[types.UntypedNil], 0) }

func (t *vtab) fnv(fn *ssa.Function, binds ...*V) *V {
	v := t.mk("fn", fn.String()+"@"+strconv.Itoa(int(fn.Pos())), fn.Signature, 0, binds...)
	v.Fn = fn
	return v
}

func (v *V) isConst() bool { return v != nil && v.Op == "const" }
func (v *V) constStr() (string, bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}
func (v *V) constBool() (bool, bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}
func (v *V) constInt() (int64, bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func (v *V) mentions(site int) bool {
	i := sort.SearchInts(v.sites, site)
	return i < len(v.sites) && v.sites[i] == site
}

// concat builds the text a+b, flattening and merging literals.
func (t *vtab) concat(vs ...*V) *V {
	var parts []*V
	for _, v := range vs {
		if v == nil {
			continue
		}
		ps := []*V{v}
		if v.Op == "cat" {
			ps = v.Args
		}
		for _, p := range ps {
			if s, ok := p.constStr(); ok {
				if s == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if s0, ok := parts[n-1].constStr(); ok {
						parts[n-1] = t.str(s0 + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return t.str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return t.mk("cat", "", types.Typ[types.String], 0, parts...)
}

// textParts splits a text into literals and holes.
func textParts(v *V) []*V {
	if v.Op == "cat" {
		return v.Args
	}
	return []*V{v}
}

// String renders the provenance of a value, without program-point ids, so that
// it is stable under refactoring.
func (v *V) String() string {
	if v == nil {
		return "_"
	}
	if v.str != "" {
		return v.str
	}
	s := v.render()
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	v.str = s
	return s
}

func (v *V) render() string {
	arg := func(i int) string {
		if i < len(v.Args) {
			return v.Args[i].String()
		}
		return "_"
	}
	all := func() string {
		var o []string
		for i := range v.Args {
			o = append(o, arg(i))
		}
		return strings.Join(o, ", ")
	}
	switch v.Op {
	case "const":
		if s, ok := v.constStr(); ok {
			return strconv.Quote(s)
		}
		return v.C.ExactString()
	case "nil":
		return "nil"
	case "param":
		return v.S
	case "field":
		return arg(0) + "." + v.S
	case "as":
		return arg(0)
	case "index":
		return arg(0) + "[·]"
	case "call":
		return v.S + "(" + all() + ")"
	case "ext":
		return arg(0) + "#" + v.S
	case "cat":
		var o []string
		for i := range v.Args {
			o = append(o, arg(i))
		}
		return strings.Join(o, "+")
	case "lookup":
		return arg(0) + "[" + arg(1) + "]"
	case "global":
		return v.S
	case "content":
		return "content(" + arg(0) + ")"
	case "join":
		if v.T != nil {
			return "‹" + typeShort(v.T) + "›"
		}
		return "‹?›"
	case "obj":
		return "new(" + v.S + ")"
	case "&.":
		return "&" + arg(0) + "." + v.S
	case "fn":
		return "func " + v.Fn.Name()
	case "fresh":
		return v.S
	}
	return v.Op + ":" + v.S + "(" + all() + ")"
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// typed provenance: the trailing field path of a value from the nearest
// abstract-syntax type, e.g. "ast.Field.Name.Name".
func (v *V) typedPath() string {
	var segs []string
	x := v
	for x != nil {
		switch x.Op {
		case "fresh":
			if x.S == "owner" {
				return "owner." + strings.Join(segs, ".")
			}
			return fmt.Sprintf("%s.%s", namedOf(x.T), strings.Join(segs, "."))
		case "field":
			segs = append([]string{x.S}, segs...)
			b := x.Args[0]
			bt := namedOf(b.T)
			if b.Op == "fresh" && b.S == "owner" {
				x = b
				continue
			}
			if b.Op != "field" && b.Op != "as" || bt == "ast.Field" || bt == "ast.DataType" || bt == "ast.EnumType" || bt == "ast.EnumItem" || bt == "ast.ServerType" || bt == "ast.FuncType" || bt == "build.Format" || bt == "build.DB" {
				return bt + "." + strings.Join(segs, ".")
			}
			x = b
		case "as":
			x = x.Args[0]
		default:
			return fmt.Sprintf("%s.%s", namedOf(x.T), strings.Join(segs, "."))
		}
	}
	return strings.Join(segs, ".")
}

func namedOf(t types.Type) string {
	if t == nil {
		return "?"
	}
	t = derefT(t)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return typeShort(t)
}
