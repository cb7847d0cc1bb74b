package main

import (
	"go/token"
	"go/types"
)

// Shape says what is known about the type of a field.
type Shape struct {
	Cont string // "", "array", "map"
	Base string // a scalar name, "enum", "data"
	Null bool   // the field (or container) is nullable
	VNul bool   // the element of the container is nullable
	Key  string // base of a map key
	Doc  bool   // with or without documentation, and with tags of no meaning
}

func (s Shape) String() string {
	if s.Doc {
		s.Doc = false
		return s.String() + " (documented, tagged)"
	}
	b := s.Base
	q := func(n bool) string {
		if n {
			return "?"
		}
		return ""
	}
	switch s.Cont {
	case "array":
		return b + q(s.VNul) + "[]" + q(s.Null)
	case "map":
		return b + q(s.VNul) + "<" + s.Key + ">" + q(s.Null)
	}
	return b + q(s.Null)
}

var scalars = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "string", "date"}

type scen struct {
	e  *Engine
	st *State
}

func (k scen) f(v *V, name string) *V {
	t := v.T
	if s, ok := derefT(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return k.e.field(v, name, s.Field(i).Type())
			}
		}
	}
	panic("no field " + name + " in " + typeShort(t))
}
func (k scen) eq(v *V, c *V) {
	k.st.mem.eq[v] = c
	if c.Op == "nil" {
		k.st.mem.facts[k.e.T.mk("==", "", types.Typ[types.Bool], 0, v, c)] = true
	} else {
		k.st.mem.facts[k.e.T.mk("==", "", types.Typ[types.Bool], 0, v, k.e.T.nilv())] = false
	}
}
func (k scen) nonnil(v *V) {
	k.st.mem.facts[k.e.T.mk("==", "", types.Typ[types.Bool], 0, v, k.e.T.nilv())] = false
}
func (k scen) empty(v *V) {
	k.eq(v, k.e.T.nilv())
	k.st.mem.facts[k.e.T.mk("nonempty", "", types.Typ[types.Bool], 0, v)] = false
}
func (k scen) nonempty(v *V) {
	k.nonnil(v)
	k.st.mem.facts[k.e.T.mk("nonempty", "", types.Typ[types.Bool], 0, v)] = true
}
func (k scen) boolean(v *V, b bool) {
	k.st.mem.eq[v] = k.e.T.boolean(b)
	k.st.mem.facts[v] = b
}

// is fixes the dynamic type of an interface value and returns it converted.
func (k scen) is(v *V, t types.Type) *V {
	k.st.mem.dyn[v] = t
	k.nonnil(v)
	k.st.mem.facts[k.e.isCond(v, t)] = true
	return k.e.T.mk("as", typeShort(t), t, 0, v)
}
func (k scen) ptr(pkg, name string) types.Type {
	return types.NewPointer(k.e.P.namedType(pkg, name))
}

func (k scen) ident(expr *V, base string) {
	id := k.is(expr, k.ptr("ast", "Ident"))
	obj := k.f(id, "Obj")
	switch base {
	case "enum", "data":
		k.nonnil(obj)
		k.st.mem.eq[k.f(obj, "Kind")] = k.kind(base)
		k.is(k.f(obj, "Data"), k.ptr("ast", "File"))
		ts := k.is(k.f(obj, "Decl"), k.ptr("ast", "TypeSpec"))
		tn := "EnumType"
		if base == "data" {
			tn = "DataType"
		}
		k.is(k.f(ts, "Type"), k.ptr("ast", tn))
		// the checks reject declarations with the name of a scalar
		for _, n := range scalars {
			k.e.assume(k.st, k.e.cmp(k.st, token.EQL, k.f(id, "Name"), k.e.T.str(n)), false)
		}
	default:
		k.eq(obj, k.e.T.nilv())
		k.st.mem.eq[k.f(id, "Name")] = k.e.T.str(base)
	}
}

func (k scen) kind(base string) *V {
	name := "Data"
	if base == "enum" {
		name = "Enum"
	}
	sp := k.e.P.SSA[modPath+"/pkg/ast"]
	o := sp.Pkg.Scope().Lookup(name)
	return k.e.T.konst(o.(*types.Const).Val(), o.Type())
}

func (k scen) varType(vt *V, base string, null bool) {
	k.nonnil(vt)
	k.boolean(k.f(vt, "Empty"), null)
	k.ident(k.f(vt, "TypeExpr"), base)
}

// shape fixes the type of a field.
func (k scen) shape(ft *V, s Shape) {
	switch s.Cont {
	case "":
		k.varType(k.is(ft, k.ptr("ast", "VarType")), s.Base, s.Null)
	case "array":
		a := k.is(ft, k.ptr("ast", "ArrayType"))
		k.boolean(k.f(a, "Empty"), s.Null)
		k.varType(k.f(a, "VType"), s.Base, s.VNul)
	case "map":
		a := k.is(ft, k.ptr("ast", "MapType"))
		k.boolean(k.f(a, "Empty"), s.Null)
		k.varType(k.f(a, "VType"), s.Base, s.VNul)
		ky := k.f(a, "Key")
		k.varType(k.is(ky, k.ptr("ast", "VarType")), s.Key, false)
	}
}

// noDoc removes documentation and tags from a declaration or member.
func (k scen) plain(v *V) {
	if s, ok := derefT(v.T).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Name() {
			case "Doc", "Comment":
				k.eq(k.e.field(v, s.Field(i).Name(), s.Field(i).Type()), k.e.T.nilv())
			case "Tags":
				k.empty(k.e.field(v, "Tags", s.Field(i).Type()))
			}
		}
	}
}

// enumScenario: an enum with at least one item; doc: documentation and tags of
// no meaning to the generators may be there.
func enumScenario(doc bool) Scenario {
	return Scenario{Win: true, Spec: "EnumType", NoTag: doc, OnSpec: func(k scen, decl *V) {
		if !doc {
			k.plain(decl)
		}
		k.nonempty(k.f(decl, "Items"))
	}, OnElem: func(k scen, elem *V) {
		if !doc {
			k.plain(elem)
		}
	}}
}

// methodScenario is the scenario "every method takes a data type and returns a
// data type (or nothing) and has no tags".
func methodScenario(void, doc bool) Scenario {
	return Scenario{Win: true, Spec: "ServerType", NoTag: doc, OnSpec: func(k scen, decl *V) {
		if !doc {
			k.plain(decl)
		}
		k.nonempty(k.f(decl, "Methods"))
		k.nonempty(k.e.T.mk("members", "EnumMethod", types.NewSlice(k.ptr("ast", "FuncType")), 0, decl))
	}, OnElem: func(k scen, elem *V) {
		if namedOf(elem.T) != "ast.FuncType" {
			return
		}
		if !doc {
			k.plain(elem)
		}
		k.varType(k.f(elem, "Param"), "data", false)
		res := k.f(elem, "Result")
		if void {
			k.varType(res, "void", false)
		} else {
			k.varType(res, "data", false)
			k.st.mem.facts[k.e.T.mk("==", "", types.Typ[types.Bool], 0, k.f(k.is(k.f(res, "TypeExpr"), k.ptr("ast", "Ident")), "Name"), k.e.T.str("void"))] = false
		}
	}}
}

// enumUiScenario: nothing is known of the tags.
func enumUiScenario() Scenario {
	return Scenario{Win: true, Spec: "EnumType", OnSpec: func(k scen, decl *V) {
		k.nonempty(k.f(decl, "Items"))
	}}
}
