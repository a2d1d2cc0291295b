package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// errorKeys lists the errors of a result.
func errorKeys(r *gjs.Result) []string {
	var out []string
	for _, e := range r.Errors() {
		out = append(out, e.Context().String()+"|"+e.Type()+"|"+subjectOf(e)+"|"+e.Description())
	}
	return out
}

// sameKeys reports whether two lists hold the same keys as often.
func sameKeys(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		hit := false
		for k, y := range b {
			if !used[k] && x == y {
				used[k], hit = true, true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// shuffled compiles and validates once in insertion order and once with every map
// iterated in an arbitrary order, and asserts that nothing but the order of the errors
// differs.
func shuffled(s, v interface{}) {
	c1, c2 := ref.Clone(s), ref.Clone(s)
	sch1, err1 := gjs.NewSchema(gjs.NewRawLoader(c1))
	sym.MapOrder(true)
	sch2, err2 := gjs.NewSchema(gjs.NewRawLoader(c2))
	sym.MapOrder(false)
	sym.Assert((err1 == nil) == (err2 == nil), "whether the schema compiles depends on the order of its members")
	sym.Observe("compiles", err1 == nil)
	if err1 != nil {
		sym.Cover("refused")
		return
	}
	r1 := run(sch1, v)
	sym.MapOrder(true)
	r2 := run(sch2, v)
	sym.MapOrder(false)
	sym.Assert(r1.Valid() == r2.Valid(), "whether the instance is valid depends on the order of members")
	sym.Assert(sameKeys(errorKeys(r1), errorKeys(r2)), "the reported errors depend on the order of members")
	if r1.Valid() {
		sym.Cover("valid")
	} else {
		sym.Cover("invalid")
	}
}

// H_C18_members: objects of 2 members (any names out of a-c, A; values free digits) under
// overlapping patterns, properties, additionalProperties, propertyNames, required: every
// order of every map.
func H_C18_members() {
	var s M
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"patternProperties": M{"a": M{"minimum": N("4")}, "^[ab]$": M{"maximum": N("6")}}, "additionalProperties": false}
	case 1:
		s = M{"properties": M{"a": M{"minimum": N("4")}, "b": M{"maximum": N("5")}}, "additionalProperties": M{"maximum": N("2")}}
	case 2:
		s = M{"propertyNames": M{"enum": A{"a", "b"}}, "properties": M{"a": M{"multipleOf": N("2")}}}
	case 3:
		s = M{"patternProperties": M{"[ab]": M{"minimum": N("4")}}, "properties": M{"a": M{"maximum": N("5")}}, "additionalProperties": false}
	default:
		s = M{"anyOf": A{M{"properties": M{"a": M{"minimum": N("4")}, "b": M{"type": "string"}}}, M{"additionalProperties": M{"maximum": N("5")}, "required": A{"a"}}}}
	}
	v := M{sym.Str("k0", 1, "a-cA"): num("v0", "d"), sym.Str("k1", 1, "a-cA"): num("v1", "d")}
	shuffled(s, v)
}

// H_C18_depend: dependencies on names and schemas, two members present or not.
func H_C18_depend() {
	s := M{"dependencies": M{"a": A{"c"}, "b": M{"properties": M{"a": M{"maximum": N("5")}}, "required": A{"d"}}}, "maxProperties": N("1")}
	v := M{}
	n := sym.Choose("n", 4)
	if n&1 != 0 {
		v["a"] = num("v0", "d")
	}
	if n&2 != 0 {
		v["b"] = num("v1", "d")
	}
	if sym.Choose("c", 2) == 1 {
		v["c"] = nil
	}
	shuffled(s, v)
}

// H_C18_refs: definitions that refer to each other, in every order of the definitions,
// of the keywords and of the properties.
func H_C18_refs() {
	leaf := M{"minimum": N("4")}
	var s M
	v := interface{}(num("v", "d"))
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"definitions": M{"a": M{"$ref": "#/definitions/b"}, "b": leaf}, "$ref": "#/definitions/a"}
	case 1:
		s = M{"definitions": M{"a": M{"$ref": "#/definitions/b", "type": "string"}, "b": leaf}, "items": A{M{"$ref": "#/definitions/b"}, M{"$ref": "#/definitions/a"}}}
		v = A{v, num("w", "d")}
	case 2:
		s = M{"properties": M{"p": M{"$ref": "#/definitions/a"}, "q": M{"$ref": "#/properties/p"}}, "definitions": M{"a": leaf}}
		v = M{"p": v, "q": num("w", "d")}
	case 3:
		s = M{"definitions": M{"a": M{"$id": "http://h/a.json", "definitions": M{"x": leaf}, "$ref": "#/definitions/x"}, "b": M{"$ref": "http://h/a.json#/definitions/x"}}, "$ref": "#/definitions/b"}
	default:
		s = M{"definitions": M{"n": M{"properties": M{"n": M{"$ref": "#/definitions/n"}, "v": leaf}}}, "$ref": "#/definitions/n"}
		v = M{"n": M{"v": v}, "v": num("w", "d")}
	}
	shuffled(s, v)
}

// H_C18_ids: identifiers in several subschemas; references resolve alike in every order.
func H_C18_ids() {
	s := M{"$id": "http://h/r.json", "definitions": M{
		"a": M{"$id": "d/a.json", "definitions": M{"t": M{"$id": "t.json", "const": N("1")}}, "$ref": "t.json"},
		"b": M{"$id": "t.json", "const": N("2")}}}
	if sym.Choose("set", 2) == 0 {
		s["items"] = A{M{"$ref": "t.json"}, M{"$ref": "d/a.json#/definitions/t"}}
		shuffled(s, A{num("v", "d"), N("1")})
		return
	}
	s["items"] = M{"$id": "d/x.json", "items": M{"$ref": "t.json"}}
	shuffled(s, A{A{num("x", "d")}})
}

// H_C18_refused: schemas with one or several malformed members are refused in every order.
func H_C18_refused() {
	bad := func(n string) interface{} {
		if sym.Choose(n, 2) == 0 {
			return M{"type": "string"}
		}
		return M{"minLength": num(n+".v", "-n")}
	}
	var s M
	switch sym.Choose("set", 4) {
	case 0:
		s = M{"properties": M{"a": bad("a"), "b": bad("b")}}
	case 1:
		s = M{"definitions": M{"a": bad("a"), "b": bad("b")}, "$ref": "#/definitions/a"}
	case 2:
		s = M{"patternProperties": M{"a": bad("a"), "b": bad("b")}, "dependencies": M{"a": bad("c")}}
	default:
		s = M{"dependencies": M{"a": bad("a"), "b": bad("b"), "c": A{"d"}}}
	}
	shuffled(s, M{"a": "x", "b": "x"})
}

// H_C18_equal: enum, const and uniqueItems on objects with their members in every order.
func H_C18_equal() {
	o := func(n string) M { return M{"a": num(n+".a", "d"), "b": M{"c": num(n+".c", "d"), "d": "x"}} }
	v := o("v")
	switch sym.Choose("set", 3) {
	case 0:
		shuffled(M{"enum": A{o("e"), "x"}}, v)
	case 1:
		shuffled(M{"const": o("e")}, v)
	default:
		shuffled(M{"uniqueItems": true}, A{o("e"), v})
	}
}
