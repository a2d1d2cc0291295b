package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// place puts a subschema at one of the places a schema can have one, and an instance
// member where it applies.
func place(name string, s, v interface{}) (M, interface{}) {
	switch sym.Choose(name, 17) {
	case 0:
		return M{"properties": M{"p": s}}, M{"p": v}
	case 1:
		return M{"patternProperties": M{"^p$": s}}, M{"p": v}
	case 2:
		return M{"additionalProperties": s}, M{"p": v}
	case 3:
		return M{"items": s}, A{v}
	case 4:
		return M{"items": A{s}}, A{v}
	case 5:
		return M{"items": A{M{}}, "additionalItems": s}, A{nil, v}
	case 6:
		return M{"contains": s}, A{v}
	case 7:
		return M{"dependencies": M{"d": M{"properties": M{"p": s}}}}, M{"d": nil, "p": v}
	case 8:
		return M{"not": s}, v
	case 9:
		return M{"allOf": A{M{}, s}}, v
	case 10:
		return M{"anyOf": A{s, false}}, v
	case 11:
		return M{"oneOf": A{false, s}}, v
	case 12:
		return M{"if": s, "then": true, "else": false}, v
	case 13:
		return M{"if": true, "then": s}, v
	case 14:
		return M{"if": false, "else": s}, v
	case 15:
		return M{"allOf": A{M{"properties": M{"q": M{"items": s}}}}}, M{"q": A{v}}
	default:
		return M{"propertyNames": M{"anyOf": A{M{"const": "zz"}, s}}}, M{"p": v}
	}
}

// H_C11_places: a $ref to a definition, at every place of a subschema, decides like the
// definition itself; target any leaf schema, instance any scalar.
func H_C11_places() {
	t := branchSchema("t")
	v := instDigit()
	s, x := place("at", M{"$ref": "#/definitions/x"}, v)
	s["definitions"] = M{"x": t, "y": M{"not": M{}}}
	agree(s, x, "$ref")
}

// H_C11_siblings: keywords next to $ref are ignored, also when the same target was
// referenced before.
func H_C11_siblings() {
	t := M{"minimum": num("t", "d")}
	sib := M{"$ref": "#/definitions/x", "maximum": num("m", "d"), "type": "string", "enum": A{"q"}, "not": M{}, "properties": M{"a": false}}
	plain := M{"$ref": "#/definitions/x"}
	var s M
	switch sym.Choose("k", 4) {
	case 0:
		s = M{"properties": M{"p": sib}}
	case 1:
		s = M{"allOf": A{M{"properties": M{"p": plain}}, M{"properties": M{"p": sib}}}}
	case 2:
		s = M{"allOf": A{M{"properties": M{"p": sib}}, M{"properties": M{"p": plain}}}}
	default:
		s = M{"properties": M{"p": plain, "q": sib}}
	}
	s["definitions"] = M{"x": t}
	v := num("v", "d")
	agree(s, M{"p": v, "q": v}, "siblings of $ref")
}

// H_C11_pointers: pointers into any part of the document.
func H_C11_pointers() {
	t := M{"minimum": num("t", "d")}
	type c struct {
		doc M
		ptr string
	}
	cs := []c{
		{M{"properties": M{"a": t}}, "#/properties/a"},
		{M{"items": A{M{}, t}}, "#/items/1"},
		{M{"items": A{t}, "additionalItems": t}, "#/additionalItems"},
		{M{"allOf": A{M{}, M{"definitions": M{"z": t}}}}, "#/allOf/1/definitions/z"},
		{M{"patternProperties": M{"x": t}}, "#/patternProperties/x"},
		{M{"definitions": M{"a/b": t}}, "#/definitions/a~1b"},
		{M{"definitions": M{"a~b": t}}, "#/definitions/a~0b"},
		{M{"definitions": M{"a b": t}}, "#/definitions/a%20b"},
		{M{"definitions": M{"a%b": t}}, "#/definitions/a%25b"},
		{M{"definitions": M{"": t}}, "#/definitions/"},
		{M{"definitions": M{"type": t}}, "#/definitions/type"},
		{M{"definitions": M{"$ref": t}}, "#/definitions/$ref"},
		{M{"definitions": M{"0": t, "1": M{}}}, "#/definitions/0"},
		{M{"dependencies": M{"zz": t}}, "#/dependencies/zz"},
		{M{"not": M{"not": t}}, "#/not/not"},
		{M{"unknown": M{"deep": A{t}}}, "#/unknown/deep/0"},
		{M{"definitions": M{"a": M{"definitions": M{"b": t}}}}, "#/definitions/a/definitions/b"},
	}
	x := cs[sym.Choose("c", len(cs))]
	x.doc["properties"] = merge(x.doc["properties"], "p", M{"$ref": x.ptr})
	v := num("v", "d")
	got := run(compile(x.doc), M{"p": v}).Valid()
	want := ref.Valid(t, v)
	if _, dbl := x.doc["not"]; dbl {
		want = want && ref.Valid(t, M{"p": v})
	}
	sym.Assert(got == want, "$ref "+x.ptr)
}

func merge(o interface{}, k string, v interface{}) M {
	r := M{}
	if m, ok := o.(M); ok {
		for n, e := range m {
			r[n] = e
		}
	}
	r[k] = v
	return r
}

// H_C11_recursive: schemas that refer to themselves, directly or through each other.
func H_C11_recursive() {
	var s M
	switch sym.Choose("k", 4) {
	case 0:
		s = M{"type": A{"object", "integer"}, "additionalProperties": M{"$ref": "#"}}
	case 1:
		s = M{"definitions": M{"n": M{"anyOf": A{M{"type": "string"}, M{"type": "array", "items": M{"$ref": "#/definitions/n"}}}}}, "properties": M{"a": M{"$ref": "#/definitions/n"}}}
	case 2:
		s = M{"definitions": M{"x": M{"properties": M{"a": M{"$ref": "#/definitions/y"}}, "type": "object"}, "y": M{"properties": M{"b": M{"$ref": "#/definitions/x"}}, "type": A{"object", "null"}}}, "allOf": A{M{"$ref": "#/definitions/x"}}}
	default:
		s = M{"properties": M{"a": M{"$ref": "#"}, "b": M{"type": "integer"}}, "items": M{"$ref": "#"}, "additionalProperties": false}
	}
	d := 2
	if sym.Thorough() {
		d = 3
	}
	agree(s, anyVal("v", d, 1), "recursive schema")
}

// H_C11_chain: chains of up to 12 references, and a reference to a reference's sibling.
func H_C11_chain() {
	n := 1 + sym.Choose("n", 12)
	defs := M{}
	for k := 0; k < n; k++ {
		defs["d"+itoa(k)] = M{"$ref": "#/definitions/d" + itoa(k+1)}
	}
	t := branchSchema("t")
	defs["d"+itoa(n)] = t
	v := instDigit()
	got := run(compile(M{"definitions": defs, "properties": M{"p": M{"$ref": "#/definitions/d0"}}}), M{"p": v}).Valid()
	sym.Assert(got == ref.Valid(t, v), "chain of references")
}

// H_C11_dangling: a reference that cannot be resolved makes compilation fail, wherever it is.
func H_C11_dangling() {
	bad := []string{"#/definitions/nope", "#/definitions/x/nope", "#/nope", "#/items/7", "#nope", "http://absent.test/x.json", "http://absent.test/x.json#/a", "absent.json", "#/definitions/x/enum/3", "#/definitions/num"}[sym.Choose("bad", 10)]
	sym.SetHTTP(nil)
	s, _ := place("at", M{"$ref": bad}, nil)
	s["definitions"] = M{"x": M{"enum": A{"a"}}}
	if bad == "#/definitions/num" {
		s["unknown"] = N("1")
		s, _ = place("at2", M{"$ref": "#/unknown"}, nil)
		s["unknown"] = N("1")
	}
	_, err := gjs.NewSchema(gjs.NewRawLoader(s))
	sym.Assert(err != nil, "an unresolvable reference is accepted: "+bad)
}

// H_C11_literal: "$ref" as a property name, or inside enum and const, is not a reference.
func H_C11_literal() {
	lit := M{"$ref": "#/nowhere"}
	var s M
	var v interface{}
	same := sym.Bool("same")
	x := "#/nowhere"
	if !same {
		x = "#/elsewhere"
	}
	switch sym.Choose("k", 4) {
	case 0:
		s, v = M{"const": lit}, M{"$ref": x}
	case 1:
		s, v = M{"enum": A{N("1"), lit}}, M{"$ref": x}
	case 2:
		s, v = M{"properties": M{"$ref": M{"const": "#/nowhere"}}}, M{"$ref": x}
	default:
		s, v = M{"properties": M{"a": M{"properties": M{"$ref": M{"enum": A{"#/nowhere"}}}}}}, M{"a": M{"$ref": x}}
	}
	sym.Assert(run(compile(s), v).Valid() == same, "$ref that is no reference")
}

// H_C11_shared: one target used from several places with different instances.
func H_C11_shared() {
	t := branchSchema("t")
	s := M{"definitions": M{"x": t}, "properties": M{"a": M{"$ref": "#/definitions/x"}, "b": M{"$ref": "#/definitions/x"}, "c": M{"items": M{"$ref": "#/definitions/x"}}}}
	agree(s, M{"a": num("a", "d"), "b": "s", "c": A{num("c", "d")}}, "shared target")
}
