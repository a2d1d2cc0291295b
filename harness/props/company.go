package props

import (
	"strings"

	"verifharness/sym"
)

// company is one further keyword (or a pair that belongs together) each: what a keyword means
// must not depend on what stands next to it.
var company = []M{
	{"type": A{"integer", "string", "array", "object"}}, {"type": A{"null", "number", "object", "array", "boolean"}},
	{"minimum": N("2")}, {"maximum": N("7")}, {"exclusiveMinimum": N("1")}, {"exclusiveMaximum": N("8")}, {"minimum": N("3"), "exclusiveMinimum": true}, {"maximum": N("6"), "exclusiveMaximum": true},
	{"multipleOf": N("2")}, {"multipleOf": N("0.5")},
	{"minLength": N("1")}, {"maxLength": N("2")}, {"pattern": "a"}, {"format": "not-registered"},
	{"items": M{"type": A{"integer", "string"}}}, {"items": A{M{"type": "integer"}}}, {"items": A{M{}}, "additionalItems": M{"type": "integer"}}, {"additionalItems": M{"type": "null"}},
	{"minItems": N("1")}, {"maxItems": N("1")}, {"maxItems": N("0")}, {"uniqueItems": true}, {"contains": M{"type": "integer"}},
	{"properties": M{"a": M{"type": "integer"}}}, {"properties": M{"a": M{}, "b": M{"type": "null"}}}, {"additionalProperties": M{"type": A{"integer", "null"}}}, {"properties": M{"a": M{}}, "additionalProperties": M{"type": "string"}},
	{"patternProperties": M{"^[ab]": M{"type": A{"integer", "null"}}}}, {"required": A{"a"}}, {"required": A{"a", "b", "c"}}, {"minProperties": N("1")}, {"maxProperties": N("1")},
	{"propertyNames": M{"maxLength": N("1")}}, {"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"b": M{"required": A{"c"}}}},
	{"const": N("4")}, {"enum": A{N("4"), "a", nil, A{}, M{}, N("5")}},
	{"allOf": A{M{"type": A{"integer", "array", "object"}}}}, {"anyOf": A{M{"minimum": N("4")}, M{"type": "null"}}}, {"oneOf": A{M{"minimum": N("4")}, M{"type": "number"}}}, {"not": M{"type": "boolean"}},
	{"if": M{"minimum": N("4")}, "then": M{"maximum": N("8")}, "else": M{"minimum": N("1")}}, {"if": M{"type": "object"}, "then": M{"minProperties": N("1")}}, {"then": M{"type": "null"}}, {"else": M{"type": "null"}},
	{"title": "t"}, {"description": ""}, {"default": N("99")}, {"examples": A{N("1")}}, {"$comment": "c"}, {"readOnly": true}, {"definitions": M{"a": M{"type": "null"}}}, {"$id": "http://id.test/x"}, {"id": "http://id.test/y"},
	{"unknown": M{"type": "null"}}, {"contentEncoding": "base64"}, {"nullable": true}, {"Minimum": N("9")}, {"TYPE": "null"}, {"required ": A{"z"}},
}

// with adds at most one of the company.
func with(name string, s M) M {
	k := sym.Choose(name, len(company)+1)
	if k == 0 {
		return s
	}
	out := M{}
	for n, x := range s {
		out[n] = x
	}
	apart := map[string]string{"minLength": "maxLength", "maxLength": "minLength", "minProperties": "maxProperties", "maxProperties": "minProperties"} // might contradict each other
	for n := range company[k-1] {
		_, taken := out[n]
		_, clash := out[apart[n]]
		sym.Assume(!taken && !clash)
	}
	for n, x := range company[k-1] {
		out[n] = x
	}
	return out
}

// special values: what an implementation is tempted to treat apart.
func special(name string) interface{} {
	list := A{nil, false, true, N("0"), N("-0"), N("0.0"), N("-1"), N("1e0"), N("1E2"), N("1e-2"), N("9007199254740993"), N("-9223372036854775809"), N("18446744073709551616"), N("0.1"), N("1e300"),
		"", " ", "0", "null", "false", "a", "A", "\x00", "\n", "a\n", "\u00e9", "e\u0301", "\U0001f600", "\ufeff", "\u2028", "\ufffd", "<&>", "$ref", "{{.x}}", "%s", strings.Repeat("x", 64), strings.Repeat("\u20ac", 100),
		A{}, A{nil}, A{A{}}, A{N("0"), N("0")}, A{"", ""}, A{N("1"), N("1.0")}, A{false, nil, N("0"), ""},
		M{}, M{"": nil}, M{"a": nil}, M{"A": N("1")}, M{"$ref": "#"}, M{"$id": "x"}, M{"id": "x"}, M{"type": "string"}, M{"a b": M{}}, M{"a/b": N("1"), "a~b": N("2")}, M{"\u00e9": N("1")}, M{"const": A{}}, M{"length": N("1")}}
	return list[sym.Choose(name, len(list))]
}

// odd names: what an implementation is tempted to treat apart.
var oddNames = []string{"", "a", "A", " a", "a ", "ab", "$ref", "$id", "id", "$schema", "definitions", "properties", "additionalProperties", "const", "enum", "default", "type", "length", "__proto__", "a.b", "a/b", "a~b", "~0", "~1", "%41", "a%2Fb", "(root)", "(root).", "(root).a", "0", "-1", "01", "\"", "\\", "'", "\x00", "\n", "\u00e9", "\u00c9", "e\u0301", "\u212a", "k", "K", "\U0001f600", "{{.x}}", "%s", "#", "?", "*", "^a"}

// odd is one of them.
func odd(name string) string { return oddNames[sym.Choose(name, len(oddNames))] }

// many is an array of n members that are all x but the one at a free position.
func many(n int, x, y interface{}) A {
	at := pick(sym.Int("many.at", 0, n-1), n)
	v := make(A, n)
	for k := range v {
		v[k] = x
	}
	v[at] = y
	return v
}

// deep puts a schema and an instance n levels down.
func deep(n int, s, v interface{}) (interface{}, interface{}) {
	kind := sym.Choose("deep.kind", 3)
	for k := 0; k < n; k++ {
		switch kind {
		case 0:
			s, v = M{"properties": M{"p": s}}, M{"p": v}
		case 1:
			s, v = M{"items": s}, A{v}
		default:
			s = M{"allOf": A{s}}
		}
	}
	return s, v
}

// couple is any two of the company.
func couple() M {
	a, b := sym.Choose("a", len(company)), sym.Choose("b", len(company))
	sym.Assume(a < b)
	s := M{}
	for _, k := range []int{a, b} {
		for n, x := range company[k] {
			s[n] = x
		}
	}
	_, no := s["minimum"].(jsonNumber)
	_, ex := s["exclusiveMinimum"].(bool)
	sym.Assume(!ex || no)
	_, no = s["maximum"].(jsonNumber)
	_, ex = s["exclusiveMaximum"].(bool)
	sym.Assume(!ex || no)
	return s
}

// typical is an instance of any type.
func typical() interface{} {
	return sym.Lazy(func() interface{} {
		return []interface{}{M{}, M{"a": N("1"), "b": nil, "c": "x"}, M{"b": N("-1")}, A{}, A{nil}, A{"a", N("1"), nil, N("1.0"), M{}}, "", "bcd", N("4"), N("-0.5"), N("9"), nil, true}[sym.Choose("v", 13)]
	})
}
