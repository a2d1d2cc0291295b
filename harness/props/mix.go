package props

import (
	"verifharness/sym"
)

// The mixes: two keywords of one family next to each other in any of their customary settings, trivial
// and contradictory ones included, over names and limits they share.

var numberSettings = []M{
	{"minimum": N("0")}, {"minimum": N("2")}, {"minimum": N("-3")}, {"minimum": N("4.5")}, {"maximum": N("0")}, {"maximum": N("2")}, {"maximum": N("7.5")}, {"maximum": N("-1")},
	{"exclusiveMinimum": N("0")}, {"exclusiveMinimum": N("2")}, {"exclusiveMaximum": N("2")}, {"exclusiveMaximum": N("7.5")}, {"exclusiveMaximum": N("0")},
	{"minimum": N("2"), "exclusiveMinimum": true}, {"minimum": N("2"), "exclusiveMinimum": false}, {"maximum": N("7.5"), "exclusiveMaximum": true}, {"maximum": N("2"), "exclusiveMaximum": false},
	{"multipleOf": N("1")}, {"multipleOf": N("2")}, {"multipleOf": N("0.5")}, {"multipleOf": N("0.3")}, {"multipleOf": N("1.5")}, {"multipleOf": N("0.4")}, {"multipleOf": N("1e1")},
	{"type": "integer"}, {"type": "number"}, {"type": A{"integer", "string"}}, {"type": A{"number", "integer"}}, {"type": "string"},
	{"const": N("2")}, {"const": N("2.0")}, {"enum": A{N("2"), N("4.5"), "2"}}, {"enum": A{N("0"), N("6")}}, {"not": M{"multipleOf": N("2")}}, {"not": M{"type": "integer"}}, {"not": M{"minimum": N("2")}},
	{"anyOf": A{M{"maximum": N("2")}, M{"multipleOf": N("4")}}}, {"if": M{"type": "integer"}, "then": M{"multipleOf": N("3")}}, {"format": "nobody"}, {"minLength": N("2")}, {"pattern": "^x"},
}

var stringSettings = []M{
	{"minLength": N("0")}, {"minLength": N("1")}, {"minLength": N("2")}, {"minLength": N("3")}, {"maxLength": N("0")}, {"maxLength": N("1")}, {"maxLength": N("2")}, {"maxLength": N("3")}, {"minLength": N("2.0")}, {"maxLength": N("2e0")},
	{"pattern": ""}, {"pattern": "a"}, {"pattern": "^a"}, {"pattern": "b$"}, {"pattern": "^a|b$"}, {"pattern": "^(a|b)$"}, {"pattern": "^$"}, {"pattern": "."}, {"pattern": "a|^b$"}, {"pattern": "(?i)A"}, {"pattern": "^[^a]*$"}, {"pattern": "A"}, {"pattern": "^.{2}$"},
	{"type": "string"}, {"type": A{"string", "null"}}, {"type": "integer"}, {"const": "a"}, {"const": ""}, {"enum": A{"a", "ab", N("1")}}, {"enum": A{"", "b"}}, {"format": "nobody"},
	{"not": M{"pattern": "b"}}, {"not": M{"minLength": N("2")}}, {"not": M{"const": "a"}}, {"anyOf": A{M{"maxLength": N("1")}, M{"pattern": "bb"}}}, {"oneOf": A{M{"minLength": N("2")}, M{"pattern": "a"}}}, {"if": M{"pattern": "^a"}, "then": M{"minLength": N("2")}, "else": M{"maxLength": N("1")}},
	{"minimum": N("3")}, {"maxItems": N("0")},
}

var arraySettings = []M{
	{"items": M{"type": "integer"}}, {"items": M{}}, {"items": true}, {"items": false}, {"items": M{"not": M{"const": "x"}}}, {"items": M{"enum": A{N("1"), nil}}},
	{"items": A{M{"type": "integer"}}}, {"items": A{M{}, M{"type": "integer"}}}, {"items": A{true, false}}, {"items": A{M{"type": "integer"}}, "additionalItems": false}, {"items": A{M{}, M{}}, "additionalItems": false}, {"items": A{M{"type": "integer"}}, "additionalItems": M{"type": "string"}}, {"items": A{M{}}, "additionalItems": true}, {"items": M{}, "additionalItems": false},
	{"additionalItems": false}, {"additionalItems": M{"type": "integer"}},
	{"contains": M{"type": "integer"}}, {"contains": true}, {"contains": false}, {"contains": M{"type": "null"}}, {"contains": M{"not": M{"type": "integer"}}}, {"contains": M{"const": "x"}},
	{"minItems": N("0")}, {"minItems": N("1")}, {"minItems": N("2")}, {"maxItems": N("0")}, {"maxItems": N("1")}, {"maxItems": N("2")}, {"uniqueItems": true}, {"uniqueItems": false},
	{"type": "array"}, {"type": A{"array", "null"}}, {"type": "object"}, {"const": A{N("1")}}, {"enum": A{A{}, A{N("1"), "x"}, A{nil}}}, {"not": M{"maxItems": N("1")}}, {"not": M{"contains": M{"type": "null"}}}, {"not": M{"uniqueItems": true}}, {"if": M{"minItems": N("2")}, "then": M{"contains": M{"type": "null"}}, "else": M{"maxItems": N("0")}}, {"anyOf": A{M{"maxItems": N("1")}, M{"uniqueItems": true}}},
	{"maxLength": N("0")}, {"maxProperties": N("0")}, {"required": A{"0"}},
}

var objectSettings = []M{
	{"properties": M{"a": M{"type": "integer"}}}, {"properties": M{"a": true}}, {"properties": M{"a": false}}, {"properties": M{"a": M{}, "b": M{"type": "null"}}}, {"properties": M{}}, {"properties": M{"b": M{"not": M{"const": N("1")}}}},
	{"patternProperties": M{"a": M{"type": "integer"}}}, {"patternProperties": M{"^a$": false}}, {"patternProperties": M{".*": M{"type": A{"integer", "null"}}}}, {"patternProperties": M{"": M{"not": M{"type": "null"}}}}, {"patternProperties": M{"a": M{}, "^b": M{"type": "null"}}}, {"patternProperties": M{"^[a-b]{1,3}$": M{"type": "integer"}, "^[b-c]{1,3}$": M{"type": "null"}}}, {"patternProperties": M{"b": true}}, {"patternProperties": M{}},
	{"additionalProperties": true}, {"additionalProperties": false}, {"additionalProperties": M{}}, {"additionalProperties": M{"type": "integer"}}, {"additionalProperties": M{"not": M{}}},
	{"required": A{}}, {"required": A{"a"}}, {"required": A{"b"}}, {"required": A{"a", "b"}}, {"required": A{"c", "a"}},
	{"propertyNames": M{"enum": A{"a", "b"}}}, {"propertyNames": M{"pattern": "^a"}}, {"propertyNames": M{"const": "b"}}, {"propertyNames": true}, {"propertyNames": false}, {"propertyNames": M{"minLength": N("2")}}, {"propertyNames": M{"not": M{"const": "a"}}},
	{"minProperties": N("0")}, {"minProperties": N("1")}, {"minProperties": N("2")}, {"maxProperties": N("0")}, {"maxProperties": N("1")}, {"maxProperties": N("2")},
	{"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"b": A{"a"}}}, {"dependencies": M{"a": A{"a"}}}, {"dependencies": M{"a": A{}}}, {"dependencies": M{"a": A{"b", "c"}, "c": A{"b"}}}, {"dependencies": M{"a": M{"required": A{"b"}}}}, {"dependencies": M{"b": false}}, {"dependencies": M{"a": M{"maxProperties": N("1")}}}, {"dependencies": M{"c": M{"properties": M{"a": M{"type": "integer"}}}}}, {"dependencies": M{}},
	{"type": "object"}, {"type": A{"object", "null"}}, {"type": "array"}, {"const": M{"a": N("1")}}, {"enum": A{M{}, M{"b": nil}, M{"a": N("1"), "b": N("1")}}}, {"not": M{"required": A{"b"}}}, {"not": M{"properties": M{"a": M{"type": "integer"}}}}, {"if": M{"required": A{"a"}}, "then": M{"required": A{"b"}}, "else": M{"maxProperties": N("1")}}, {"anyOf": A{M{"required": A{"a", "b"}}, M{"properties": M{"a": M{"type": "null"}}}}}, {"oneOf": A{M{"required": A{"a"}}, M{"required": A{"b"}}}},
	{"maxItems": N("0")}, {"minLength": N("9")},
}

// mixed puts two settings into one schema, the first of them about one of the given keywords.
func mixed(list []M, first ...string) M {
	var mine []M
	for _, s := range list {
		for _, k := range first {
			if _, ok := s[k]; ok {
				mine = append(mine, s)
				break
			}
		}
	}
	a, b := mine[sym.Choose("first", len(mine))], list[sym.Choose("second", len(list))]
	s := M{}
	for n, x := range a {
		s[n] = x
	}
	for n, x := range b {
		_, taken := s[n]
		sym.Assume(!taken)
		s[n] = x
	}
	for _, pair := range [][2]string{{"minLength", "maxLength"}, {"minProperties", "maxProperties"}} {
		lo, ok := s[pair[0]].(jsonNumber)
		hi, ok2 := s[pair[1]].(jsonNumber)
		sym.Assume(!ok || !ok2 || lo[0] <= hi[0])
	}
	for _, pair := range [][2]string{{"minimum", "exclusiveMinimum"}, {"maximum", "exclusiveMaximum"}} {
		_, no := s[pair[0]]
		_, ex := s[pair[1]].(bool)
		sym.Assume(!ex || no)
	}
	return s
}

func mixNumber() interface{} { return oneNum("v", "d", "-n", "d.d", "-0.d", "nd", "de1") }

func mixString() interface{} { return strOf("v", 3, "ab") }

func mixArray() interface{} {
	v := A{}
	for k, n := 0, sym.Choose("len", 4); k < n; k++ {
		v = append(v, sym.Lazy(func() interface{} { return A{N("1"), "x", nil}[sym.Choose("e"+itoa(k), 3)] }))
	}
	return v
}

func mixObject() interface{} {
	v := M{}
	has := sym.Choose("has", 8)
	for k, n := range []string{"a", "b", "c"} {
		if has>>uint(k)&1 == 1 {
			v[n] = sym.Lazy(func() interface{} { return A{N("1"), nil, "x"}[sym.Choose("m"+itoa(k), 3)] })
		}
	}
	return v
}

// any type name next to any setting of a number or string keyword.
func H_C01_mix() {
	if sym.Choose("family", 2) == 0 {
		agree(mixed(numberSettings, "type"), mixNumber(), "type next to another keyword")
	} else {
		agree(mixed(stringSettings, "type"), mixString(), "type next to another keyword")
	}
}

// any bound next to any setting of a keyword about numbers, limits equal and contradictory included.
func H_C02_mix() {
	agree(mixed(numberSettings, "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"), mixNumber(), "a bound next to another keyword")
}

// any divisor next to any setting of a keyword about numbers.
func H_C03_mix() {
	agree(mixed(numberSettings, "multipleOf"), mixNumber(), "multipleOf next to another keyword")
}

// any length or pattern next to any setting of a keyword about strings.
func H_C04_mix() {
	agree(mixed(stringSettings, "minLength", "maxLength", "pattern"), mixString(), "a string keyword next to another")
}

// items, additionalItems and contains next to any setting of a keyword about arrays, arrays of up to 3 elements.
func H_C05_mix() {
	agree(mixed(arraySettings, "items", "additionalItems", "contains"), mixArray(), "an array keyword next to another")
}

// sizes and uniqueItems next to any setting of a keyword about arrays, arrays of up to 3 elements.
func H_C06_mix() {
	agree(mixed(arraySettings, "minItems", "maxItems", "uniqueItems"), mixArray(), "an array size next to another keyword")
}

// member keywords next to any setting of a keyword about objects, over any of the members a, b, c.
func H_C07_mix() {
	agree(mixed(objectSettings, "properties", "patternProperties", "additionalProperties"), mixObject(), "a member keyword next to another")
}

// required, dependencies, propertyNames and sizes next to any setting of a keyword about objects, over any of the members a, b, c.
func H_C08_mix2() {
	agree(mixed(objectSettings, "required", "dependencies", "propertyNames", "minProperties", "maxProperties"), mixObject(), "an object keyword next to another")
}

// enum and const next to any setting of a keyword of the same family.
func H_C09_mix() {
	switch sym.Choose("family", 4) {
	case 0:
		agree(mixed(numberSettings, "const", "enum"), mixNumber(), "enum or const next to another keyword")
	case 1:
		agree(mixed(stringSettings, "const", "enum"), mixString(), "enum or const next to another keyword")
	case 2:
		agree(mixed(arraySettings, "const", "enum"), mixArray(), "enum or const next to another keyword")
	default:
		agree(mixed(objectSettings, "const", "enum"), mixObject(), "enum or const next to another keyword")
	}
}

// combinators next to any setting of a keyword of the same family.
func H_C10_mix() {
	mine := []string{"not", "anyOf", "oneOf", "if"}
	switch sym.Choose("family", 4) {
	case 0:
		agree(mixed(numberSettings, mine...), mixNumber(), "a combinator next to another keyword")
	case 1:
		agree(mixed(stringSettings, mine...), mixString(), "a combinator next to another keyword")
	case 2:
		agree(mixed(arraySettings, mine...), mixArray(), "a combinator next to another keyword")
	default:
		agree(mixed(objectSettings, mine...), mixObject(), "a combinator next to another keyword")
	}
}
