package props

import (
	"regexp"

	"verifharness/sym"
)

// few picks the settings of a family that are combined in threes.
var fewNumber = []M{
	{"type": "integer"}, {"type": A{"integer", "string"}}, {"multipleOf": N("2")}, {"multipleOf": N("0.5")}, {"minimum": N("0")}, {"minimum": N("2")}, {"maximum": N("2")}, {"maximum": N("0")},
	{"exclusiveMinimum": N("0")}, {"exclusiveMaximum": N("7.5")}, {"enum": A{N("0"), N("6"), N("2.5")}}, {"const": N("2")}, {"format": "nobody"}, {"not": M{"multipleOf": N("2")}}, {"title": "t"},
}

var fewString = []M{
	{"type": "string"}, {"type": A{"null", "string"}}, {"minLength": N("1")}, {"minLength": N("2")}, {"maxLength": N("1")}, {"maxLength": N("2")}, {"pattern": "^a"}, {"pattern": "b$"}, {"format": "nobody"},
	{"enum": A{"a", "ab", "bb"}}, {"const": "b"}, {"not": M{"pattern": "b"}}, {"title": "t"}, {"default": "a"},
}

var fewArray = []M{
	{"type": "array"}, {"minItems": N("0")}, {"minItems": N("1")}, {"minItems": N("2")}, {"maxItems": N("0")}, {"maxItems": N("1")}, {"maxItems": N("2")}, {"uniqueItems": true}, {"items": M{"type": "integer"}}, {"items": A{M{"type": "integer"}}},
	{"additionalItems": false}, {"contains": M{"type": "integer"}}, {"enum": A{A{}, A{N("1"), "x"}, A{nil, nil}}}, {"title": "t"},
}

var fewObject = []M{
	{"type": "object"}, {"properties": M{"a": M{"type": "integer"}}}, {"properties": M{"b": true}}, {"patternProperties": M{"a": M{"type": "integer"}}}, {"additionalProperties": false}, {"additionalProperties": M{"type": "null"}}, {"required": A{"a"}}, {"required": A{"a", "b"}},
	{"propertyNames": M{"enum": A{"a", "b"}}}, {"minProperties": N("1")}, {"maxProperties": N("1")}, {"maxProperties": N("2")}, {"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"b": M{"required": A{"a"}}}}, {"title": "t"},
}

// triple puts three settings into one schema, the first of them about one of the given keywords.
func triple(list []M, first ...string) M {
	var mine []int
	for n, s := range list {
		for _, k := range first {
			if _, ok := s[k]; ok {
				mine = append(mine, n)
				break
			}
		}
	}
	a := mine[sym.Choose("first", len(mine))]
	b := sym.Choose("second", len(list))
	c := sym.Choose("third", len(list))
	sym.Assume(b < c && a != b && a != c)
	s := M{}
	for _, n := range []int{a, b, c} {
		for k, x := range list[n] {
			_, taken := s[k]
			sym.Assume(!taken)
			s[k] = x
		}
	}
	for _, pair := range [][2]string{{"minLength", "maxLength"}, {"minProperties", "maxProperties"}} {
		lo, ok := s[pair[0]].(jsonNumber)
		hi, ok2 := s[pair[1]].(jsonNumber)
		sym.Assume(!ok || !ok2 || lo[0] <= hi[0])
	}
	return s
}

// a bound with two other keywords about numbers.
func H_C02_triple() {
	agree(triple(fewNumber, "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"), oneNum("v", "d", "-n", "d.d"), "a bound next to two others")
}

// type with two other keywords about numbers.
func H_C01_triple() {
	agree(triple(fewNumber, "type"), oneNum("v", "d", "-n", "d.d", "d.0"), "type next to two others")
}

// multipleOf with two other keywords about numbers.
func H_C03_triple() {
	agree(triple(fewNumber, "multipleOf"), oneNum("v", "d", "-n", "d.d"), "multipleOf next to two others")
}

// a length or pattern with two other keywords about strings.
func H_C04_triple() {
	agree(triple(fewString, "minLength", "maxLength", "pattern"), strOf("v", 3, "ab"), "a string keyword next to two others")
}

// items, additionalItems or contains with two other keywords about arrays.
func H_C05_triple() {
	agree(triple(fewArray, "items", "additionalItems", "contains"), mixArray(), "an array keyword next to two others")
}

// sizes and uniqueItems with two other keywords about arrays.
func H_C06_triple() {
	agree(triple(fewArray, "minItems", "maxItems", "uniqueItems"), mixArray(), "an array size next to two others")
}

// a member keyword with two other keywords about objects.
func H_C07_triple() {
	agree(triple(fewObject, "properties", "patternProperties", "additionalProperties"), mixObject(), "a member keyword next to two others")
}

// an object keyword with two others about objects.
func H_C08_triple() {
	agree(triple(fewObject, "required", "dependencies", "propertyNames", "minProperties", "maxProperties"), mixObject(), "an object keyword next to two others")
}

// enum or const with two other keywords.
func H_C09_triple() {
	switch sym.Choose("family", 4) {
	case 0:
		agree(triple(fewNumber, "enum", "const"), oneNum("v", "d", "d.d", "d.0"), "enum next to two others")
	case 1:
		agree(triple(fewString, "enum", "const"), strOf("v", 3, "ab"), "enum next to two others")
	case 2:
		agree(triple(fewArray, "enum"), mixArray(), "enum next to two others")
	case 3:
		list := append([]M{{"enum": A{M{}, M{"a": N("1")}, M{"b": nil, "a": N("1.0")}}}, {"const": M{"a": N("1"), "b": nil}}}, fewObject...)
		agree(triple(list, "enum", "const"), mixObject(), "enum next to two others")
	}
}

// told describes what a definition is worth: booleans, plain schemas and further references.
func definition(name string) (interface{}, M) {
	targets := A{true, false, M{}, M{"type": "integer"}, M{"not": M{"type": "integer"}}, M{"$ref": "#/definitions/u"}, M{"allOf": A{M{"$ref": "#/definitions/u"}}}, M{"not": M{"$ref": "#/definitions/u"}}}
	t := targets[sym.Choose(name, len(targets))]
	u := A{true, false, M{"type": "integer"}}[sym.Choose(name+"u", 3)]
	return M{"$ref": "#/definitions/t"}, M{"t": t, "u": u}
}

// subschemas about elements given by reference to boolean schemas, plain ones and further references.
func H_C05_indirect() {
	r, defs := definition("t")
	s := []M{
		{"items": r}, {"items": A{r}}, {"items": A{M{"type": A{"integer", "string"}}, r}}, {"items": A{M{}}, "additionalItems": r}, {"items": A{r}, "additionalItems": r}, {"contains": r}, {"items": A{r}, "additionalItems": false}, {"items": r, "additionalItems": r}, {"additionalItems": r}, {"items": A{r, r, r}, "contains": r},
	}[sym.Choose("at", 10)]
	s["definitions"] = defs
	agree(s, mixArray(), "an element schema by reference")
}

// subschemas about members given by reference.
func H_C07_indirect() {
	r, defs := definition("t")
	s := []M{
		{"properties": M{"a": r}}, {"properties": M{"a": r, "b": r}}, {"patternProperties": M{"a": r}}, {"patternProperties": M{"a": r, "[ab]": r}}, {"additionalProperties": r}, {"properties": M{"a": M{}}, "additionalProperties": r}, {"properties": M{"a": r}, "additionalProperties": false}, {"patternProperties": M{"a": r}, "additionalProperties": false}, {"properties": M{"a": r}, "patternProperties": M{"a": r}, "additionalProperties": r},
	}[sym.Choose("at", 9)]
	s["definitions"] = defs
	agree(s, mixObject(), "a member schema by reference")
}

// names and dependencies given by reference.
func H_C08_indirect() {
	r, defs := definition("t")
	s := []M{
		{"propertyNames": r}, {"dependencies": M{"a": r}}, {"dependencies": M{"a": r, "b": A{"c"}}}, {"dependencies": M{"a": r, "b": r}}, {"dependencies": M{"z": r}}, {"propertyNames": r, "dependencies": M{"a": r}}, {"properties": M{"b": M{"propertyNames": r}}},
	}[sym.Choose("at", 7)]
	s["definitions"] = defs
	agree(s, mixObject(), "a schema about names by reference")
}

// branches given by reference.
func H_C10_indirect() {
	r, defs := definition("t")
	s := []M{
		{"allOf": A{r}}, {"anyOf": A{r}}, {"oneOf": A{r}}, {"not": r}, {"allOf": A{r, M{"type": A{"integer", "null"}}}}, {"anyOf": A{r, M{"type": "null"}}}, {"oneOf": A{r, M{"type": "integer"}}}, {"oneOf": A{r, r}}, {"anyOf": A{M{"type": "null"}, r, r}}, {"not": M{"not": r}}, {"not": M{"anyOf": A{r, r}}},
		{"if": r, "then": M{"type": "integer"}}, {"if": r, "else": M{"type": "null"}}, {"if": r, "then": r, "else": r}, {"if": r, "then": M{"not": r}}, {"if": M{"type": "integer"}, "then": r}, {"if": M{"type": "integer"}, "else": r}, {"if": true, "then": r, "else": false}, {"if": false, "then": false, "else": r}, {"then": r}, {"else": r},
	}[sym.Choose("at", 21)]
	s["definitions"] = defs
	agree(s, A{N("1"), nil, "x", A{}, M{}, N("1.5"), true}[sym.Choose("v", 7)], "a branch by reference")
}

// the errors of subschemas given by reference.
func indirectAny() (interface{}, interface{}) {
	r, defs := definition("t")
	s := []M{
		{"items": A{r}}, {"items": A{M{}}, "additionalItems": r}, {"items": r}, {"contains": r}, {"properties": M{"a": r, "b": r}}, {"patternProperties": M{"[ab]": r}}, {"additionalProperties": r}, {"propertyNames": r}, {"dependencies": M{"a": r, "b": A{"c"}}}, {"allOf": A{r, r}}, {"anyOf": A{r, M{"type": "null"}}}, {"if": r, "then": M{"type": "null"}, "else": r},
	}[sym.Choose("at", 12)]
	s["definitions"] = defs
	return s, A{A{}, A{N("1")}, A{"x", "x"}, A{N("1"), nil, nil}, M{}, M{"a": N("1")}, M{"b": nil, "c": "x"}, M{"a": nil, "b": "x"}}[sym.Choose("v", 8)]
}

// H_C16_indirect: integrity of the errors of subschemas given by reference.
func H_C16_indirect() {
	integrity(indirectAny())
}

// H_C17_indirect: all violations of subschemas given by reference are reported.
func H_C17_indirect() {
	complete(indirectAny())
}

var patternPieces = []string{"^", "$", ".*", "a", "b?", "[ab]", "|", "(a)", ".*?", `\.`, `\.*`, "(?i)A", "a{2}", "[^a]", "(?:ab)+", `\b`, "a*", "."}

// a pattern put together from any three pieces (anchors, alternation, greedy and lazy repetition, groups, classes, flags), strings over a, b and a point.
func H_C04_pieces() {
	p := ""
	for k := 0; k < 3; k++ {
		p += patternPieces[sym.Choose("p"+itoa(k), len(patternPieces))]
	}
	if _, err := regexp.Compile(p); err != nil {
		return
	}
	agree(M{"pattern": p}, strOf("v", 2, "ab."), "a pattern of pieces")
}

// a member pattern put together from any two pieces governs exactly the members whose names it matches.
func H_C07_pieces() {
	p := ""
	for k := 0; k < 2; k++ {
		p += patternPieces[sym.Choose("p"+itoa(k), len(patternPieces))]
	}
	if _, err := regexp.Compile(p); err != nil {
		return
	}
	name := []string{"", "a", "b", "ab", "ba", "A", "aab", ".", "a.b", "c"}[sym.Choose("name", 10)]
	agree(M{"patternProperties": M{p: M{"type": "integer"}}, "additionalProperties": M{"type": "null"}}, M{name: sym.Lazy(func() interface{} { return A{N("1"), nil}[sym.Choose("v", 2)] })}, "a member pattern of pieces")
}
