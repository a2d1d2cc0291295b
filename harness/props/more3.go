package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// H_C16_unique: the indices in errors about repeated elements are those of two equal elements,
// the first before the second, and no repetition is left out: arrays of up to 5 elements out
// of four, two of them equal numbers in different notations.
func H_C16_unique() {
	v := A{}
	n := 2 + sym.Choose("n", 4)
	for k := 0; k < n; k++ {
		v = append(v, A{N("1"), N("1.0"), "1", A{}}[sym.Choose("e"+itoa(k), 4)])
	}
	r := run(compile(M{"uniqueItems": true}), v)
	repeated := map[int]bool{}
	for _, e := range r.Errors() {
		sym.Assert(e.Type() == "unique", "an error about repeated elements")
		i, ok := e.Details()["i"].(int)
		j, ok2 := e.Details()["j"].(int)
		sym.Assert(ok && ok2 && 0 <= i && i < j && j < len(v), "the indices are those of elements")
		sym.Assert(ref.Equal(v[i], v[j]), "the indices are those of equal elements")
		repeated[j] = true
	}
	for j := range v {
		again := false
		for i := 0; i < j; i++ {
			again = again || ref.Equal(v[i], v[j])
		}
		sym.Assert(again == repeated[j], "every repeated element is named")
	}
}

// mixedAny is a mix of any family with an instance of it.
func mixedAny() (interface{}, interface{}) {
	switch sym.Choose("family", 4) {
	case 0:
		return mixed(numberSettings, "minimum", "exclusiveMaximum", "multipleOf", "enum", "type", "not"), oneNum("v", "d", "d.d")
	case 1:
		return mixed(stringSettings, "minLength", "maxLength", "pattern", "const", "type", "if"), strOf("v", 2, "ab")
	case 2:
		return mixed(arraySettings, "items", "contains", "maxItems", "uniqueItems", "additionalItems"), A{A{}, A{N("1")}, A{"x", "x"}, A{N("1"), nil, nil}}[sym.Choose("v", 4)]
	}
	return mixed(objectSettings, "properties", "additionalProperties", "patternProperties", "propertyNames", "dependencies", "required", "maxProperties"), A{M{}, M{"a": N("1")}, M{"b": nil, "c": "x"}, M{"a": nil, "b": "x", "c": N("1")}}[sym.Choose("v", 4)]
}

// H_C16_mix: integrity of the errors of any two keywords of a family next to each other.
func H_C16_mix() {
	integrity(mixedAny())
}

// H_C17_mix: any two keywords of a family next to each other: all violated constraints and no
// others are reported.
func H_C17_mix() {
	s, v := mixedAny()
	sym.Assume(!mentions(s, "format"))
	complete(s, v)
}

// H_C17_scale: 40 violations in one object, array or list of alternatives are all reported.
func H_C17_scale() {
	const n = 40
	x := num("x", "d")
	switch sym.Choose("kind", 6) {
	case 0:
		req := A{}
		for k := 0; k < n; k++ {
			req = append(req, "r"+itoa(k))
		}
		complete(M{"required": req, "maxProperties": N("0")}, M{"a": x})
	case 1:
		v := A{}
		for k := 0; k < n; k++ {
			v = append(v, x)
		}
		complete(M{"items": M{"minimum": N("5"), "multipleOf": N("2")}}, v)
	case 2:
		v := M{}
		for k := 0; k < n; k++ {
			v["p"+itoa(k)] = x
		}
		complete(M{"additionalProperties": false, "propertyNames": M{"maxLength": N("2")}}, v)
	case 3:
		v, p := M{}, M{}
		for k := 0; k < n; k++ {
			v["p"+itoa(k)] = x
			p["p"+itoa(k)] = M{"maximum": N("4")}
		}
		complete(M{"properties": p}, v)
	case 4:
		all := A{}
		for k := 0; k < n; k++ {
			all = append(all, M{"required": A{"q" + itoa(k)}})
		}
		complete(M{"allOf": all}, M{"a": x})
	default:
		dep := A{}
		for k := 0; k < n; k++ {
			dep = append(dep, "d"+itoa(k))
		}
		complete(M{"dependencies": M{"a": dep}}, M{"a": x})
	}
}

// related are names that are near each other.
var related = []string{"a", "as", "aa", "A", "a ", " a", "", "a.b", "b", "ab", "a/b", "a1", "a_", "\u00e9", "e\u0301", "0"}

// H_C07_related: two names near each other (prefixes, plurals, case, spaces, dots, composed
// and decomposed letters) are two names, for properties, patterns and additional ones.
func H_C07_related() {
	a, b := related[sym.Choose("a", len(related))], related[sym.Choose("b", len(related))]
	sym.Assume(a != b)
	var s M
	switch sym.Choose("set", 3) {
	case 0:
		s = M{"properties": M{a: M{"minimum": N("4")}, b: M{"maximum": N("6")}}, "additionalProperties": false}
	case 1:
		s = M{"properties": M{a: M{"minimum": N("4")}}, "additionalProperties": M{"maximum": N("6")}}
	default:
		s = M{"properties": M{a: M{"minimum": N("4")}, b: true}, "required": A{b}}
	}
	agree(s, M{a: num("v", "d"), b: num("w", "d")}, "names near each other")
}

// H_C08_related: the same for required, dependencies and propertyNames.
func H_C08_related() {
	a, b := related[sym.Choose("a", len(related))], related[sym.Choose("b", len(related))]
	sym.Assume(a != b)
	var s M
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"required": A{a, b}}
	case 1:
		s = M{"dependencies": M{a: A{b}}}
	case 2:
		s = M{"dependencies": M{a: M{"required": A{b}}, b: M{"required": A{a}}}}
	case 3:
		s = M{"propertyNames": M{"enum": A{a}}}
	default:
		s = M{"propertyNames": M{"not": M{"const": b}}}
	}
	agree(s, []interface{}{M{}, M{a: N("1")}, M{b: nil}, M{a: nil, b: N("1")}}[sym.Choose("v", 4)], "names near each other")
}

// H_C18_related: names near each other in properties: every order.
func H_C18_related() {
	k := sym.Choose("pair", 6)
	a := []string{"a", "a", "a", "", "a.b", "a"}[k]
	b := []string{"as", "A", "aa", "a", "a", "a "}[k]
	shuffled(M{"properties": M{a: M{"minimum": N("4")}, b: M{"maximum": N("6")}}, "additionalProperties": false}, M{a: num("v", "d"), b: num("w", "d")})
}

// H_C18_mix: patternProperties (thorough: any object keyword) next to any other, objects of two members:
// every order.
func H_C18_mix() {
	first := []string{"patternProperties"}
	v := M{"a": N("1"), "b": nil}
	if sym.Thorough() {
		first = []string{"patternProperties", "dependencies", "propertyNames", "properties"}
		v = []M{v, {"b": "x", "c": N("1")}}[sym.Choose("v", 2)]
	}
	shuffled(mixed(objectSettings, first...), v)
}

// H_C26_large: responses and files of 70 000 characters are read to their end.
func H_C26_large() {
	x := sym.Str("x", 1, "a-cA")
	t := "{" + strings.Repeat(" ", 70000) + `"const":"` + x + `"}`
	var sch *gjs.Schema
	var err error
	switch sym.Choose("how", 4) {
	case 0:
		serve(map[string]string{"http://x.test/s": t})
		sch, err = gjs.NewSchema(gjs.NewReferenceLoader("http://x.test/s"))
	case 1:
		serve(map[string]string{"http://x.test/s": t})
		sch, err = gjs.NewSchema(gjs.NewRawLoader(M{"allOf": A{M{"$ref": "http://x.test/s"}}}))
	case 2:
		sch, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///s", &memFS{files: map[string]string{"/s": t}}))
	default:
		sch, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///m", &memFS{files: map[string]string{"/m": `{"not":{"not":{"$ref":"s"}}}`, "/s": t}}))
	}
	if err != nil {
		sym.Assert(false, "a large document is refused: "+err.Error())
	}
	sym.Assert(run(sch, "a").Valid() == (x == "a"), "a large document is read to its end")
}
