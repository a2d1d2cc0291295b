package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// integrality of numbers of 200, 500 and 2000 digits before or behind the point, with or without an exponent.
func H_C01_huge() {
	z := strings.Repeat("0", []int{200, 500, 2000}[sym.Choose("n", 3)])
	n := itoa(len(z) + 1)
	v := num("v", []string{"1" + z + "d", "1." + z + "d", "-1" + z + ".d", "1." + z + "de" + n, "1" + z + "de-1", "d" + z + "e-" + n}[sym.Choose("shape", 6)])
	agree(M{"type": []interface{}{"integer", A{"integer", "null"}}[sym.Choose("t", 2)]}, v, "the type of a very long number")
}

// divisors below and above one next to every type, for integers and fractions.
func H_C03_typed() {
	m := []string{"0.3", "0.4", "0.7", "1.5", "2.5", "3", "0.01", "1e-3"}[sym.Choose("m", 8)]
	t := []interface{}{"integer", "number", A{"integer", "string"}, A{"number", "integer"}}[sym.Choose("t", 4)]
	agree(M{"type": t, "multipleOf": N(m)}, oneNum("v", "d", "nd", "-n", "d.d", "d.dd", "ne1"), "multipleOf next to type")
}

// alternations with anchors: ^ and $ bind to their own alternative.
func H_C04_alternation() {
	p := []string{"^a|b$", "^ab|cb$", "a$|^b", "^a$|^b$", "^(a|b)", "(a|b)$", "^a|^b", "a$|b$", "^$|a", "^a|", "|b$", "^(?:a|b$)", "(^a|b)c$", "^a*$", "^[a-b]+$|c", "^\\^a", "a\\|b"}[sym.Choose("p", 17)]
	agree(M{"pattern": p}, strOf("v", 4, "abc"), "pattern "+p)
}

// more than 256 equal or different elements against limits of 0, 1 and their number.
func H_C06_count() {
	n := []int{0, 1, 2, 127, 128, 255, 256, 257, 300, 1000}[sym.Choose("n", 10)]
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, N(itoa(k)))
	}
	l := []int{0, 1, n, n + 1, n - 1}[sym.Choose("limit", 5)]
	sym.Assume(l >= 0)
	switch sym.Choose("kw", 3) {
	case 0:
		sym.Assert(run(compile(M{"maxItems": N(itoa(l))}), v).Valid() == (n <= l), "maxItems counts the elements")
	case 1:
		sym.Assert(run(compile(M{"minItems": N(itoa(l))}), v).Valid() == (n >= l), "minItems counts the elements")
	default:
		want := true
		if l < n && n < 301 {
			v = append(v, N(itoa(l)+".0"))
			want = false
		}
		sym.Assert(run(compile(M{"uniqueItems": true}), v).Valid() == want, "uniqueItems looks at all elements")
	}
}

// numbers of 20 digits with an exponent that differ in one digit, in three notations.
func H_C06_exponents() {
	mk := func(n string, d int) interface{} {
		x := string(num(n, "d"))
		switch d {
		case 0:
			return N("123456789012345678" + x + "e3")
		case 1:
			return N("123456789012345678" + x + "000")
		case 2:
			return N("1.23456789012345678" + x + "E21")
		default:
			return N("12345678901234567." + "8" + x + "e+4")
		}
	}
	v := A{mk("a", sym.Choose("na", 4)), mk("b", sym.Choose("nb", 4))}
	agree(M{"uniqueItems": true}, v, "numbers with exponents are compared exactly")
}

// every exponent from -25 to 25 and some beyond: the same number written with it and without.
func H_C09_exponents() {
	e := sym.Choose("e", 57) - 28
	m := []string{"n", "nd", "-n", "n.d", "0.0n"}[sym.Choose("m", 5)]
	a := num("a", m+"e"+itoa(e))
	b := num("b", m+"0e"+itoa(e-1))
	if strings.Contains(m, ".") {
		b = num("b", m+"e"+itoa(e))
	}
	kw := []string{"const", "enum"}[sym.Choose("kw", 2)]
	if kw == "const" {
		agree(M{kw: a}, b, "a number with an exponent")
	} else {
		agree(M{kw: A{nil, a}}, b, "a number with an exponent")
	}
}

// long texts and names that differ in the case of one letter (any of 40), or not at all.
func H_C09_longcase() {
	const n = 40
	at := pick(sym.Int("at", 0, n-1), n)
	x := sym.Byte("x", "aA")
	a, b := make([]byte, n), make([]byte, n)
	for k := range a {
		a[k], b[k] = 'a', 'a'
	}
	b[at] = x
	kind := sym.Choose("kind", 3)
	mk := func(t string) interface{} {
		return []interface{}{t, A{t}, M{t: nil}}[kind]
	}
	s := M{"const": mk(string(a))}
	if sym.Choose("kw", 2) == 1 {
		s = M{"enum": A{mk(string(a))}}
	}
	sym.Assert(run(compile(s), mk(string(b))).Valid() == (x == 'a'), "long texts are compared letter by letter")
}

// lists of up to 513 branches of which any number around 256 and 512 hold.
func H_C10_count() {
	n := []int{255, 256, 257, 258, 512, 513}[sym.Choose("n", 6)]
	v := num("v", "d")
	l := A{}
	for k := 0; k < n; k++ {
		l = append(l, M{"minimum": N("5")})
	}
	kw := listKw[sym.Choose("kw", 3)]
	hold := ref.Valid(M{"minimum": N("5")}, v)
	want := sym.And(hold, kw != "oneOf")
	sym.Assert(run(compile(M{kw: l}), v).Valid() == want, kw+" over hundreds of branches")
}

// boolean schemas inside not, conditions and combinators, two levels deep, next to a branch that decides.
func H_C10_boolnest() {
	leafs := A{true, false, M{}, M{"not": true}, M{"not": false}, M{"not": M{}}, M{"not": M{"not": true}}, M{"allOf": A{false}}, M{"anyOf": A{true, false}}, M{"oneOf": A{true, true}}, M{"if": true, "then": false}, M{"if": false, "then": false}, M{"if": false, "else": false}}
	x, y := leafs[sym.Choose("x", len(leafs))], leafs[sym.Choose("y", len(leafs))]
	b := interface{}(M{"minimum": num("b", "d")})
	var s M
	switch sym.Choose("kw", 8) {
	case 0:
		s = M{"allOf": A{x, b, y}}
	case 1:
		s = M{"anyOf": A{x, b, y}}
	case 2:
		s = M{"oneOf": A{x, b, y}}
	case 3:
		s = M{"not": M{"allOf": A{x, y, b}}}
	case 4:
		s = M{"if": x, "then": y, "else": b}
	case 5:
		s = M{"if": b, "then": x, "else": y}
	case 6:
		s = M{"allOf": A{b, M{"not": x}, M{"not": y}}}
	default:
		s = M{"anyOf": A{M{"not": x}, b, M{"allOf": A{y, b}}}}
	}
	agree(s, num("v", "d"), "boolean schemas below combinators")
}

// a reference to a schema of any two keywords, null and every other type as instance.
func H_C11_any() {
	t := couple()
	delete(t, "$id")
	delete(t, "id")
	v := typical()
	s := M{"definitions": M{"x": t}, "properties": M{"p": M{"$ref": "#/definitions/x"}}}
	sym.Assert(run(compile(s), M{"p": v}).Valid() == ref.Valid(t, v), "a reference to any schema")
}

// pointers that differ from an existing one in one place are dangling; targets that are no schema are refused.
func H_C11_near() {
	sym.SetHTTP(nil)
	doc := M{"definitions": M{"abc": M{"type": "null"}, "l": M{"allOf": A{M{}, M{}}}}, "k": nil}
	r := ""
	good := false
	switch sym.Choose("kind", 4) {
	case 0: // three free letters, or any number of them
		n := strOf("n", 4, "abcA")
		r, good = "#/definitions/"+n, n == "abc"
		sym.Assume(n != "")
	case 1:
		i := sym.Choose("r", 18)
		r = []string{"#/definitions/abc", "#/definitions/abc/", "#/definitions//abc", "#//definitions/abc", "#/definitions/abc/type", "#/definitions/abc/x", "#/Definitions/abc", "#/definition/abc", "#/definitions/abc ", "#/definitions/l/allOf/2", "#/definitions/l/allOf/1/", "#/definitions/l/allOf/-", "#/definitions/l/allOf/1x", "#/definitions/l/allOf/x", "#/definitions/l/allOf", "#definitions/abc", "#abc", "#/definitions/l/allOf/1"}[i]
		good = i == 0 || i == 17
	case 2: // not a schema
		doc["x"] = A{nil, N("1"), "s", A{}, A{M{}}}[sym.Choose("x", 5)]
		r = "#/x"
	default: // a schema
		doc["x"] = A{M{}, true, false, M{"type": "null"}, M{"unknown": nil}}[sym.Choose("x", 5)]
		r, good = "#/x", true
	}
	at := M{"$ref": r}
	switch sym.Choose("base", 3) {
	case 1:
		doc["$id"] = "http://x.test/m.json"
	case 2:
		doc["$id"] = "http://x.test/m.json"
		at = M{"$ref": "http://x.test/m.json" + r}
	}
	doc["properties"] = M{"p": at}
	_, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(doc)))
	sym.Assert((err == nil) == good, "a reference next to an existing one: "+r)
}

// an identifier next to every other keyword is the base of the references below it.
func H_C12_with() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("root"), "http://x.test/sub/leaf.json": letterDoc("sub")})
	k := sym.Choose("w", len(company))
	s := M{}
	for n, x := range company[k] {
		sym.Assume(n != "$id" && n != "id")
		s[n] = x
	}
	idKey := []string{"$id", "id"}[sym.Choose("idkey", 2)]
	s[idKey] = "sub/"
	in := M{"items": M{"$ref": "leaf.json"}}
	switch sym.Choose("at", 3) {
	case 0:
		sym.Assume(s["not"] == nil)
		s["not"] = M{"not": in}
	case 1:
		sym.Assume(s["allOf"] == nil)
		s["allOf"] = A{M{}, in}
	default:
		sym.Assume(s["anyOf"] == nil)
		s["anyOf"] = A{in}
	}
	v := []string{"root", "sub"}[sym.Choose("v", 2)]
	got := run(compile(M{idKey: "http://x.test/main.json", "oneOf": A{s}}), A{v}).Valid()
	sym.Assert(counts(sym.Requests, "http://x.test/sub/leaf.json") == 1 && len(sym.Requests) == 1, "the reference is resolved against the identifier")
	delete(s, idKey)
	in["items"] = M{"const": "sub"}
	sym.Assert(got == ref.Valid(s, A{v}), "an identifier next to another keyword")
}

// lists of 4 subschemas, each with or without its own identifier: each has its own base.
func H_C12_lists() {
	docs := map[string]string{"http://x.test/leaf.json": letterDoc("r")}
	s, v := A{}, A{}
	want := true
	idKey := []string{"$id", "id"}[sym.Choose("idkey", 2)]
	for k := 0; k < 4; k++ {
		e := M{"items": M{"$ref": "leaf.json"}}
		name := "r"
		if sym.Choose("id"+itoa(k), 2) == 1 {
			e[idKey] = "s" + itoa(k) + "/"
			name = itoa(k)
			docs["http://x.test/s"+itoa(k)+"/leaf.json"] = letterDoc(name)
		}
		s = append(s, e)
		x := "r"
		if sym.Choose("x"+itoa(k), 2) == 1 {
			x = itoa(k)
		}
		want = want && x == name
		v = append(v, A{x})
	}
	serve(docs)
	sym.Assert(run(compile(M{idKey: "http://x.test/main.json", "items": s}), v).Valid() == want, "each element of a list has its own base")
}

// enum lists of 1 to 6 members that look like identified schemas and references: none of them has an effect.
func H_C12_literals() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("root")})
	n := 1 + sym.Choose("n", 6)
	at := pick(sym.Int("at", 0, n-1), n)
	l := A{}
	for k := 0; k < n; k++ {
		l = append(l, N(itoa(k)))
	}
	l[at] = M{"$id": "http://x.test/leaf.json", "const": "no", "$ref": "leaf.json"}
	lit := M{"enum": l}
	if n == 1 && sym.Choose("const", 2) == 1 {
		lit = M{"const": l[0]}
	}
	s := M{"$id": "http://x.test/main.json", "properties": M{"p": M{"$ref": "leaf.json"}, "q": lit}}
	v := []string{"root", "no"}[sym.Choose("v", 2)]
	q := A{l[at], M{"$id": "http://x.test/leaf.json", "const": "no", "$ref": "http://x.test/leaf.json"}}[sym.Choose("q", 2)]
	want := v == "root" && ref.Equal(q, l[at])
	sym.Assert(run(compile(s), M{"p": v, "q": q}).Valid() == want, "members of enum are no schemas")
}

// queries belong to the document a reference names.
func H_C12_query() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("plain"), "http://x.test/leaf.json?v=1": letterDoc("one"), "http://x.test/leaf.json?v=2": letterDoc("two"), "http://x.test/d/leaf.json?v=1": letterDoc("done")})
	type c struct{ base, r, want string }
	x := []c{{"http://x.test/m.json", "leaf.json", "plain"}, {"http://x.test/m.json", "leaf.json?v=1", "one"}, {"http://x.test/m.json", "leaf.json?v=2#", "two"}, {"http://x.test/m.json?v=1", "leaf.json", "plain"}, {"http://x.test/m.json?v=1", "leaf.json?v=2", "two"}, {"http://x.test/d/m.json", "leaf.json?v=1", "done"}, {"http://x.test/d/m.json", "../leaf.json?v=1", "one"}, {"http://x.test/m.json", "http://x.test/leaf.json?v=2", "two"}}[sym.Choose("c", 8)]
	v := []string{"plain", "one", "two", "done"}[sym.Choose("v", 4)]
	sym.Assert(run(compile(M{"$id": x.base, "items": M{"$ref": x.r}}), A{v}).Valid() == (v == x.want), "the query of a reference: "+x.base+" "+x.r)
}

// $schema inside a subschema, at any place or behind a local reference, does not change the draft of the document.
func H_C13_subschema() {
	d := allDrafts[sym.Choose("d", 4)]
	in, v := gatedSchema()
	o := []int{4, 6, 7}[sym.Choose("o", 3)]
	plain := ref.Clone(in).(M)
	in["$schema"] = draftURL[o] + "#"
	var s, r M
	var x interface{}
	if sym.Choose("ref", 2) == 1 {
		s, x = oldPlace("at", M{"$ref": "#/definitions/x"}, v)
		s["definitions"] = M{"x": in}
		r = ref.Clone(s).(M)
		r["definitions"] = M{"x": plain}
	} else {
		k := sym.Choose("where", 3)
		mk := func(e interface{}) (M, interface{}) {
			switch k {
			case 0:
				return M{"properties": M{"p": e}}, M{"p": v}
			case 1:
				return M{"allOf": A{M{}, e}}, v
			default:
				return M{"items": M{"not": M{"not": e}}}, A{v}
			}
		}
		s, x = mk(in)
		r, _ = mk(plain)
	}
	sl := gjs.NewSchemaLoader()
	if sym.Choose("how", 2) == 1 && d != 0 {
		s["$schema"] = draftURL[d] + "#"
	} else {
		sl.Draft = draftOf(d)
	}
	sch, err := sl.Compile(gjs.NewRawLoader(ref.Clone(s)))
	if err != nil {
		sym.Assert(false, "a valid schema is rejected: "+err.Error())
	}
	sym.Assert(run(sch, x).Valid() == ref.ValidDraft(d, r, x), "$schema counts at the root of a document only")
}

var badSettings = []M{
	{"minItems": N("-1")}, {"maxItems": N("-1")}, {"minItems": N("1.5")}, {"maxItems": "1"}, {"minLength": N("-1")}, {"maxLength": N("0.5")}, {"minLength": "1"}, {"maxLength": nil}, {"minProperties": N("-1")}, {"maxProperties": N("1e-1")}, {"minProperties": true}, {"maxProperties": A{}},
	{"minLength": N("2"), "maxLength": N("1")}, {"minProperties": N("2"), "maxProperties": N("1")}, {"minProperties": N("1"), "maxProperties": N("0")},
	{"minimum": "1"}, {"maximum": nil}, {"multipleOf": N("0")}, {"multipleOf": N("-2")}, {"multipleOf": "2"}, {"exclusiveMinimum": "1"}, {"exclusiveMaximum": nil}, {"pattern": "("}, {"pattern": N("1")}, {"format": N("1")},
	{"uniqueItems": N("1")}, {"uniqueItems": "true"}, {"items": N("1")}, {"items": A{M{}, N("1")}}, {"items": nil}, {"additionalItems": N("1")}, {"contains": N("1")}, {"contains": nil},
	{"properties": A{}}, {"properties": M{"a": nil}}, {"patternProperties": M{"(": M{}}}, {"patternProperties": M{"a": N("1")}}, {"additionalProperties": "x"}, {"required": "a"}, {"required": A{N("1")}}, {"required": A{"a", "b", "a"}}, {"required": true}, {"propertyNames": N("1")}, {"dependencies": A{}}, {"dependencies": M{"a": "b"}}, {"dependencies": M{"a": A{N("1")}}}, {"dependencies": M{"a": nil}},
	{"type": "strin"}, {"type": N("1")}, {"type": A{"string", "string"}}, {"type": A{"string", nil}}, {"enum": M{}}, {"enum": A{N("1"), N("1.0")}}, {"allOf": M{}}, {"anyOf": A{N("1")}}, {"oneOf": A{M{}, nil}}, {"not": N("1")}, {"not": A{}}, {"if": N("1")}, {"then": N("1")}, {"else": "x"}, {"definitions": A{}}, {"definitions": M{"a": N("1")}}, {"title": N("1")}, {"description": A{}}, {"$ref": N("1")},
}

// any of 66 malformed settings next to any setting of any other keyword.
func H_C14_mix() {
	bad := badSettings[sym.Choose("bad", len(badSettings))]
	all := append(append(append(append(append([]M{{}}, numberSettings...), stringSettings...), arraySettings...), objectSettings...), company...)
	s := M{}
	for n, x := range bad {
		s[n] = x
	}
	for n, x := range all[sym.Choose("next", len(all))] {
		_, taken := s[n]
		sym.Assume(!taken)
		s[n] = x
	}
	_, err := compileDraft(0, s)
	sym.Assert(err != nil, "a malformed keyword next to another is accepted")
}

// malformed settings below any two places of a subschema, definitions included.
func H_C14_places() {
	bad := []M{{"minItems": N("-1")}, {"type": "strin"}, {"definitions": M{"a": N("1")}}, {"required": A{N("1")}}, {"not": nil}, {"pattern": "("}, {"$ref": N("1")}}[sym.Choose("bad", 7)]
	put := func(n string, s interface{}) interface{} {
		switch sym.Choose(n+".def", 4) {
		case 0:
			return M{"definitions": M{"d": s}}
		case 1:
			return M{"definitions": M{"c": M{}, "d": s, "e": true}}
		case 2:
			return M{"dependencies": M{"d": s}}
		}
		r, _ := place(n, s, nil)
		return r
	}
	_, err := compileDraft(0, put("a", put("b", bad)))
	sym.Assert(err != nil, "a malformed keyword below is accepted")
}

// every exponent from -28 to 28 in schema and instance, for every keyword that looks at numbers.
func H_C15_exponents() {
	e := itoa(sym.Choose("e", 57) - 28)
	x := jsonNumber([]string{"1", "12.5", "0", "-7", "0.001"}[sym.Choose("m", 5)] + "e" + e)
	v := A{x, N("1"), x}
	var s M
	switch sym.Choose("kw", 6) {
	case 0:
		s = M{"items": M{"const": x}}
	case 1:
		s = M{"items": M{"enum": A{x, nil}}}
	case 2:
		s = M{"uniqueItems": true}
	case 3:
		s = M{"items": M{"minimum": x, "exclusiveMaximum": x}}
	case 4:
		s = M{"items": M{"multipleOf": x}}
	default:
		s = M{"items": M{"type": "integer"}, "maxItems": x}
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(s)), v)
}

// $ref next to every keyword with every odd value.
func H_C15_siblings() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	sym.Assume(kw != "$ref")
	sym.SetHTTP(nil)
	s := M{"$ref": []string{"#/x", "#/definitions/x", "#nope", "x"}[sym.Choose("r", 4)], kw: special("x")}
	if sym.Choose("below", 2) == 1 {
		s = M{"properties": M{"p": s}}
	}
	s["x"] = M{"type": "null"}
	if _, ok := s["definitions"]; !ok {
		s["definitions"] = M{"x": M{}}
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(s)), M{"p": N("1")})
}
