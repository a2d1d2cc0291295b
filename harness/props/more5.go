package props

import (
	gjs "github.com/xeipuuv/gojsonschema"

	"verifharness/ref"
	"verifharness/sym"
)

// crowd has three children of one kind side by side, each of which may fail in its own way.
func crowd() (interface{}, interface{}) {
	in := M{"type": "integer", "minimum": N("3")}
	x := func(n string) interface{} {
		return sym.Lazy(func() interface{} { return A{N("1"), N("5"), "x"}[sym.Choose(n, 3)] })
	}
	list := A{x("v0"), x("v1"), x("v2")}
	obj := M{"a": list[0], "b": list[1], "c": list[2]}
	switch sym.Choose("kind", 12) {
	case 0:
		return M{"properties": M{"a": in, "b": in, "c": M{"maximum": N("0")}}}, obj
	case 1:
		return M{"properties": M{"a": in, "b": M{"type": "string"}}, "additionalProperties": in}, obj
	case 2:
		return M{"additionalProperties": in}, obj
	case 3:
		return M{"patternProperties": M{"[ab]": in, "[bc]": M{"type": "string"}}}, obj
	case 4:
		return M{"properties": M{"a": in}, "additionalProperties": false}, obj
	case 5:
		return M{"items": in}, list
	case 6:
		return M{"items": A{in, in}, "additionalItems": in}, list
	case 7:
		return M{"items": A{M{"type": "string"}, in, in}}, list
	case 8:
		return M{"properties": M{"p": M{"items": in}, "q": M{"properties": M{"a": in, "c": in}}}}, M{"p": list, "q": obj}
	case 9:
		return M{"items": M{"properties": M{"a": in, "b": in}, "required": A{"z", "y"}}}, A{obj, M{"a": x("w"), "z": nil}}
	case 10:
		return M{"dependencies": M{"a": M{"properties": M{"b": in}}, "b": A{"z", "y"}, "c": M{"required": A{"x"}, "properties": M{"a": in}}}}, obj
	default:
		return M{"allOf": A{M{"properties": M{"a": in, "b": in}}, M{"additionalProperties": M{"type": "string"}}}, "propertyNames": M{"enum": A{"a"}}}, obj
	}
}

// H_C16_crowd: the errors of up to three failing children of one kind keep apart (place, value, details), for members named, matched and additional, elements, positions and dependencies.
func H_C16_crowd() {
	integrity(crowd())
}

// H_C17_crowd: all of up to three failing children of one kind are reported.
func H_C17_crowd() {
	complete(crowd())
}

// objects with the empty name, a blank one, "0" and "null" as names, next to limits 0 to 2, required and dependencies on them.
func H_C08_oddsizes() {
	names := []string{"", " ", "0", "null", "a"}
	v := M{}
	for k, n := 0, sym.Choose("n", 3); k < n; k++ {
		v[names[sym.Choose("k"+itoa(k), len(names))]] = sym.Lazy(func() interface{} { return A{nil, "", M{}}[sym.Choose("v"+itoa(k), 3)] })
	}
	o := names[sym.Choose("name", len(names))]
	p := names[sym.Choose("other", 2)]
	s := []M{
		{"maxProperties": N("0")}, {"maxProperties": N("1")}, {"minProperties": N("1")}, {"minProperties": N("2")}, {"minProperties": N("1"), "maxProperties": N("1")},
		{"required": A{o}}, {"dependencies": M{o: A{p}}}, {"dependencies": M{o: M{"maxProperties": N("1")}}}, {"propertyNames": M{"minLength": N("1")}}, {"propertyNames": M{"const": o}}, {"dependencies": M{o: A{p, "a"}, p: A{}}}, {"required": A{p, o, "a"}[:2], "maxProperties": N("1")},
	}[sym.Choose("s", 12)]
	if l, ok := s["required"].(A); ok && len(l) == 2 && ref.Equal(l[0], l[1]) {
		return
	}
	agree(s, v, "sizes of objects with odd names")
}

// enum of six values whose texts are fragments of each other or of the whole list's text (quotes, commas, brackets inside strings), instance among them or close to one of them.
func H_C09_fragments() {
	e := A{"a", `b","c`, N("12"), A{N("1"), N("2")}, M{"a": "b"}, "[1,2]", A{N("0"), N("7"), N("2")}, "x,8,y", M{"a": N("0"), "b": A{N("5"), nil, "z", true}}}
	v := A{"a", "b", "c", `b","c`, `"a"`, `a","b`, N("1"), N("2"), N("12"), A{N("1")}, A{N("1"), N("2")}, A{N("12")}, A{A{N("1"), N("2")}}, "[1,2]", `{"a":"b"}`, M{"a": "b"}, M{"a": "b", "c": nil}, M{}, "", nil, "12", "1,2", `\"a\"`, N("7"), N("8"), "z", A{N("0"), N("7"), N("2")}, "x,8,y"}[sym.Choose("v", 28)]
	switch sym.Choose("k", 4) {
	case 0:
		agree(M{"enum": e}, v, "enum of fragments")
	case 1:
		agree(M{"items": M{"enum": e}}, A{v, v}, "enum of fragments below items")
	case 2:
		agree(M{"const": e[sym.Choose("e", len(e))]}, v, "const and fragments")
	case 3:
		agree(M{"enum": A{e, A{v}}}, A{v, v}, "enum of lists of fragments")
	}
}

// uniqueItems over elements whose texts are fragments of each other.
func H_C06_fragments() {
	e := A{"a", `a","a`, N("1"), "1", A{N("1")}, "[1]", A{N("1"), N("1")}, M{"a": N("1")}, `{"a":1}`, A{}, "[]", A{"1"}, nil, "null", A{nil}}
	a, b, c := e[sym.Choose("a", len(e))], e[sym.Choose("b", len(e))], e[sym.Choose("c", 5)]
	agree(M{"uniqueItems": true}, A{a, b, c}, "unique elements that print alike")
}

// negations of negations with keywords next to each of them, below every combinator.
func H_C10_negations() {
	leaf := func(n string) interface{} {
		return A{M{"type": "integer"}, M{"maximum": N("4")}, true, false}[sym.Choose(n, 4)]
	}
	s := M{"not": leaf("a")}
	for k, n := 0, sym.Choose("depth", 3); k < n; k++ {
		switch sym.Choose("next"+itoa(k), 4) {
		case 0:
		case 1:
			s["minimum"] = N("2")
		case 2:
			s["type"] = "integer"
		case 3:
			s["anyOf"] = A{leaf("b" + itoa(k))}
		}
		s = M{"not": s}
	}
	t := []interface{}{s, M{"anyOf": A{s, M{"type": "null"}}}, M{"oneOf": A{s, M{"minimum": N("3")}}}, M{"allOf": A{s, M{"type": A{"null", "integer"}}}}, M{"if": s, "then": M{"type": "integer"}, "else": M{"type": "string"}}, M{"items": s}}[sym.Choose("in", 6)]
	v := A{N("1"), N("3"), N("7"), nil, "x", A{}, A{N("3"), "x"}}[sym.Choose("v", 7)]
	agree(t, v, "negations of negations")
}

// three definitions that are boolean, plain or refer to each other, referred to from three places each of which must get its own.
func H_C11_pool() {
	at := func(k int) string { return "#/definitions/t" + itoa(k) }
	plain := A{true, false, M{"type": "integer"}, M{"type": "string", "minLength": N("1")}}
	t2 := plain[sym.Choose("t2", 4)]
	t1 := append(A{M{"$ref": at(2)}, M{"not": M{"$ref": at(2)}}}, plain...)[sym.Choose("t1", 6)]
	t0 := append(A{M{"$ref": at(1)}, M{"$ref": at(2)}}, plain[:3]...)[sym.Choose("t0", 5)]
	r := func(n string) M { return M{"$ref": at(sym.Choose(n, 3))} }
	s := M{"definitions": M{"t0": t0, "t1": t1, "t2": t2}, "properties": M{"a": r("a"), "b": r("b")}, "items": r("c")}
	v := A{M{"a": N("1"), "b": N("2")}, M{"a": "x", "b": N("2")}, M{"a": N("1"), "b": "x"}, A{N("1")}, A{"x", nil}}[sym.Choose("v", 5)]
	agree(s, v, "definitions that refer to each other")
}

// references into a document that is a list, added or fetched: the index selects the element.
func H_C11_listdoc() {
	text := `[{"type":"integer"},{"type":"string"},[{"type":"null"}],{"a":{"type":"boolean"}}]`
	serve(map[string]string{"http://x.test/l.json": text})
	type c struct {
		r string
		v interface{}
	}
	k := []c{{"/0", N("1")}, {"/1", "s"}, {"/2/0", nil}, {"/3/a", true}}[sym.Choose("r", 4)]
	v := A{N("1"), "s", nil, true}[sym.Choose("v", 4)]
	s, err := gjs.NewSchema(gjs.NewRawLoader(M{"$ref": "http://x.test/l.json#" + k.r}))
	sym.Assert(err == nil, "a reference into a list is refused")
	if err != nil {
		return
	}
	sym.Assert(run(s, v).Valid() == ref.Equal(v, k.v), "a reference into a list")
}

// three member patterns at once, among them boolean ones and ones that differ from the name only in case or by an anchor.
func H_C07_threepatterns() {
	ps := []string{"^a", "a$", "A", "^$", "b", "^ab$", ""}
	name := []string{"a", "A", "ab", "ba", "", "c"}[sym.Choose("name", 6)]
	m := M{}
	last := -1
	for k := 0; k < 3; k++ {
		n := sym.Choose("p"+itoa(k), len(ps))
		sym.Assume(n > last)
		last = n
		m[ps[n]] = A{true, false, M{"type": "integer"}}[sym.Choose("s"+itoa(k), 3)]
	}
	s := M{"patternProperties": m}
	if sym.Choose("more", 2) == 1 {
		s["additionalProperties"] = M{"type": "string"}
	}
	agree(s, M{name: sym.Lazy(func() interface{} { return A{N("1"), "x"}[sym.Choose("v", 2)] })}, "three member patterns")
}

// shuffledRun is shuffled with the order of members free while validating only.
func shuffledRun(s, v interface{}) {
	c := compile(s)
	a := errorKeys(run(c, v))
	sym.MapOrder(true)
	r := run(c, v)
	sym.MapOrder(false)
	sym.Assert(sameKeys(a, errorKeys(r)), "the reported errors depend on the order of members")
}

// shuffledCompile is shuffled with the order of members free while compiling only.
func shuffledCompile(s, v interface{}) {
	a := errorKeys(run(compile(s), v))
	sym.MapOrder(true)
	c, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(s)))
	sym.MapOrder(false)
	sym.Assert(err == nil, "whether the schema compiles depends on the order of members")
	if err == nil {
		sym.Assert(sameKeys(a, errorKeys(run(c, v))), "the reported errors depend on the order of members")
	}
}

func threes() (M, M) {
	full := M{"a": N("1"), "b": "x", "c": nil}
	switch sym.Choose("set", 8) {
	case 0:
		return M{"dependencies": M{"a": M{"required": A{"y"}}, "b": M{"required": A{"z"}}, "c": A{"w"}}}, full
	case 1:
		return M{"dependencies": M{"a": M{"properties": M{"b": false}}, "b": M{"minProperties": N("1")}, "c": M{"maxProperties": N("2")}}}, full
	case 2:
		return M{"patternProperties": M{"a": true, "[ab]": M{"type": "null"}, "": false}}, M{"a": N("1")}
	case 3:
		return M{"patternProperties": M{"a": false, "[ab]": true, "^": M{"type": "string"}}, "additionalProperties": false}, M{"b": N("1")}
	case 4:
		return M{"propertyNames": M{"enum": A{"b"}}, "additionalProperties": M{"type": "boolean"}}, full
	case 5:
		return M{"properties": M{"a": M{"type": "string"}, "b": M{"type": "string"}, "c": M{"type": "string"}}, "additionalProperties": false}, full
	case 6:
		return M{"enum": A{M{"c": nil, "b": "x", "a": N("1.0")}}}, full
	}
	return M{"const": M{"c": nil, "b": "x"}, "maxProperties": N("2")}, full
}

// H_C18_threes: three members, patterns or dependencies, of which two or three fail: every order of members while validating.
func H_C18_threes() {
	s, v := threes()
	shuffledRun(s, v)
}

// H_C18_threes2: the same, every order of members while compiling.
func H_C18_threes2() {
	s, v := threes()
	shuffledCompile(s, v)
}

// H_C19_long: validation leaves arrays and objects of 5 numbers in various notations, with nested ones, as they were, whatever compares them.
func H_C19_long() {
	list := A{N("1.0"), N("2e0"), A{N("3.0"), N("10e-1"), N("5"), N("0.0"), N("-0")}, "b", M{"z": N("1.0"), "y": N("2.50"), "x": N("1e1"), "w": N("7"), "v": nil}, N("1")}
	k := sym.Choose("swap", len(list))
	list[0], list[k] = list[k], list[0]
	v := []interface{}{list, A{list, list[1:]}, M{"a": list, "b": list[2], "c": N("1.0"), "d": N("1e0"), "e": A{}}}[sym.Choose("v", 3)]
	s := []M{
		{"uniqueItems": true}, {"enum": A{A{}, nil, N("1.0"), "x", M{}, list}}, {"const": list}, {"items": M{"uniqueItems": true, "enum": A{list, N("1")}}}, {"additionalProperties": M{"uniqueItems": true, "const": N("1")}}, {"contains": M{"const": N("7")}}, {"anyOf": A{M{"uniqueItems": true}, M{"enum": A{N("2")}}, M{"not": M{"const": list}}}}, {"items": A{M{"uniqueItems": true}, M{"type": "integer"}}, "additionalItems": M{"multipleOf": N("2")}},
	}[sym.Choose("s", 8)]
	before := ref.Clone(v)
	c := compile(s)
	first := run(c, v).Valid()
	sym.Assert(sameText(before, v), "validation changed the instance")
	sym.Assert(run(c, v).Valid() == first, "a second validation decides otherwise")
	sym.Assert(first == ref.Valid(s, before), "decided wrongly")
}

func originalChecker(f string) gjs.FormatChecker {
	switch f {
	case "date":
		return gjs.DateFormatChecker{}
	case "time":
		return gjs.TimeFormatChecker{}
	case "date-time":
		return gjs.DateTimeFormatChecker{}
	case "hostname":
		return gjs.HostnameFormatChecker{}
	case "email", "idn-email":
		return gjs.EmailFormatChecker{}
	case "ipv4":
		return gjs.IPV4FormatChecker{}
	case "ipv6":
		return gjs.IPV6FormatChecker{}
	case "uri", "iri":
		return gjs.URIFormatChecker{}
	case "uri-reference", "iri-reference":
		return gjs.URIReferenceFormatChecker{}
	case "uri-template":
		return gjs.URITemplateFormatChecker{}
	case "uuid":
		return gjs.UUIDFormatChecker{}
	case "regex":
		return gjs.RegexFormatChecker{}
	case "json-pointer":
		return gjs.JSONPointerFormatChecker{}
	}
	return gjs.RelativeJSONPointerFormatChecker{}
}

// H_C20_others: replacing, removing or restoring one built-in format leaves every other one in place and deciding as before.
func H_C20_others() {
	f := builtin[sym.Choose("f", len(builtin))]
	g := builtin[sym.Choose("g", len(builtin))]
	sym.Assume(f != g)
	sch := compile(M{"format": g})
	bad := run(sch, "((").Valid()
	op := sym.Choose("op", 3)
	switch op {
	case 0:
		gjs.FormatCheckers.Remove(f)
	case 1:
		gjs.FormatCheckers.Add(f, constChecker(true))
	case 2:
		gjs.FormatCheckers.Add("verif-"+f, constChecker(g == "date"))
	}
	has, still := gjs.FormatCheckers.Has(g), run(sch, "((").Valid()
	mine := gjs.FormatCheckers.Has(f)
	gjs.FormatCheckers.Remove("verif-" + f)
	gjs.FormatCheckers.Add(f, originalChecker(f))
	sym.Assert(has && still == bad, "another format is affected")
	sym.Assert(mine == (op != 0), "the format itself")
	sym.Assert(gjs.FormatCheckers.Has(g) && run(sch, "((").Valid() == bad, "another format is affected by restoring")
}

// conditions has selected branches with up to three failures next to a branch that is not selected: all failures of the selected one are reported.
func conditions() (interface{}, interface{}) {
	br := A{M{"minimum": N("5"), "multipleOf": N("2"), "type": "integer"}, M{"enum": A{N("4"), "z"}, "not": M{}}, M{"properties": M{"a": M{"type": "string"}, "b": false}, "required": A{"x", "y"}}, true, false}
	then, els := sym.Choose("then", 6), sym.Choose("else", 6)
	s := M{"if": A{M{"type": "number"}, M{"required": A{"a"}}, M{"not": M{"const": N("1")}}}[sym.Choose("if", 3)]}
	if then < 5 {
		s["then"] = br[then]
	}
	if els < 5 {
		s["else"] = br[els]
	}
	v := A{N("1"), N("4.5"), "y", M{"a": N("1"), "b": N("2")}, M{}}[sym.Choose("v", 5)]
	switch sym.Choose("in", 3) {
	case 0:
		return s, v
	case 1:
		return M{"items": s, "maxItems": N("1")}, A{v, N("3")}
	}
	return M{"allOf": A{s, M{"type": "null"}}}, v
}

// H_C17_conditions: all failures of the branch that a condition selects are reported.
func H_C17_conditions() {
	complete(conditions())
}

// H_C16_conditions: the errors of the branch that a condition selects are true.
func H_C16_conditions() {
	integrity(conditions())
}

var everywhereDefs = []func(s interface{}) M{
	func(s interface{}) M { return M{"definitions": M{"d": s}} },
	func(s interface{}) M {
		return M{"definitions": M{"c": M{"definitions": M{"d": s}, "minLength": N("1")}}}
	},
	func(s interface{}) M { return M{"definitions": M{"c": M{"definitions": M{"d": M{}}, "not": s}}} },
	func(s interface{}) M { return M{"dependencies": M{"c": A{"x"}, "d": s}} },
	func(s interface{}) M { return M{"patternProperties": M{"": s}} },
	func(s interface{}) M { return M{"anyOf": A{true, s}} },
	func(s interface{}) M { return M{"oneOf": A{s, M{}}, "allOf": A{M{}}} },
	func(s interface{}) M { return M{"items": A{M{}, M{}, s}} },
	func(s interface{}) M { return M{"items": M{}, "additionalItems": s} },
	func(s interface{}) M { return M{"properties": M{"a": true}, "additionalProperties": s} },
	func(s interface{}) M { return M{"contains": s} },
	func(s interface{}) M { return M{"propertyNames": s} },
	func(s interface{}) M { return M{"if": s} },
	func(s interface{}) M { return M{"then": s} },
	func(s interface{}) M { return M{"if": false, "then": s} },
	func(s interface{}) M { return M{"if": true, "else": s, "then": M{}} },
	func(s interface{}) M { return M{"not": M{"not": s}} },
	func(s interface{}) M { return M{"properties": M{"$ref": s}} },
	func(s interface{}) M { return M{"properties": M{"enum": s, "definitions": M{}}} },
}

// every malformed setting at every place of a subschema (nested definitions, branches that no instance reaches, properties named like keywords), alone and next to another keyword.
func H_C14_everywhere() {
	bad := badSettings[sym.Choose("bad", len(badSettings))]
	in := M{}
	for k, x := range bad {
		in[k] = x
	}
	if sym.Choose("next", 2) == 1 {
		_, taken := in["title"]
		sym.Assume(!taken)
		in["title"] = "t"
	}
	_, err := compileDraft(0, everywhereDefs[sym.Choose("at", len(everywhereDefs))](in))
	sym.Assert(err != nil, "a malformed keyword somewhere is accepted")
}

// malformed settings in each draft that knows the keyword; booleans where draft 4 wants an object.
func H_C14_drafts() {
	d := allDrafts[sym.Choose("d", 4)]
	if sym.Choose("bool", 2) == 1 {
		b := A{true, false}[sym.Choose("b", 2)]
		n := sym.Choose("at", len(everywhereDefs))
		sym.Assume(n != 5 && n != 8 && n != 9 && n < 10) // booleans of their own
		_, err := compileDraft(d, everywhereDefs[n](b))
		sym.Assert((err != nil) == (d == 4), "a boolean schema: "+itoa(n))
		return
	}
	bad := badSettings[sym.Choose("bad", len(badSettings))]
	for k, x := range bad {
		_, isBool := x.(bool)
		switch k {
		case "const", "contains", "propertyNames", "$id":
			sym.Assume(d != 4)
		case "if", "then", "else":
			sym.Assume(d == 7 || d == 0)
		case "id":
			sym.Assume(d == 4 || d == 0)
		case "exclusiveMinimum", "exclusiveMaximum":
			sym.Assume(!isBool && d != 4)
		}
	}
	_, err := compileDraft(d, M{"items": bad})
	sym.Assert(err != nil, "a malformed keyword is accepted in a draft")
}

var gated = []M{{"const": N("3")}, {"contains": M{"type": "integer"}}, {"propertyNames": M{"maxLength": N("1")}}, {"if": M{"type": "integer"}, "then": M{"maximum": N("2")}, "else": M{"minProperties": N("1")}}, {"if": M{"type": "array"}, "then": M{"minItems": N("2")}}, {"if": M{"type": "object"}, "else": M{"type": "integer"}}, {"then": M{"type": "null"}}, {"else": M{"type": "null"}}}

// any two keywords whose meaning depends on the draft, or one of them next to any other keyword, in every draft.
func H_C13_pairs() {
	d := allDrafts[sym.Choose("d", 4)]
	s := M{}
	for k, x := range gated[sym.Choose("first", len(gated))] {
		s[k] = x
	}
	var other M
	n := sym.Choose("second", len(gated)+len(company))
	if n < len(gated) {
		other = gated[n]
	} else {
		other = company[n-len(gated)]
	}
	for k, x := range other {
		_, taken := s[k]
		sym.Assume(!taken)
		_, isBool := x.(bool)
		sym.Assume(!(d == 4 && isBool && (k == "not" || k == "items" || k == "if" || k == "then" || k == "else")))
		sym.Assume(!(d != 0 && (k == "exclusiveMinimum" || k == "exclusiveMaximum")))
		s[k] = x
	}
	v := A{N("3"), N("1"), "x", A{}, A{N("3")}, A{"x", nil}, M{}, M{"a": N("1")}, M{"ab": nil}}[sym.Choose("v", 9)]
	agreeDraft(d, M{"items": s}, A{v}, "two draft dependent keywords")
}

// a part of another document named by an identifier of its own (fragment, relative, absolute) or by a pointer keeps the draft of its document.
func H_C13_named() {
	a := []int{4, 6, 7}[sym.Choose("a", 3)]
	b := []int{4, 6, 7}[sym.Choose("b", 3)]
	id, r := "$id", ""
	if b == 4 {
		id = "id"
	}
	part := M{"const": N("1"), "minimum": N("0")}
	k := sym.Choose("name", 4)
	switch k {
	case 0:
		part[id], r = "#foo", "http://x.test/r.json#foo"
	case 1:
		part[id], r = "sub.json", "http://x.test/sub.json"
	case 2:
		part[id], r = "http://z.test/q.json", "http://z.test/q.json"
	default:
		r = "http://x.test/r.json#/definitions/q"
	}
	doc := M{"$schema": draftURL[b] + "#", "definitions": M{"q": part}, "const": N("5")}
	sl := gjs.NewSchemaLoader()
	if sym.Choose("how", 2) == 1 && (k == 0 || k == 3) {
		serve(map[string]string{"http://x.test/r.json": ref.Text(doc)})
	} else {
		sym.SetHTTP(nil)
		sym.Assert(sl.AddSchema("http://x.test/r.json", gjs.NewRawLoader(doc)) == nil, "AddSchema")
	}
	main := M{"$schema": draftURL[a] + "#", "items": A{M{"$ref": r}, M{"const": N("1")}}}
	if sym.Choose("whole", 2) == 1 {
		main["additionalItems"] = M{"$ref": "http://x.test/r.json"}
	}
	sch, err := sl.Compile(gjs.NewRawLoader(main))
	if err != nil {
		sym.Assert(false, "Compile: "+err.Error())
	}
	v := A{N("1"), N("2"), N("-1")}[sym.Choose("v", 3)]
	w := A{N("1"), N("2")}[sym.Choose("w", 2)]
	want := (ref.Equal(v, N("1")) || b == 4 && ref.Equal(v, N("2"))) && (a == 4 || ref.Equal(w, N("1")))
	sym.Assert(run(sch, A{v, w}).Valid() == want, "a named part keeps the draft of its document")
}

func unnamed(a, c int) (*gjs.SchemaLoader, M) {
	sym.SetHTTP(nil)
	sl := gjs.NewSchemaLoader()
	add := func(u string, s M) {
		sym.Assert(sl.AddSchema("http://x.test/"+u, gjs.NewRawLoader(s)) == nil, "AddSchema")
	}
	add("b.json", M{"const": N("1"), "properties": M{"b": M{"$ref": "b.json"}}})
	add("a.json", M{"$schema": draftURL[a] + "#", "allOf": A{M{"$ref": "b.json"}}})
	add("c.json", M{"$schema": draftURL[c] + "#", "allOf": A{M{"$ref": "b.json"}}})
	return sl, M{"properties": M{"a": M{"$ref": "http://x.test/a.json"}, "c": M{"$ref": "http://x.test/c.json"}}}
}

// a document that names no draft is decided in the draft of each document referring to it, whichever comes first.
func H_C13_unnamed() {
	a, c := []int{4, 6, 7}[sym.Choose("a", 3)], []int{4, 6, 7}[sym.Choose("c", 3)]
	sl, main := unnamed(a, c)
	if sym.Choose("direct", 2) == 1 {
		main["items"] = M{"$ref": "http://x.test/b.json"}
	}
	sch, err := sl.Compile(gjs.NewRawLoader(main))
	sym.Assert(err == nil, "Compile")
	va, vc := A{N("1"), N("2")}[sym.Choose("va", 2)], A{N("1"), N("2")}[sym.Choose("vc", 2)]
	want := (a == 4 || ref.Equal(va, N("1"))) && (c == 4 || ref.Equal(vc, N("1")))
	sym.Assert(run(sch, M{"a": va, "c": vc}).Valid() == want, "a document without a draft follows the one that refers to it")
}

// H_C18_unnamed: a document that names no draft, referred to from two documents of different drafts: every order of members while compiling gives the same outcome.
func H_C18_unnamed() {
	drafts := [][2]int{{4, 7}, {7, 4}, {6, 4}, {6, 7}}[sym.Choose("drafts", 4)]
	v := M{"a": A{N("1"), N("2")}[sym.Choose("va", 2)], "c": A{N("1"), N("2")}[sym.Choose("vc", 2)]}
	sl, main := unnamed(drafts[0], drafts[1])
	first, err := sl.Compile(gjs.NewRawLoader(ref.Clone(main)))
	sym.Assert(err == nil, "Compile")
	sl, main = unnamed(drafts[0], drafts[1])
	sym.MapOrder(true)
	second, err := sl.Compile(gjs.NewRawLoader(main))
	sym.MapOrder(false)
	sym.Assert(err == nil, "Compile")
	sym.Assert(sameKeys(errorKeys(run(first, v)), errorKeys(run(second, v))), "the reported errors depend on the order of members")
}

// a fragment identifier next to any other keyword is found under its name and nowhere else.
func H_C12_anchorwith() {
	in := with("w", M{"$id": "#foo", "type": "integer"})
	sym.Assume(in["id"] == nil)
	s := M{"definitions": M{"q": in, "other": M{"type": "string"}}, "items": A{M{"$ref": "#foo"}, M{"$ref": "#/definitions/other"}}}
	if sym.Choose("base", 2) == 1 {
		s["$id"] = "http://x.test/main.json"
	}
	sym.SetHTTP(nil)
	sch, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(s)))
	if err != nil {
		sym.Assert(false, "a fragment identifier is not found: "+err.Error())
	}
	v := A{N("1"), N("6"), "x", nil}[sym.Choose("v", 4)]
	plain := M{}
	for k, x := range in {
		if k != "$id" {
			plain[k] = x
		}
	}
	sym.Assert(run(sch, A{v, "x"}).Valid() == ref.Valid(plain, v), "a fragment identifier next to another keyword")
}
