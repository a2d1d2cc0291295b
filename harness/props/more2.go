package props

import (
	"encoding/json"
	"errors"
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// longName: a name of 65, 256, 1000 or 5000 letters whose last is free.
func longName(name string) string {
	n := []int{64, 255, 999, 4999}[sym.Choose(name+".len", 4)]
	return strings.Repeat("a", n) + sym.Str(name+".last", 1, "a-cA")
}

// H_C07_longnames: property names of 65 to 5000 letters: properties, patternProperties,
// additionalProperties.
func H_C07_longnames() {
	k := longName("k")
	known := k[:len(k)-1] + "a"
	s := M{}
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"patternProperties": M{"^a+b$": M{"minimum": N("3")}, "c$": M{"type": "string"}}}
	case 1:
		s = M{"patternProperties": M{"b$": M{"minimum": N("3")}}, "additionalProperties": false}
	case 2:
		s = M{"properties": M{known: M{"minimum": N("3")}}, "additionalProperties": M{"maximum": N("5")}}
	case 3:
		s = M{"properties": M{known: M{"minimum": N("3")}, known + "a": false}, "patternProperties": M{"[ab]$": M{"maximum": N("6")}}, "additionalProperties": false}
	default:
		s = M{"additionalProperties": false, "properties": M{known: true}}
	}
	agree(s, M{k: num("v", "d"), "x": N("4")}, "long property names")
}

// H_C08_longnames: property names of 65 to 5000 letters: required, dependencies, propertyNames.
func H_C08_longnames() {
	k := longName("k")
	known := k[:len(k)-1] + "a"
	var s M
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"required": A{known}}
	case 1:
		s = M{"dependencies": M{known: A{"y"}, k: A{"x"}}}
	case 2:
		s = M{"dependencies": M{"x": A{known}}}
	case 3:
		s = M{"propertyNames": M{"maxLength": N(itoa(len(k) - sym.Choose("less", 2)))}}
	default:
		s = M{"propertyNames": M{"pattern": "[ax]$"}, "dependencies": M{known: M{"required": A{k, "x"}}}}
	}
	agree(s, M{k: N("1"), "x": N("4")}, "long property names")
}

// H_C15_names: every keyword over objects whose only name is odd (empty, dotted, with slashes,
// ~, %, NUL, invalid UTF-8, ...) and whose value is empty or odd; lists of odd texts; odd
// texts as the value itself: compiled, and run on an object, an array and a text with them.
func H_C15_names() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	sym.Assume(kw != "$ref")
	few := []string{"", "a", "$ref", "$id", "type", "a/b", "~", "%", "(root)", "\x00", "\xff", "#", "{{.x}}", "*"}
	name := few[sym.Choose("n", len(few))]
	var x interface{}
	switch sym.Choose("val", 8) {
	case 0:
		x = M{name: A{}}
	case 1:
		x = M{name: A{name}}
	case 2:
		x = M{name: M{}}
	case 3:
		x = M{name: name}
	case 4:
		x = M{name: nil}
	case 5:
		x = A{name}
	case 6:
		x = A{A{name}, M{name: name}}
	default:
		x = name
	}
	v := sym.Lazy(func() interface{} {
		return []interface{}{M{name: name, "a": A{}}, A{name, A{}}, name, M{}}[sym.Choose("v", 4)]
	})
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(M{kw: x})), v)
}

// H_C15_schematext: any $schema text of up to 3 characters out of "#/ah:.%", and the known
// identifiers with such a tail; every draft, detection on or off, with and without a check
// against the metaschema.
func H_C15_schematext() {
	sym.SetHTTP(nil)
	t := strOf("t", 2, "#/ah:.%")
	if sym.Choose("known", 2) == 1 {
		t = "http://json-schema.org/draft-04/schema" + t
	}
	sl := gjs.NewSchemaLoader()
	sl.Draft = draftOf(allDrafts[sym.Choose("d", 4)])
	sl.AutoDetect = sym.Choose("auto", 2) == 1
	sl.Validate = sym.Choose("validate", 2) == 1
	s := interface{}(M{"$schema": t, "type": "string"})
	if sym.Choose("nested", 2) == 1 {
		s = M{"items": s}
	}
	try(sl, gjs.NewRawLoader(s), A{"x"})
}

// errorPlaces lists the errors of a result without their texts.
func errorPlaces(r *gjs.Result) []string {
	var out []string
	for _, e := range r.Errors() {
		out = append(out, e.Context().String()+"|"+e.Type()+"|"+subjectOf(e))
	}
	return out
}

// H_C19_parkeyword: two concurrent validations under any keywords (number, string, array,
// object constraints, combinators), the first uses of a fresh schema, report the same errors
// as two later ones, without a data race.
func H_C19_parkeyword() {
	var s, v interface{}
	switch sym.Choose("kind", 5) {
	case 0:
		s, v = errNumber()
	case 1:
		s, v = errString()
	case 2:
		s, v = errArray()
	case 3:
		s, v = errObject()
	default:
		s, v = errCombine()
	}
	sch := compile(s)
	w := ref.Clone(v)
	var a, b *gjs.Result
	sym.Par(func() { a = run(sch, v) }, func() { b = run(sch, w) })
	k := errorPlaces(run(sch, v))
	sym.Assert(sameKeys(errorPlaces(a), k) && sameKeys(errorPlaces(b), k), "concurrent validations report other errors")
}

// H_C19_parmany: two concurrent validations of one failing instance under one schema that
// uses every keyword with an error of its own.
func H_C19_parmany() {
	var s M
	var v interface{}
	switch sym.Choose("set", 4) {
	case 0:
		s = M{"minimum": N("8"), "maximum": N("9"), "exclusiveMinimum": N("8"), "exclusiveMaximum": N("9"), "multipleOf": N("7"), "enum": A{N("1")}, "const": N("9"), "type": "string", "not": M{}, "oneOf": A{M{}, M{}}, "anyOf": A{M{"type": "null"}}, "allOf": A{M{"type": "null"}}, "if": M{}, "then": false}
		v = num("v", "d")
	case 1:
		s = M{"minLength": N("8"), "maxLength": N("8"), "pattern": "^x", "format": "date", "enum": A{"q"}, "const": "r", "if": false, "else": M{"type": "null"}}
		v = sym.Str("v", 2, "a-c")
	case 2:
		s = M{"minItems": N("8"), "maxItems": N("8"), "uniqueItems": true, "items": A{M{"type": "null"}}, "additionalItems": false, "contains": M{"type": "null"}}
		v = A{num("v", "d"), N("2"), N("2")}
	default:
		s = M{"minProperties": N("8"), "maxProperties": N("8"), "required": A{"q"}, "properties": M{"a": M{"type": "null"}}, "patternProperties": M{"^b": M{"pattern": "x"}, "^[bc]": M{"type": "null"}}, "additionalProperties": false, "propertyNames": M{"pattern": "^z"}, "dependencies": M{"a": A{"q"}, "b": M{"required": A{"r"}}}}
		v = M{"a": N("1"), "b": "y", sym.Str("k", 1, "c-d"): N("2")}
	}
	sch := compile(s)
	w := ref.Clone(v)
	var a, b *gjs.Result
	sym.Par(func() { a = run(sch, v) }, func() { b = run(sch, w) })
	k := errorKeys(run(compile(s), v))
	sym.Assert(sameKeys(errorKeys(a), k) && sameKeys(errorKeys(b), k), "concurrent validations report other errors")
}

// H_C19_owned: what a caller does to a result (its details, an added error) does not show in
// another result of the same schema, earlier or later.
func H_C19_owned() {
	var s, v interface{}
	switch sym.Choose("kind", 5) {
	case 0:
		s, v = errNumber()
	case 1:
		s, v = errString()
	case 2:
		s, v = errArray()
	case 3:
		s, v = errObject()
	default:
		s, v = errCombine()
	}
	sch := compile(s)
	before := run(sch, v)
	kb := errorPlaces(before)
	r := run(sch, v)
	for _, e := range r.Errors() {
		d := e.Details()
		for k := range d {
			d[k] = "changed"
		}
		d["further"] = "x"
		e.SetValue("changed")
		e.SetDescription("changed")
		e.SetType("changed")
		e.SetContext(gjs.NewJsonContext("changed", nil))
	}
	e := &gjs.ResultErrorFields{}
	e.SetDetails(gjs.ErrorDetails{})
	e.SetDescriptionFormat("x")
	r.AddError(e, gjs.ErrorDetails{})
	after := run(sch, v)
	sym.Assert(sameKeys(errorPlaces(before), kb) && sameKeys(errorPlaces(after), kb), "results share state")
	for _, e := range after.Errors() {
		_, is := e.Details()["further"]
		sym.Assert(!is, "results share state")
	}
}

// H_C20_derived: a name derived from a registered one (a prefix, a suffix, another case, a
// part, doubled) is another name: it accepts every string, also after the registered name
// was used.
func H_C20_derived() {
	b := builtin[sym.Choose("of", len(builtin))]
	f := b
	switch sym.Choose("how", 12) {
	case 0:
		f = "x-" + b
	case 1:
		f = b + "-x"
	case 2:
		f = strings.ToUpper(b)
	case 3:
		f = strings.ToUpper(b[:1]) + b[1:]
	case 4:
		f = b[:len(b)-1]
	case 5:
		f = b[1:]
	case 6:
		f = b + b
	case 7:
		f = sym.Str("pre", 1, "\x00-\x7f") + b
	case 8:
		f = b + sym.Str("suf", 1, "\x00-\x7f")
	case 9:
		f = strings.Replace(b, "-", "_", -1)
	case 10:
		f = "x_" + b
	default:
		f = "http://json-schema.org/formats/" + b
	}
	for _, o := range builtin {
		sym.Assume(f != o)
	}
	sym.Assert(!gjs.FormatCheckers.Has(f), "a derived name is not registered")
	for _, v := range []string{"((", "", "a b", "%zz", "-"} {
		run(compile(M{"format": b}), v)
		sym.Assert(run(compile(M{"format": f}), v).Valid(), "an unknown format rejects a value")
	}
	gjs.FormatCheckers.Add("verif-base", eqChecker("x"))
	r := run(compile(M{"format": strings.Replace(f, b, "verif-base", -1) + "?"}), "y").Valid()
	gjs.FormatCheckers.Remove("verif-base")
	sym.Assert(r, "an unknown format rejects a value")
}

// H_C21_longpointer: relative JSON pointers with integers of 8 to 40 digits, and pointers of
// many or of long tokens.
func H_C21_longpointer() {
	n := []int{8, 9, 10, 16, 18, 19, 20, 21, 40, 100}[sym.Choose("n", 10)]
	d := sym.Str("d", 1, "0-9")
	s := d + strings.Repeat("9", n-1)
	c := sym.Str("c", 1, "\x00-\x7f")
	switch sym.Choose("tail", 3) {
	case 0:
		formatted("relative-json-pointer", s, d != "0")
		formatted("relative-json-pointer", s+c, sym.And(d != "0", sym.Or(sym.Or(c == "#", c == "/"), in(c[0], '0', '9'))))
	case 1:
		formatted("relative-json-pointer", s+strings.Repeat("/a~1", n)+c, sym.And(d != "0", c != "~"))
	default:
		formatted("json-pointer", "/"+strings.Repeat("a", n)+c, c != "~")
		formatted("json-pointer", strings.Repeat("/", n)+c+"0", true)
		formatted("json-pointer", strings.Repeat("/~0~1", n)+"~"+c, sym.Or(c == "0", c == "1"))
	}
}

// H_C22_longfraction: times and date-times with fractions of 10 to 40 digits, some free.
func H_C22_longfraction() {
	n := []int{9, 10, 12, 18, 19, 20, 40}[sym.Choose("n", 7)]
	frac := "." + strings.Repeat("1", n-1) + sym.Str("x", 1, "\x00-\x7f")
	ok := isDigit(frac[n])
	zone := []string{"Z", "+01:00", "-23:59"}[sym.Choose("zone", 3)]
	if sym.Choose("f", 2) == 0 {
		formatted("time", "10:20:30"+frac+zone, ok)
		return
	}
	formatted("date-time", "2023-05-17T10:20:30"+frac+zone, ok)
}

// H_C23_parts: schemas added under URLs that differ in any single component (scheme, host,
// port, user, path, escape, query) are kept apart; a reference reaches the one it names.
func H_C23_parts() {
	sym.SetHTTP(nil)
	urls := []string{"http://x.test/s", "https://x.test/s", "http://y.test/s", "http://x.test:8080/s", "http://u@x.test/s", "http://x.test/S", "http://x.test/s/", "http://x.test/s?a", "http://x.test/s?b",
		"http://x.test/s?a=1&b", "http://x.test/s%2Ft", "http://x.test/s/t", "http://x.test/", "http://x.test/s.json", "urn:x:s", "urn:x:s?a", "file:///x/s", "file:///x/s?a", "http://x.test/s;p", "http://x.test/s%20t"}
	i, j := sym.Choose("i", len(urls)), sym.Choose("j", len(urls))
	sym.Assume(i != j)
	a, b, v := num("a", "d"), num("b", "d"), num("v", "d")
	sl := gjs.NewSchemaLoader()
	if sym.Choose("how", 2) == 0 {
		sym.Assert(sl.AddSchema(urls[i], gjs.NewRawLoader(floor(a))) == nil, "a first URL")
		sym.Assert(sl.AddSchema(urls[j], gjs.NewRawLoader(floor(b))) == nil, "another URL")
	} else {
		da, db := floor(a), floor(b)
		da["$id"], db["$id"] = urls[i], urls[j]
		sym.Assert(sl.AddSchemas(gjs.NewRawLoader(da), gjs.NewRawLoader(db)) == nil, "two identifiers")
	}
	sch, err := sl.Compile(gjs.NewRawLoader(M{"items": A{M{"$ref": urls[i]}, M{"$ref": urls[j] + "#"}}}))
	sym.Assert(err == nil, "references to added schemas resolve")
	sym.Assert(run(sch, A{v}).Valid() == ref.Valid(floor(a), v), "the first reference decides like its schema")
	sym.Assert(run(sch, A{N("9"), v}).Valid() == ref.Valid(floor(b), v), "the second reference decides like its schema")
	sym.Assert(len(sym.Requests) == 0, "added schemas are not fetched")
}

// H_C23_among: an unacceptable document (taken identifier, no JSON) at any position among up to 5 makes AddSchemas fail.
func H_C23_among() {
	sym.SetHTTP(nil)
	n := 1 + sym.Choose("n", 5)
	at := pick(sym.Int("at", 0, n-1), n)
	sl := gjs.NewSchemaLoader()
	sym.Assert(sl.AddSchemas(gjs.NewStringLoader(`{"$id":"http://x.test/taken"}`)) == nil, "added")
	bad := []string{`{"$id":"http://x.test/taken"}`, `{"id":"http://x.test/taken"}`, `{`, `nope`}[sym.Choose("bad", 4)]
	var ls []gjs.JSONLoader
	for k := 0; k < n; k++ {
		if k == at {
			ls = append(ls, gjs.NewStringLoader(bad))
			continue
		}
		ls = append(ls, gjs.NewStringLoader(`{"$id":"http://x.test/d`+itoa(k)+`"}`))
	}
	sym.Assert(sl.AddSchemas(ls...) != nil, "an unacceptable document among others is refused")
}

// H_C24_bool: a boolean, or a value of any other type, as the whole document in every draft,
// compiled or added, with the draft set by the user.
func H_C24_bool() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	doc := []interface{}{true, false, nil, N("1"), "s", A{}, M{}}[sym.Choose("doc", 7)]
	sl := gjs.NewSchemaLoader()
	sl.Validate, sl.Draft = true, draftOf(d)
	sl.AutoDetect = sym.Choose("auto", 2) == 1
	way := sym.Choose("way", 3)
	refused := feed(sl, doc, way)
	_, isBool := doc.(bool)
	_, isObj := doc.(M)
	sym.Assert(refused == !(isObj || isBool && d != 4), "a document is accepted exactly if it meets the metaschema")
	sym.Assert(sl.Validate, "the setting stays")
}

// H_C25_rawmessage: a raw message or a value with a marshaller given as a Go value is one JSON
// text or refused.
func H_C25_rawmessage() {
	doc := []string{`{}`, `{"a":1}`, `1`, `"a"`, `[]`, `nul`, `{`, ``}[sym.Choose("doc", 8)]
	t := strOf("head", 1, " {1") + doc + strOf("tail", 2, " \n}1,x")
	want, ok := ref.ParseJSON(t)
	var v interface{} = json.RawMessage(t)
	switch sym.Choose("in", 3) {
	case 1:
		v = []interface{}{v}
		want = A{want}
	case 2:
		v = map[string]interface{}{"k": v}
		want = M{"k": want}
	}
	got, err := gjs.NewGoLoader(v).LoadJSON()
	sym.Assert((err == nil) == ok, "a Go value is accepted exactly if it has a JSON form")
	if ok {
		sym.Assert(ref.Equal(got, want), "a Go value is loaded as the value it marshals to")
	}
}

// H_C25_large: documents of 5 000 and 70 000 characters through every loader, a file or a
// response: their end counts, and a missing end is noticed.
func H_C25_large() {
	n := []int{5000, 70000}[sym.Choose("n", 2)]
	x := sym.Str("x", 1, "a-cA")
	fillers := []string{strings.Repeat(" ", n), `"f":"` + strings.Repeat("f", n) + `",`, `"f":[` + strings.Repeat("1,", n/10) + `1],`}
	k := sym.Choose("filler", 3)
	v := M{"x": x}
	switch k {
	case 1:
		v["f"] = strings.Repeat("f", n)
	case 2:
		a := make(A, n/10+1)
		for i := range a {
			a[i] = N("1")
		}
		v["f"] = a
	}
	t := "{" + fillers[k] + `"x":"` + x + `"}`
	broken := sym.Choose("broken", 2) == 1
	if broken {
		t = t[:len(t)-1]
	}
	var l gjs.JSONLoader
	switch kind := sym.Choose("kind", 6); kind {
	case 4:
		serve(map[string]string{"http://x.test/d": t})
		l = gjs.NewReferenceLoader("http://x.test/d")
	case 5:
		l = gjs.NewReferenceLoaderFileSystem("file:///d", &memFS{files: map[string]string{"/d": t}})
	default:
		l = source(kind, t, nil)
	}
	r, err := compile(M{"properties": M{"x": M{"const": "a"}}, "required": A{"x"}}).Validate(l)
	if err != nil {
		sym.Assert(broken, "a large document is refused: "+err.Error())
		return
	}
	sym.Assert(!broken, "a truncated document is accepted")
	sym.Assert(r.Valid() == (x == "a"), "the end of a large document counts")
}

// H_C26_attempts: a failing request or a missing file is tried once, under its own name only:
// no other name (with or without an extension, a directory, another case) takes its place.
func H_C26_attempts() {
	st := []int{0, 404, 500, 503, 301}[sym.Choose("st", 5)]
	name := []string{"a", "a.json", "d/a", "A"}[sym.Choose("name", 4)]
	near := []string{name + ".json", name + ".schema.json", name + "/index.json", strings.ToUpper(name), strings.ToLower(name), strings.TrimSuffix(name, ".json"), "schema/" + name, name + ".yaml", name + "/"}[sym.Choose("near", 9)]
	sym.Assume(near != name)
	var err error
	if sym.Choose("file", 2) == 1 {
		fs := &memFS{files: map[string]string{"/" + near: `{}`, near: `{}`}}
		if sym.Choose("how", 2) == 0 {
			_, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///"+name, fs))
		} else {
			fs.files["/m"] = `{"items":{"$ref":"` + name + `"}}`
			_, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///m", fs))
		}
		sym.Assert(counts(fs.opened, "/"+name) == 1 && counts(fs.opened, "/"+near) == 0, "a missing file is opened once, under its own name")
	} else {
		sym.SetHTTP(func(u string) (int, string, error) {
			if u == "http://x.test/"+near || u == "https://x.test/"+name {
				return 200, `{}`, nil
			}
			if st == 0 {
				return 0, "", errors.New("unreachable")
			}
			return st, `{}`, nil
		})
		if sym.Choose("how", 2) == 0 {
			_, err = gjs.NewSchema(gjs.NewReferenceLoader("http://x.test/" + name))
		} else {
			_, err = gjs.NewSchema(gjs.NewRawLoader(M{"items": M{"$ref": "http://x.test/" + name}}))
		}
		sym.Assert(len(sym.Requests) == 1 && sym.Requests[0] == "http://x.test/"+name, "a failing request is made once, for its own URL")
	}
	sym.Assert(err != nil, "a document that cannot be had is an error")
}

// H_C27_lists: lists of up to 30 allowed values and of up to 6 types are told in full, in the
// order of the schema.
func H_C27_lists() {
	n := 1 + sym.Choose("n", 30)
	l := sym.Str("l", 1, "abAB")
	if sym.Choose("kw", 2) == 0 {
		e := A{}
		want := ""
		for k := 0; k < n; k++ {
			e = append(e, "v"+l+itoa(k))
			if k > 0 {
				want += ", "
			}
			want += `"v` + l + itoa(k) + `"`
		}
		told(run(compile(M{"enum": e}), "q"), "(root)", expectation{"enum", "(root) must be one of the following: " + want, map[string]string{"allowed": want}, "q", true})
		return
	}
	types := A{"array", "boolean", "null", "number", "object", "integer"}
	sym.Assume(n > 1 && n <= len(types))
	want := ""
	for k := 0; k < n; k++ {
		if k > 0 {
			want += ","
		}
		want += types[k].(string)
	}
	want = "[" + want + "]"
	told(run(compile(M{"type": types[:n]}), "q"), "(root)", expectation{"invalid_type", "Invalid type. Expected: " + want + ", given: string", map[string]string{"expected": want, "given": "string"}, "q", true})
}

// H_C27_bigints: integer limits of up to 18 digits are told exactly.
func H_C27_bigints() {
	type c struct{ kw, typ, text, key string }
	cs := []c{{"multipleOf", "multiple_of", "Must be a multiple of ", "multiple"}, {"minimum", "number_gte", "Must be greater than or equal to ", "min"}, {"exclusiveMinimum", "number_gt", "Must be greater than ", "min"},
		{"maximum", "number_lte", "Must be less than or equal to ", "max"}, {"exclusiveMaximum", "number_lt", "Must be less than ", "max"}}
	x := cs[sym.Choose("kw", len(cs))]
	type lim struct{ in, out string }
	lims := []lim{{"16777217", "16777217"}, {"123456789", "123456789"}, {"999999999", "999999999"}, {"0.5", "0.5"}, {"0.125", "0.125"}, {"1234.5", "1234.5"}, {"33554433", "33554433"}, {"20000000", "20000000"}}
	y := lims[sym.Choose("lim", len(lims))]
	v := N("0.001")
	if x.kw == "maximum" || x.kw == "exclusiveMaximum" {
		v = N("9999999999")
	}
	e := run(compile(M{x.kw: N(y.in)}), v).Errors()
	sym.Assert(len(e) == 1 && e[0].Type() == x.typ, "one such error")
	t := e[0].Description()
	sym.Assert(strings.HasPrefix(t, x.text), "its text")
	// the number may be written in any notation, but it is that of the schema
	sym.Assert(sameNumber(t[len(x.text):], y.in), x.typ+": the limit told is that of the schema: "+t)
}

func sameNumber(a, b string) bool {
	x, ok := ref.ParseJSON(strings.Replace(a, "e+0", "e+", 1))
	n, is := x.(jsonNumber)
	return ok && is && ref.Rat(n).Cmp(ref.Rat(jsonNumber(b))) == 0
}

// valueLocale shows the value only.
type valueLocale struct{ gjs.DefaultLocale }

func (valueLocale) ErrorFormat() string { return `{{.value}}` }

// H_C27_shown: the value shown by String is the JSON text of the failing part: any value.
func H_C27_shown() {
	v := anyVal("v", 1, 2)
	if m, ok := v.(M); ok {
		sym.Assume(len(m) < 2) // the order of names is not fixed here
	}
	old := gjs.Locale
	gjs.Locale = valueLocale{}
	e := run(compile(M{"items": M{"not": M{}}}), A{v}).Errors()
	t := e[0].String()
	gjs.Locale = old
	got, ok := ref.ParseJSON(t)
	sym.Assert(len(e) == 1 && ok, "the value shown is a JSON text")
	sym.Assert(ref.Equal(got, v), "the value shown is the failing part")
}

// H_C27_owndetails: details a user gives for an added error are kept, context included.
func H_C27_owndetails() {
	l := sym.Str("l", 1, "abAB")
	r := &gjs.Result{}
	e := &ownError{}
	e.SetContext(gjs.NewJsonContext("q", gjs.NewJsonContext("(root)", nil)))
	e.SetDescriptionFormat("{{.context}} {{.field}}")
	d := gjs.ErrorDetails{"field": "f" + l}
	want := "(root).q f" + l
	if sym.Choose("own", 2) == 1 {
		d["context"] = "mine" + l
		want = "mine" + l + " f" + l
	}
	r.AddError(e, d)
	sym.Assert(!r.Valid() && len(r.Errors()) == 1 && r.Errors()[0].Description() == want, "the details of an added error are kept")
}

// H_C28_else: if with else alone, or with then alone: nothing of the condition shows, also
// under members, and next to another failing keyword.
func H_C28_else() {
	v := num("v", "d")
	a, c := M{"minimum": limit("a", "1", "5"), "multipleOf": N("3")}, M{"multipleOf": limit("c", "1", "4", "7"), "maximum": limit("d", "2", "8")}
	s := M{"if": a, "else": c}
	r := run(compile(s), v)
	if x := alone(c, v); len(alone(a, v)) > 0 && len(x) > 0 {
		explained(r, "condition_else", x, "else")
	} else {
		sym.Assert(len(r.Errors()) == 0, "a condition that holds leaves nothing")
	}
}

// H_C28_richer2: like richer, one level further inside.
func H_C28_richer2() {
	kw := alternative()
	props, in := M{}, M{}
	for k := 0; k < 5; k++ {
		props["p"+itoa(k)] = M{"type": "integer", "minimum": N("3")}
		in["p"+itoa(k)] = N("5")
	}
	in["p0"] = N("1")
	right := M{"type": "object", "properties": props, "required": A{"p0", "p1"}}
	wrong := []interface{}{M{"type": "string"}, M{"type": "array", "items": M{}}, false, M{"type": "object", "maxProperties": N("0"), "required": A{"x", "y", "z"}}}[sym.Choose("wrong", 4)]
	at := sym.Choose("at", 3)
	inside := func(s interface{}) interface{} {
		return []interface{}{M{"properties": M{"o": s}}, M{"additionalProperties": s}, M{"patternProperties": M{"^o": s}}}[at]
	}
	bs := A{inside(wrong), inside(right)}
	if sym.Choose("order", 2) == 1 {
		bs = A{inside(right), inside(wrong)}
	}
	whole := M{"o": in}
	r := run(compile(M{kw: bs}), whole)
	rest := alone(inside(right), whole)
	got := errorKeys(r)
	hit := 0
	for _, k := range rest {
		for _, g := range got {
			if g == k {
				hit++
				break
			}
		}
	}
	sym.Assert(len(rest) > 0 && hit == len(rest) && len(got) == len(rest)+1, "the alternative most of whose parts hold explains")
}
