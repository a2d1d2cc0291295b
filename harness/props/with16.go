package props

import (
	"encoding/json"
	"errors"
	"net/http"
	"os"
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// H_C16_odd: odd names on two levels are reported unchanged in context, field and details.
func H_C16_odd() {
	a, b := odd("a"), odd("b")
	var s M
	k := sym.Choose("s", 3)
	switch k {
	case 0:
		s = M{"type": "string"}
	case 1:
		s = M{"not": M{}}
	default:
		s = M{"required": A{b}}
	}
	var r *gjs.Result
	want := a + "." + b
	if k == 2 {
		r = run(compile(M{"additionalProperties": s}), M{a: M{}})
		want = a
	} else {
		r = run(compile(M{"additionalProperties": M{"additionalProperties": s}}), M{a: M{b: N("1")}})
	}
	sym.Assert(len(r.Errors()) == 1, "one error is reported")
	e := r.Errors()[0]
	sym.Assert(e.Context().String() == "(root)."+want, "the context holds the names unchanged")
	sym.Assert(e.Field() == want, "the field holds the names unchanged")
	if k == 2 {
		sym.Assert(subjectOf(e) == b, "the details hold the name unchanged")
	}
}

// H_C16_special: the value of an error is the odd value itself, as it was written; under every
// keyword that refuses it, at the root or below.
func H_C16_special() {
	v := special("v")
	s := []interface{}{M{"not": M{}}, false, M{"enum": A{"zz"}}, M{"const": "zz"}, M{"allOf": A{M{"anyOf": A{false, M{"const": "yy"}}}}}, M{"if": true, "then": false}, M{"type": "null", "not": M{"type": "null"}}}[sym.Choose("s", 7)]
	in := v
	at := sym.Choose("at", 3)
	if at == 1 {
		s, in = M{"properties": M{"p": M{"allOf": A{s}}}}, M{"p": v}
	} else if at == 2 {
		s, in = M{"items": A{M{}, M{"allOf": A{s}}}}, A{N("1"), v}
	}
	r := run(compile(s), in)
	sym.Assert(!r.Valid(), "the value is refused")
	for _, e := range r.Errors() {
		sym.Assert(sameText(e.Value(), v), e.Type()+": the value is the refused one")
	}
}

// H_C16_company: integrity of the errors of every pair of keywords on instances of every type.
func H_C16_company() {
	integrity(couple(), typical())
}

// H_C17_company: every pair of keywords on instances of every type: all violated constraints
// are reported and no others.
func H_C17_company() {
	s := couple()
	if f, ok := s["format"]; ok && f == "not-registered" {
		delete(s, "format") // complete's format function refuses strings
	}
	complete(s, typical())
}

// H_C17_bounds: any combination of number keywords, each limit and the instance free.
func H_C17_bounds() {
	s := M{}
	for k, kw := range []string{"minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum"} {
		if sym.Choose("has"+itoa(k), 2) == 1 {
			s[kw] = num("l"+itoa(k), "d")
		}
	}
	complete(s, num("v", "d"))
}

// H_C17_count: 150 wrong members or items are all reported, and one right among them is not.
func H_C17_count() {
	const n = 150
	at := pick(sym.Int("at", 0, n-1), n)
	v, o := A{}, M{}
	for k := 0; k < n; k++ {
		x := interface{}("s")
		if k == at {
			x = N("1")
		}
		v = append(v, x)
		o["k"+itoa(k)] = x
	}
	var in interface{}
	var s M
	switch sym.Choose("kind", 4) {
	case 0:
		s, in = M{"items": M{"type": "integer"}}, v
	case 1:
		s, in = M{"additionalProperties": M{"type": "integer"}}, o
	case 2:
		s, in = M{"patternProperties": M{"^k": M{"type": "integer"}}}, o
	default:
		s, in = M{"allOf": A{M{"items": A{M{}}, "additionalItems": M{"type": "integer"}}}}, v
	}
	r := run(compile(s), in)
	got := map[string]int{}
	for _, e := range r.Errors() {
		if e.Type() == "invalid_type" {
			got[e.Field()]++
		}
	}
	for k := 0; k < n; k++ {
		f := itoa(k)
		if _, ok := in.(M); ok {
			f = "k" + f
		}
		want := 1
		if k == at || k == 0 && mentions(s, "additionalItems") {
			want = 0
		}
		sym.Assert(got[f] == want, "each wrong member is reported once")
	}
}

// H_C18_overlap: two patterns that match one name and are both violated, in any order, with
// properties or additionalProperties next to them.
func H_C18_overlap() {
	s := M{"patternProperties": M{"a": M{"minimum": N("6")}, "^[ab]$": M{"maximum": N("4")}}}
	switch sym.Choose("with", 3) {
	case 1:
		s["properties"] = M{"a": M{"enum": A{N("3"), N("8")}}, "b": M{"type": "string"}}
	case 2:
		s["additionalProperties"] = false
	}
	shuffled(s, M{"a": num("v", "d"), "b": N("5")})
}

// H_C18_company: every keyword of the company, and every object keyword with every other one, on
// objects of three members: every order.
func H_C18_company() {
	objs := []M{{"patternProperties": M{"^[ab]": M{"maximum": N("0")}, "[bc]": M{"type": "null"}}}, {"properties": M{"a": M{"maximum": N("0")}, "c": M{"type": "null"}}}, {"dependencies": M{"a": A{"z", "y"}, "b": M{"required": A{"x"}}}}, {"required": A{"z", "y"}}, {"propertyNames": M{"enum": A{"b"}}}, {"additionalProperties": M{"type": "string"}}}
	s := M{}
	for k, x := range objs[sym.Choose("o", len(objs))] {
		s[k] = x
	}
	shuffled(with("w", s), M{"a": N("1"), "b": "s"})
}

// H_C19_special: validation leaves odd values in the instance as they were, under every keyword.
func H_C19_special() {
	x := special("x")
	v := []interface{}{A{x, "z"}, M{"a": x, "b": A{x}}, A{M{"a": x}, M{"a": x}}}[sym.Choose("in", 3)]
	s := M{"items": with("w", M{}), "additionalProperties": M{"uniqueItems": true}, "uniqueItems": true}
	if n, ok := x.(jsonNumber); ok {
		sym.Assume(n != "1e300")
	}
	before := ref.Clone(v)
	run(compile(s), v)
	sym.Assert(sameText(before, v), "validation changed the instance")
}

// H_C19_schema: compiling and validating leaves the values of enum, const and default in place:
// a second run over the same compiled schema decides alike for odd values.
func H_C19_schema() {
	x := special("x")
	s := M{"enum": A{x, "zz1"}}
	if sym.Choose("kw", 2) == 1 {
		s = M{"const": x}
	}
	if o, ok := x.(M); ok {
		sym.Assume(o["$ref"] == nil && o["$id"] == nil && o["id"] == nil)
	}
	sch := compile(s)
	for k := 0; k < 3; k++ {
		sym.Assert(run(sch, ref.Clone(x)).Valid(), "a value is accepted again and again")
		sym.Assert(!run(sch, A{"other", x}).Valid(), "another value is refused again and again")
	}
}

// H_C20_many: with 40 further formats registered, each name has the checker registered last.
func H_C20_many() {
	const n = 40
	for k := 0; k < n; k++ {
		gjs.FormatCheckers.Add("verif-m"+itoa(k), eqChecker("x"))
	}
	at := pick(sym.Int("at", 0, n-1), n)
	name := "verif-m" + itoa(at)
	gjs.FormatCheckers.Add(name, eqChecker("y"))
	v := sym.Str("v", 1, "x-z")
	replaced := run(compile(M{"format": name}), v).Valid()
	other := run(compile(M{"format": "verif-m" + itoa((at+1)%n)}), v).Valid()
	gjs.FormatCheckers.Remove(name)
	removed := run(compile(M{"format": name}), v).Valid()
	for k := 0; k < n; k++ {
		gjs.FormatCheckers.Remove("verif-m" + itoa(k))
	}
	sym.Assert(replaced == (v == "y") && other == (v == "x") && removed, "each name has the checker registered last")
}

// H_C20_odd: odd format names and odd values: the checker is asked about exactly that value.
func H_C20_odd() {
	name := odd("f")
	sym.Assume(name != "")
	x := special("x")
	var seen []interface{}
	calls := 0
	gjs.FormatCheckers.Add(name, kindChecker{&seen, &calls})
	r := run(compile(M{"properties": M{"p": M{"format": name}}}), M{"p": x})
	gjs.FormatCheckers.Remove(name)
	_, isNum := x.(json.Number)
	sym.Assert(calls >= 1, "the checker is asked")
	for _, y := range seen {
		sym.Assert(sameText(x, y), "the checker is given the value itself")
	}
	sym.Assert(r.Valid() == isNum, "the verdict of the checker counts")
}

// H_C20_with: a format decides next to every other keyword as it does alone.
func H_C20_with() {
	gjs.FormatCheckers.Add("verif-w", eqChecker("ab"))
	s := with("w", M{"format": "verif-w"})
	v := strOf("v", 2, "a-b")
	r := run(compile(s), v)
	gjs.FormatCheckers.Remove("verif-w")
	delete(s, "format")
	want := ref.Valid(s, v)
	n := 0
	for _, e := range r.Errors() {
		if e.Type() == "format" {
			n++
		}
	}
	sym.Assert(r.Valid() == sym.And(want, v == "ab"), "a format decides next to another keyword")
	if _, ok := s["type"]; !ok {
		sym.Assert((n == 0) == (v == "ab"), "a failed format is reported")
	}
}

// H_C22_space: white space and control characters around a well-formed string make it ill-formed
// (email excepted for blanks, which its grammar allows).
func H_C22_space() {
	good := map[string]string{"date": "2020-02-29", "time": "10:20:30Z", "date-time": "2020-02-29T10:20:30Z", "ipv4": "1.2.3.4", "ipv6": "1::2", "email": "a@b.c", "idn-email": "a@b.c", "uri": "http://a/b"}
	names := []string{"date", "time", "date-time", "ipv4", "ipv6", "email", "idn-email", "uri"}
	f := names[sym.Choose("f", len(names))]
	c := sym.Str("c", 1, " \t\n\r\x00\x0b\x0c\x7f")
	g := good[f]
	if f == "email" || f == "idn-email" {
		sym.Assume(c != " " && c != "\t")
	}
	if f == "uri" {
		sym.Assume(c != " ")
	}
	formatted(f, g, true)
	switch sym.Choose("at", 3) {
	case 0:
		formatted(f, g+c, false)
	case 1:
		formatted(f, c+g, false)
	default:
		formatted(f, g[:2]+c+g[2:], false)
	}
}

// H_C23_values: booleans, empty schemas and odd documents added under URLs: kept apart, refused
// a second time, and used as they are.
func H_C23_values() {
	sym.SetHTTP(nil)
	docs := []interface{}{true, false, M{}, M{"type": "null"}, M{"const": N("1")}, M{"$ref": "http://x.test/other"}}
	i, j := sym.Choose("i", len(docs)), sym.Choose("j", len(docs))
	sl := gjs.NewSchemaLoader()
	sym.Assert(sl.AddSchema("http://x.test/other", gjs.NewRawLoader(M{"type": "string"})) == nil, "AddSchema")
	sym.Assert(sl.AddSchema("http://x.test/a", gjs.NewRawLoader(ref.Clone(docs[i]))) == nil, "AddSchema")
	sym.Assert(sl.AddSchema("http://x.test/a", gjs.NewRawLoader(ref.Clone(docs[j]))) != nil, "a taken URL is refused")
	sym.Assert(sl.AddSchema("http://x.test/b", gjs.NewRawLoader(ref.Clone(docs[j]))) == nil, "a free URL is accepted")
	sch, err := sl.Compile(gjs.NewRawLoader(M{"items": A{M{"$ref": "http://x.test/a"}, M{"$ref": "http://x.test/b"}}}))
	sym.Assert(err == nil, "Compile")
	one := func(k int, v interface{}) bool {
		if k == 5 {
			return ref.Valid(M{"type": "string"}, v)
		}
		return ref.Valid(docs[k], v)
	}
	x, y := scalar("x"), scalar("y")
	sym.Assert(run(sch, A{x, y}).Valid() == sym.And(one(i, x), one(j, y)), "added documents decide as they are")
	sym.Assert(len(sym.Requests) == 0, "added documents are not fetched")
}

// H_C23_many: 30 documents added; a reference to any of them decides like it.
func H_C23_many() {
	sym.SetHTTP(nil)
	const n = 30
	sl := gjs.NewSchemaLoader()
	byID := sym.Choose("how", 2) == 1
	for k := 0; k < n; k++ {
		u := "http://x.test/s" + itoa(k)
		d := M{"const": N(itoa(k))}
		if byID {
			d["$id"] = u
			sym.Assert(sl.AddSchemas(gjs.NewRawLoader(d)) == nil, "AddSchemas")
		} else {
			sym.Assert(sl.AddSchema(u, gjs.NewRawLoader(d)) == nil, "AddSchema")
		}
	}
	at := pick(sym.Int("at", 0, n-1), n)
	sch, err := sl.Compile(gjs.NewRawLoader(M{"items": M{"$ref": "http://x.test/s" + itoa(at)}}))
	sym.Assert(err == nil, "Compile")
	v := num("v", "nd")
	if at < 10 {
		v = num("w", "d")
	}
	sym.Assert(run(sch, A{v}).Valid() == (string(v) == itoa(at)), "a reference reaches the document added under its URL")
}

// H_C24_formats: what the metaschema says about formats (regular expressions, URI references)
// counts when a schema is added.
func H_C24_formats() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	doc, bad := M{}, false
	switch sym.Choose("kw", 6) {
	case 0:
		doc, bad = M{"pattern": "("}, true
	case 1:
		doc = M{"pattern": "(a)"}
	case 2:
		doc, bad = M{"patternProperties": M{"(": M{}}}, d == 7
	case 3:
		doc = M{"patternProperties": M{"^a": M{}}}
	case 4:
		doc, bad = M{"properties": M{"a": M{"items": A{M{"pattern": "[b-a]"}}}}}, true
	default:
		doc, bad = M{"definitions": M{"a": M{"pattern": "*"}}}, true
	}
	sl := settle(d, doc, 4)
	way := 1 + sym.Choose("way", 2)
	sym.Assert(feed(sl, doc, way) == bad, "the formats of the metaschema count")
}

// H_C24_special: every keyword of the metaschema with odd values, in draft 7 (thorough: every
// draft).
func H_C24_special() {
	d := 7
	if sym.Thorough() {
		d = []int{4, 6, 7}[sym.Choose("d", 3)]
	}
	kw := metaWords[sym.Choose("kw", len(metaWords))]
	v := special("v")
	if n, ok := v.(jsonNumber); ok {
		sym.Assume(n != "1e300")
	}
	sym.Assume(kw != "$ref" && kw != "$id" && kw != "id" && kw != "$schema" && kw != "pattern" && kw != "patternProperties")
	if o, ok := v.(M); ok {
		sym.Assume(o["$ref"] == nil && o["$id"] == nil && o["id"] == nil)
	}
	doc := M{kw: v}
	gate(settle(d, doc, 1), d, doc, 0)
}

// H_C25_bom: a byte order mark, or any other character JSON does not know, in front of a text is
// refused.
func H_C25_bom() {
	front := []string{"\xef\xbb\xbf", "\xfe\xff", "\x00", "\u00a0", "\u2028", "\x0b", "\x0c", ")]}'\n", "//\n", "/**/"}[sym.Choose("front", 10)]
	t := front + []string{`{}`, `1`, `"a"`, `[]`}[sym.Choose("doc", 4)]
	if sym.Choose("end", 2) == 1 {
		t = t[len(front):] + front
	}
	var err error
	switch sym.Choose("kind", 4) {
	case 0:
		_, err = gjs.NewStringLoader(t).LoadJSON()
	case 1:
		_, err = gjs.NewBytesLoader([]byte(t)).LoadJSON()
	case 2:
		serve(map[string]string{"http://x.test/d": t})
		_, err = gjs.NewReferenceLoader("http://x.test/d").LoadJSON()
	default:
		_, err = gjs.NewReferenceLoaderFileSystem("file:///d", &memFS{files: map[string]string{"/d": t}}).LoadJSON()
	}
	sym.Assert(err != nil, "a text with foreign characters around it is refused")
}

// H_C25_special: odd values through every loader.
func H_C25_special() {
	v := special("v")
	if sym.Choose("in", 2) == 1 {
		v = M{"a": A{v}}
	}
	kind := sym.Choose("kind", 6)
	l := source(kind, ref.Text(v), v)
	got, err := l.LoadJSON()
	sym.Assert(err == nil, "a JSON text is refused")
	if kind == 4 {
		sym.Assert(ref.Equal(got, v), "the loaded value differs from the one given")
	} else {
		sym.Assert(sameText(got, v), "the loaded value differs from the text")
	}
}

type goText struct{ s string }

func (g goText) MarshalText() ([]byte, error) { return []byte("t:" + g.s), nil }

type goJSON struct{ s string }

func (g goJSON) MarshalJSON() ([]byte, error) { return []byte(`{"j":` + g.s + `}`), nil }

type goEmb struct {
	goPart
	X    uint8 `json:",string"`
	Y    *int  `json:"y,omitempty"`
	priv int
	Z    [2]bool
}

// H_C25_gokinds: Go values of further kinds are the JSON they marshal to.
func H_C25_gokinds() {
	l := sym.Str("l", 1, "abAB")
	seven := 7
	type c struct{ v, want interface{} }
	cs := []c{{[]byte("abc"), "YWJj"}, {[]string{"x" + l}, A{"x" + l}}, {[]string(nil), nil}, {[]string{}, A{}}, {map[string]string{"k": l}, M{"k": l}}, {map[string]string(nil), nil}, {map[int]bool{3: true}, M{"3": true}},
		{[3]int{1, 2, 3}, A{N("1"), N("2"), N("3")}}, {int64(-9223372036854775808), N("-9223372036854775808")}, {uint64(18446744073709551615), N("18446744073709551615")}, {float64(0.1), N("0.1")}, {1e21, N("1e21")},
		{json.Number("1.50"), N("1.50")}, {json.RawMessage(`{"a": [1, 2]}`), M{"a": A{N("1"), N("2")}}}, {goJSON{"3"}, M{"j": N("3")}}, {&goJSON{"4"}, M{"j": N("4")}}, {(*goPart)(nil), nil}, {&seven, N("7")},
		{interface{}(nil), nil}, {true, true}, {"s" + l, "s" + l}, {struct{}{}, M{}}, {[]interface{}{nil, M{}}, A{nil, M{}}}, {"<&>\u2028", "<&>\u2028"}}
	x := cs[sym.Choose("c", len(cs))]
	loaded(gjs.NewGoLoader(x.v), x.want, "Go value")
}

// failFS opens files whose reading fails after a while.
type failFS struct {
	text string
	n    int
}

func (f failFS) Open(string) (http.File, error) { return &failFile{memFile{text: f.text}, f.n}, nil }

type failFile struct {
	memFile
	n int
}

func (f *failFile) Read(p []byte) (int, error) {
	if f.at >= f.n {
		return 0, errors.New("cannot read")
	}
	k := copy(p, f.text[f.at:f.n])
	f.at += k
	return k, nil
}

var _ os.FileInfo

// H_C26_readfail: a file that cannot be read to its end is an error, wherever reading fails.
func H_C26_readfail() {
	t := `{"type":"string"}`
	n := pick(sym.Int("n", 0, len(t)), len(t)+1)
	fs := failFS{t, n}
	var err error
	switch sym.Choose("how", 3) {
	case 0:
		_, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///a.json", fs))
	case 1:
		_, err = gjs.NewReferenceLoaderFileSystem("file:///a.json", fs).LoadJSON()
	default:
		_, err = compile(M{}).Validate(gjs.NewReferenceLoaderFileSystem("file:///a.json", fs))
	}
	sym.Assert(err != nil, "a file that cannot be read to its end is refused")
}

// H_C26_urls: the URL requested is the one written, but for its fragment: case, slashes, queries,
// ports, escapes and user names are kept.
func H_C26_urls() {
	u := []string{"http://x.test/", "http://x.test", "http://x.test/a/", "http://x.test/a//b", "http://x.test/A.json", "http://x.test:8080/a", "https://x.test/a", "http://x.test/a?q=1&r=%20", "http://x.test/a?", "http://u@x.test/a", "http://x.test/%41", "http://x.test/a%2Fb", "http://x.test/a+b", "http://x.test/~a", "http://x.test/a;b", "http://x.test/a.json/", "http://x.test/é"}[sym.Choose("u", 17)]
	f := []string{"", "#", "#/definitions/q", "#/"}[sym.Choose("f", 3)]
	want := u
	if u == "http://x.test/é" {
		want = "http://x.test/%C3%A9"
	}
	sym.SetHTTP(func(r string) (int, string, error) {
		if strings.HasPrefix(r, "http") {
			return 200, `{"definitions":{"q":{}}}`, nil
		}
		return 0, "", errors.New("unreachable")
	})
	var err error
	switch sym.Choose("how", 3) {
	case 0:
		_, err = gjs.NewSchema(gjs.NewReferenceLoader(u + f))
	case 1:
		_, err = gjs.NewSchema(gjs.NewRawLoader(M{"properties": M{"p": M{"$ref": u + f}}}))
	default:
		_, err = gjs.NewSchema(gjs.NewRawLoader(M{"$id": "http://y.test/z", "allOf": A{M{"$ref": u + f}}}))
	}
	if err != nil {
		sym.Assert(false, "a reference is fetched: "+u+": "+err.Error())
	}
	sym.Assert(len(sym.Requests) == 1 && sym.Requests[0] == want, "the URL requested is the one written: "+u)
}

// H_C27_special: errors about odd values print, and their texts hold the names unchanged.
func H_C27_special() {
	v := special("v")
	name := odd("n")
	r := run(compile(M{"additionalProperties": M{"not": M{}}}), M{name: v})
	e := r.Errors()
	sym.Assert(len(e) == 1, "one error")
	sym.Assert(e[0].String() == name+": Must not validate the schema (not)", "the text of an error")
	sym.Assert(e[0].Description() == "Must not validate the schema (not)", "the description of an error")
}

// H_C27_names: odd names in required, dependencies, additional properties and names are shown
// unchanged in descriptions.
func H_C27_names() {
	n := odd("n")
	var s M
	v := M{}
	want := ""
	switch sym.Choose("k", 4) {
	case 0:
		s, want = M{"required": A{n}}, n+" is required"
	case 1:
		s, want = M{"dependencies": M{"zz": A{n}}}, "Has a dependency on "+n
		v["zz"] = nil
	case 2:
		s, want = M{"additionalProperties": false}, "Additional property "+n+" is not allowed"
		v[n] = nil
	default:
		s, want = M{"propertyNames": false}, "Property name of \""+n+"\" does not match"
		v[n] = nil
	}
	r := run(compile(s), v)
	found := false
	for _, e := range r.Errors() {
		if e.Description() == want {
			found = true
		}
	}
	sym.Assert(found, "the description names the property")
}

// H_C28_richer: an alternative of the right type most of whose members hold explains, not one of
// another type or one that lacks more.
func H_C28_richer() {
	kw := alternative()
	props, in := M{}, M{}
	bad := sym.Choose("bad", 3)
	for k := 0; k < 5; k++ {
		props["p"+itoa(k)] = M{"type": "integer", "minimum": N("3")}
		in["p"+itoa(k)] = N("5")
		if k < bad {
			in["p"+itoa(k)] = N("1")
		}
	}
	right := M{"type": "object", "properties": props, "required": A{"p0", "p1"}}
	wrong := []interface{}{M{"type": "string"}, M{"type": "array", "items": M{}}, false, M{"type": "object", "maxProperties": N("0"), "required": A{"x", "y", "z"}}}[sym.Choose("wrong", 4)]
	bs := A{wrong, right}
	if sym.Choose("order", 2) == 1 {
		bs = A{right, wrong}
	}
	r := run(compile(M{kw: bs}), in)
	rest := alone(right, in)
	if len(rest) == 0 {
		sym.Assert(r.Valid(), "a matched alternative leaves no errors")
		return
	}
	typ := "number_any_of"
	if kw == "oneOf" {
		typ = "number_one_of"
	}
	explained(r, typ, rest, "the alternative most of which holds")
}
