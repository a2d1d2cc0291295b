package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// floor accepts the numbers from n on.
func floor(n interface{}) M { return M{"minimum": n} }

// H_C23_url: two schemas (any lower limits) added under URLs with a free letter; a reference to a
// URL with a free letter decides like the schema added under exactly that URL, in any order of
// adding, and fails without a request to a known name otherwise.
func H_C23_url() {
	sym.SetHTTP(nil)
	la, lb, lr := sym.Str("la", 1, "ab AB")[:1], sym.Str("lb", 1, "abAB"), sym.Str("lr", 1, "abAB")
	sym.Assume(la != " ")
	a, b := num("a", "d"), num("b", "d")
	base := []string{"http://x.test/", "http://X.test/s/", "urn:n:", "file:///none/"}[sym.Choose("base", 4)]
	sl := gjs.NewSchemaLoader()
	ua, ub := base+la, base+lb
	errA := sl.AddSchema(ua, gjs.NewRawLoader(floor(a)))
	sym.Assert(errA == nil, "adding a first schema works")
	errB := sl.AddSchema(ub, gjs.NewRawLoader(floor(b)))
	sym.Assert((errB != nil) == (la == lb), "a second schema is refused exactly if its URL is taken")
	v := num("v", "d")
	var s M
	r := base + lr + []string{"", "#"}[sym.Choose("hash", 2)]
	switch sym.Choose("how", 3) {
	case 0:
		s = M{"$ref": r}
	case 1:
		s = M{"allOf": A{M{"$ref": r}}}
	default:
		s = M{"not": M{"not": M{"$ref": r}}}
	}
	sch, err := sl.Compile(gjs.NewRawLoader(s))
	if lr == la || lr == lb {
		sym.Assert(err == nil, "a reference to an added schema resolves")
		want := floor(a)
		if lr != la {
			want = floor(b)
		}
		sym.Cover("resolved")
		sym.Assert(run(sch, v).Valid() == ref.Valid(want, v), "the reference decides like the schema added under its URL")
		sym.Assert(len(sym.Requests) == 0, "added schemas are not fetched")
		return
	}
	sym.Cover("unknown")
	sym.Assert(err != nil, "a reference to a URL nobody added or serves is refused")
}

// H_C23_ids: documents given to AddSchemas are known by their identifier ("$id" or "id"), and
// their parts by pointers and embedded identifiers; order and grouping of the calls do not matter.
func H_C23_ids() {
	sym.SetHTTP(nil)
	key := []string{"$id", "id"}[sym.Choose("key", 2)]
	a, b, v := num("a", "d"), num("b", "d"), num("v", "d")
	d1 := M{key: "http://x.test/one.json", "definitions": M{"p": floor(a), "e": M{key: "emb.json", "maximum": b}, "two": M{"$ref": "two.json"}, "anch": M{key: "#here", "const": a}}}
	d2 := M{key: "http://x.test/two.json", "minimum": b, "definitions": M{"one": M{"$ref": "one.json#/definitions/p"}}}
	d3 := M{key: "http://y.test/three.json", "const": b}
	var docs []gjs.JSONLoader
	for _, k := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}}[sym.Choose("order", 4)] {
		docs = append(docs, gjs.NewRawLoader([]M{d1, d2, d3}[k]))
	}
	sl := gjs.NewSchemaLoader()
	if sym.Choose("split", 2) == 1 {
		sym.Assert(sl.AddSchemas(docs[0]) == nil, "AddSchemas")
		sym.Assert(sl.AddSchemas(docs[1], docs[2]) == nil, "AddSchemas")
	} else {
		sym.Assert(sl.AddSchemas(docs...) == nil, "AddSchemas")
	}
	type c struct {
		r    string
		want M
	}
	cs := []c{
		{"http://x.test/one.json#/definitions/p", floor(a)},
		{"http://x.test/emb.json", M{"maximum": b}},
		{"http://x.test/one.json#/definitions/e", M{"maximum": b}},
		{"http://x.test/one.json#/definitions/two", floor(b)},
		{"http://x.test/one.json#here", M{"const": a}},
		{"http://x.test/two.json", floor(b)},
		{"http://x.test/two.json#", floor(b)},
		{"http://x.test/two.json#/definitions/one", floor(a)},
		{"http://y.test/three.json", M{"const": b}},
		{"http://x.test/one.json", M{}},
	}
	x := cs[sym.Choose("c", len(cs))]
	var sch *gjs.Schema
	var err error
	if sym.Choose("how", 2) == 0 {
		sch, err = sl.Compile(gjs.NewRawLoader(M{"$ref": x.r}))
	} else {
		sch, err = sl.Compile(gjs.NewReferenceLoader(x.r))
	}
	sym.Assert(err == nil, "a reference into an added document resolves: "+x.r)
	sym.Assert(run(sch, v).Valid() == ref.Valid(x.want, v), "a reference into an added document decides like its target: "+x.r)
	sym.Assert(len(sym.Requests) == 0, "added documents are not fetched")
}

// H_C23_duplicate: a URL or identifier that is taken cannot be given to another schema by any
// of the calls, the first one stays, and other URLs can still be added.
func H_C23_duplicate() {
	sym.SetHTTP(nil)
	a, b, v := num("a", "d"), num("b", "d"), num("v", "d")
	u := "http://x.test/" + sym.Str("u", 1, "ab")
	w := "http://x.test/" + sym.Str("w", 1, "ab")
	add := func(name, url string, n interface{}, sl *gjs.SchemaLoader) error {
		s := M{"minimum": n}
		if sym.Choose(name, 2) == 0 {
			return sl.AddSchema(url, gjs.NewRawLoader(s))
		}
		s["$id"] = url
		return sl.AddSchemas(gjs.NewRawLoader(s))
	}
	sl := gjs.NewSchemaLoader()
	sym.Assert(add("first", u, a, sl) == nil, "the first schema is added")
	err := add("second", w, b, sl)
	sym.Assert((err != nil) == (u == w), "a schema is refused exactly if its URL is taken")
	sch, err := sl.Compile(gjs.NewRawLoader(M{"$ref": u}))
	sym.Assert(err == nil, "the first schema is still there")
	sym.Assert(run(sch, v).Valid() == ref.Valid(floor(a), v), "the first schema keeps its meaning")
	sym.Assert(add("third", "http://x.test/c", b, sl) == nil, "other URLs can still be added")
}

// H_C23_bad: adding a source that is no JSON, or under a URL that is none, fails.
func H_C23_bad() {
	sym.SetHTTP(nil)
	sl := gjs.NewSchemaLoader()
	bad := []string{"", "{", `{"a":}`, "nope", `{"minimum":1}}`, `{} {}`, "[1", `"`}[sym.Choose("bad", 8)]
	l := gjs.NewStringLoader(bad)
	if sym.Choose("bytes", 2) == 1 {
		l = gjs.NewBytesLoader([]byte(bad))
	}
	var err error
	switch sym.Choose("how", 4) {
	case 0:
		err = sl.AddSchema("http://x.test/s", l)
	case 1:
		err = sl.AddSchemas(l)
	case 2:
		err = sl.AddSchemas(gjs.NewStringLoader(`{"$id":"http://x.test/ok"}`), l)
	default:
		err = sl.AddSchema(":bad url", gjs.NewStringLoader(`{}`))
	}
	sym.Assert(err != nil, "a source that cannot be read is refused")
}

// H_C23_separate: schemas added to one loader are unknown to another, and the schemas of two
// loaders under one URL keep apart.
func H_C23_separate() {
	sym.SetHTTP(nil)
	a, b, v := num("a", "d"), num("b", "d"), num("v", "d")
	u := "http://x.test/s"
	one, two := gjs.NewSchemaLoader(), gjs.NewSchemaLoader()
	sym.Assert(one.AddSchema(u, gjs.NewRawLoader(floor(a))) == nil, "AddSchema")
	both := sym.Choose("both", 2) == 1
	if both {
		sym.Assert(two.AddSchema(u, gjs.NewRawLoader(floor(b))) == nil, "the URL is free in another loader")
	}
	_, err := two.Compile(gjs.NewRawLoader(M{"$ref": u}))
	sym.Assert((err == nil) == both, "a loader knows only its own schemas")
	_, err = gjs.NewSchema(gjs.NewRawLoader(M{"$ref": u}))
	sym.Assert(err != nil, "a loader knows only its own schemas")
	sch, err := one.Compile(gjs.NewRawLoader(M{"$ref": u}))
	sym.Assert(err == nil, "Compile")
	sym.Assert(run(sch, v).Valid() == ref.Valid(floor(a), v), "the schema of this loader is used")
}

// H_C23_first: what a reference means is settled by the added schema even when the URL could
// also be fetched, or is that of a metaschema.
func H_C23_first() {
	serve(map[string]string{"http://x.test/s": letterDoc("remote"), "http://x.test/t": `{"$id":"http://x.test/s","const":"other"}`})
	u := []string{"http://x.test/s", "http://json-schema.org/draft-07/schema", "http://json-schema.org/draft-04/schema"}[sym.Choose("u", 3)]
	sl := gjs.NewSchemaLoader()
	var err error
	if sym.Choose("how", 2) == 0 {
		err = sl.AddSchema(u, gjs.NewStringLoader(letterDoc("added")))
	} else {
		err = sl.AddSchemas(gjs.NewStringLoader(`{"$id":"` + u + `","const":"added"}`))
	}
	sym.Assert(err == nil, "AddSchema")
	sch, err := sl.Compile(gjs.NewRawLoader(M{"properties": M{"p": M{"$ref": u}}}))
	sym.Assert(err == nil, "Compile")
	v := []interface{}{"added", "remote", "other", N("1"), M{"type": N("1")}}[sym.Choose("v", 5)]
	sym.Assert(run(sch, M{"p": v}).Valid() == (v == interface{}("added")), "the added schema counts")
	sym.Assert(len(sym.Requests) == 0, "the added schema is not fetched")
}

// H_C23_mutual: added schemas that refer to each other in a cycle, at any depth of the instance.
func H_C23_mutual() {
	sym.SetHTTP(nil)
	a, b := num("a", "d"), num("b", "d")
	sl := gjs.NewSchemaLoader()
	docs := []M{
		{"$id": "http://x.test/a", "properties": M{"n": floor(a), "b": M{"$ref": "b"}}},
		{"$id": "http://x.test/b", "properties": M{"n": floor(b), "a": M{"$ref": "a"}}},
	}
	k := sym.Choose("order", 2)
	sym.Assert(sl.AddSchemas(gjs.NewRawLoader(docs[k]), gjs.NewRawLoader(docs[1-k])) == nil, "AddSchemas")
	sch, err := sl.Compile(gjs.NewReferenceLoader("http://x.test/a"))
	sym.Assert(err == nil, "Compile")
	x, y, z := num("x", "d"), num("y", "d"), num("z", "d")
	v := M{"n": x, "b": M{"n": y, "a": M{"n": z}}}
	want := sym.And(ref.Valid(floor(a), x), sym.And(ref.Valid(floor(b), y), ref.Valid(floor(a), z)))
	sym.Assert(run(sch, v).Valid() == want, "schemas that refer to each other")
}
