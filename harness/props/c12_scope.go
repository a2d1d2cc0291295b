package props

import (
	"errors"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// serve answers every URL of docs and records all requests.
func serve(docs map[string]string) {
	sym.SetHTTP(func(u string) (int, string, error) {
		if d, ok := docs[u]; ok {
			return 200, d, nil
		}
		return 0, "", errors.New("unreachable " + u)
	})
}

// letterDoc accepts exactly the string s.
func letterDoc(s string) string { return `{"const":"` + s + `"}` }

// H_C12_base: a relative reference is resolved against the nearest enclosing $id; the
// document that is reached is identified by a constant.
func H_C12_base() {
	docs := map[string]string{
		"http://x.test/leaf.json":      letterDoc("root"),
		"http://x.test/sub/leaf.json":  letterDoc("sub"),
		"http://x.test/a/b/leaf.json":  letterDoc("ab"),
		"http://y.test/leaf.json":      letterDoc("y"),
		"http://x.test/sub/leaf.json2": letterDoc("never"),
	}
	serve(docs)
	idKey := []string{"$id", "id"}[sym.Choose("idkey", 2)]
	type c struct {
		outer, inner, r, want string
	}
	cs := []c{
		{"http://x.test/main.json", "", "leaf.json", "root"},
		{"http://x.test/main.json", "", "./leaf.json", "root"},
		{"http://x.test/main.json", "", "sub/leaf.json", "sub"},
		{"http://x.test/main.json", "", "/sub/leaf.json", "sub"},
		{"http://x.test/main.json", "", "http://y.test/leaf.json", "y"},
		{"http://x.test/main.json", "", "//y.test/leaf.json", "y"},
		{"http://x.test/main.json", "sub/", "leaf.json", "sub"},
		{"http://x.test/main.json", "sub/other.json", "leaf.json", "sub"},
		{"http://x.test/main.json", "sub/", "../leaf.json", "root"},
		{"http://x.test/main.json", "sub/", "/leaf.json", "root"},
		{"http://x.test/main.json", "http://y.test/m.json", "leaf.json", "y"},
		{"http://x.test/main.json", "/a/b/", "leaf.json", "ab"},
		{"http://x.test/a/main.json", "b/", "leaf.json", "ab"},
		{"http://x.test/a/main.json", "../sub/x", "leaf.json", "sub"},
		{"http://x.test/a/b/main.json", "", "../../sub/leaf.json", "sub"},
		{"http://x.test/sub/", "", "leaf.json", "sub"},
		{"http://x.test/main.json", "", "leaf.json#", "root"},
		{"http://x.test/main.json", "", "sub/../leaf.json", "root"},
	}
	x := cs[sym.Choose("c", len(cs))]
	leaf := M{"properties": M{"p": M{"$ref": x.r}}}
	if x.inner != "" {
		leaf[idKey] = x.inner
	}
	var s M
	switch sym.Choose("at", 4) {
	case 0:
		s = M{idKey: x.outer, "allOf": A{leaf}}
	case 1:
		s = M{idKey: x.outer, "definitions": M{"d": leaf}, "allOf": A{M{"$ref": "#/definitions/d"}}}
	case 2:
		s = M{idKey: x.outer, "anyOf": A{false, leaf}}
	default:
		s = M{idKey: x.outer, "if": true, "then": leaf}
	}
	v := []string{"root", "sub", "ab", "y", "never"}[sym.Choose("v", 5)]
	got := run(compile(s), M{"p": v}).Valid()
	sym.Assert(got == (v == x.want), "a relative reference reaches the document its base selects: "+x.outer+" "+x.inner+" "+x.r)
}

// H_C12_siblingscope: the $id of one subschema does not affect its neighbours.
func H_C12_siblingscope() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("root"), "http://x.test/sub/leaf.json": letterDoc("sub")})
	s := M{"$id": "http://x.test/main.json", "properties": M{
		"a": M{"$id": "sub/", "items": M{"$ref": "leaf.json"}},
		"b": M{"$ref": "leaf.json"},
		"c": M{"items": M{"$ref": "leaf.json"}},
	}}
	names := []string{"root", "sub"}
	a, b, c := names[sym.Choose("a", 2)], names[sym.Choose("b", 2)], names[sym.Choose("cc", 2)]
	got := run(compile(s), M{"a": A{a}, "b": b, "c": A{c}}).Valid()
	sym.Assert(got == (a == "sub" && b == "root" && c == "root"), "an $id only scopes its own subschema")
}

// H_C12_embedded: a subschema with an $id is reachable by its absolute URI without any
// request, from anywhere in the document.
func H_C12_embedded() {
	sym.SetHTTP(nil)
	t := M{"minimum": num("t", "d")}
	def := merge(t, "$id", "")
	type c struct{ id, r string }
	cs := []c{{"http://y.test/a.json", "http://y.test/a.json"}, {"http://y.test/a.json", "http://y.test/a.json#"}, {"sub/a.json", "http://x.test/sub/a.json"}, {"sub/a.json", "sub/a.json"},
		{"#anchor", "#anchor"}, {"#anchor", "http://x.test/main.json#anchor"}, {"http://y.test/b.json#foo", "http://y.test/b.json#foo"}, {"urn:x:y", "urn:x:y"}}
	x := cs[sym.Choose("c", len(cs))]
	def["$id"] = x.id
	s := M{"$id": "http://x.test/main.json"}
	switch sym.Choose("where", 3) {
	case 0:
		s["definitions"] = M{"d": def}
		s["properties"] = M{"p": M{"$ref": x.r}}
	case 1:
		s["properties"] = M{"p": M{"$ref": x.r}, "zz": def}
	default:
		s["allOf"] = A{M{"properties": M{"p": M{"$ref": x.r}}}, M{"not": M{"required": A{"zz"}, "properties": M{"zz": def}}}}
	}
	v := num("v", "d")
	got := run(compile(s), M{"p": v}).Valid()
	sym.Assert(got == ref.Valid(t, v), "an embedded $id is found: "+x.id+" "+x.r)
	sym.Assert(len(sym.Requests) == 0, "an embedded $id is not requested from the network")
}

// H_C12_remote: references inside a remote document are resolved against that document,
// and its own fragments stay in it.
func H_C12_remote() {
	d := num("d", "d")
	digit := string(d)
	serve(map[string]string{
		"http://x.test/r/one.json": `{"definitions":{"q":{"const":"one"},"t":{"$ref":"two.json#/definitions/q"},"self":{"$ref":"#/definitions/q"}},"properties":{"n":{"minimum":` + digit + `}}}`,
		"http://x.test/r/two.json": `{"definitions":{"q":{"const":"two"}},"allOf":[{"$ref":"one.json"},{"$ref":"#/definitions/w"}],"x":0}`,
		"http://x.test/two.json":   `{"definitions":{"q":{"const":"wrong"}}}`,
	})
	type c struct{ r, want string }
	cs := []c{{"r/one.json#/definitions/q", "one"}, {"r/one.json#/definitions/t", "two"}, {"r/one.json#/definitions/self", "one"}, {"r/two.json#/definitions/q", "two"}, {"two.json#/definitions/q", "wrong"}}
	x := cs[sym.Choose("c", len(cs))]
	s := M{"$id": "http://x.test/main.json", "definitions": M{"q": M{"const": "main"}}, "properties": M{"p": M{"$ref": x.r}, "q": M{"$ref": "#/definitions/q"}, "o": M{"$ref": "r/one.json"}}}
	v := []string{"one", "two", "wrong", "main"}[sym.Choose("v", 4)]
	n := num("n", "d")
	got := run(compile(s), M{"p": v, "q": "main", "o": M{"n": n}}).Valid()
	sym.Assert(got == (v == x.want && ref.Rat(n).Cmp(ref.Rat(d)) >= 0), "references in a remote document: "+x.r)
}

// H_C12_added: relative references between schemas added under URLs.
func H_C12_added() {
	sym.SetHTTP(nil)
	sl := gjs.NewSchemaLoader()
	names := []string{"http://x.test/a/s.json", "http://x.test/b/s.json", "http://x.test/s.json"}
	refs := []string{"s.json", "../b/s.json", "/s.json", "../s.json"}
	want := []string{"a", "b", "r", "r"}
	for k, n := range names {
		err := sl.AddSchema(n, gjs.NewStringLoader(letterDoc([]string{"a", "b", "r"}[k])))
		sym.Assert(err == nil, "AddSchema")
	}
	k := sym.Choose("k", len(refs))
	err := sl.AddSchema("http://x.test/a/main.json", gjs.NewStringLoader(`{"properties":{"p":{"$ref":"`+refs[k]+`"}}}`))
	sym.Assert(err == nil, "AddSchema")
	sch, err := sl.Compile(gjs.NewReferenceLoader("http://x.test/a/main.json"))
	sym.Assert(err == nil, "Compile")
	v := []string{"a", "b", "r"}[sym.Choose("v", 3)]
	sym.Assert(run(sch, M{"p": v}).Valid() == (v == want[k]), "references of an added schema are relative to its URL")
	sym.Assert(len(sym.Requests) == 0, "added schemas need no request")
}

// H_C12_notid: "$id"/"id" that name a property or sit inside enum or const do not change
// the base.
func H_C12_notid() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("root"), "http://z.test/leaf.json": letterDoc("z")})
	idKey := []string{"$id", "id"}[sym.Choose("idkey", 2)]
	s := M{"$id": "http://x.test/main.json"}
	if idKey == "id" {
		s = M{"id": "http://x.test/main.json"}
	}
	p := M{"$ref": "leaf.json"}
	switch sym.Choose("k", 3) {
	case 0:
		s["properties"] = M{idKey: M{"const": "http://z.test/"}, "p": p}
	case 1:
		s["properties"] = M{"p": p}
		s["not"] = M{"enum": A{M{idKey: "http://z.test/", "$ref": "leaf.json"}}}
	default:
		s["properties"] = M{"p": M{"allOf": A{p}, "not": M{"const": M{idKey: "http://z.test/"}}}}
	}
	v := []string{"root", "z"}[sym.Choose("v", 2)]
	sym.Assert(run(compile(s), M{"p": v}).Valid() == (v == "root"), "an id that is no identifier")
}
