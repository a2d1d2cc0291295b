package props

import (
	"errors"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

func counts(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}

// H_C26_names: a file reference opens exactly the file it names in the given file system: any two
// letters (in both cases), escaped and unusual characters.
func H_C26_names() {
	type c struct{ ref, name string }
	cs := []c{{"a", "a"}, {"%20", " "}, {"a+b", "a+b"}, {"%2B", "+"}, {"a%2Bb%20c", "a+b c"}, {"%25", "%"}, {"%2525", "%25"}, {"%C3%A9", "é"}, {"é", "é"}, {"%E2%82%AC", "€"}, {"a&b=c", "a&b=c"}, {"a;b", "a;b"}, {"~a", "~a"}, {"a@b", "a@b"}, {"(a)", "(a)"}, {"%41", "A"}, {"a.b.c", "a.b.c"}, {"%28x%29", "(x)"}}
	x := cs[sym.Choose("c", len(cs))]
	l := sym.Str("l", 1, "abAB")
	lo, v := num("lo", "d"), num("v", "d")
	body := `{"minimum":` + string(lo) + `}`
	name := "/d/" + l + x.name + ".json"
	fs := &memFS{files: map[string]string{name: body, "/main.json": `{"properties":{"p":{"$ref":"d/` + l + x.ref + `.json"}}}`}}
	sym.SetHTTP(nil)
	var i interface{} = v
	var r string
	switch sym.Choose("how", 3) {
	case 0:
		r = "file:///d/" + l + x.ref + ".json"
	case 1:
		r = "file:///d/" + l + x.ref + ".json#"
	default:
		r = "file:///main.json"
		i = M{"p": v}
	}
	sch, err := gjs.NewSchema(gjs.NewReferenceLoaderFileSystem(r, fs))
	if err != nil {
		sym.Assert(false, "a file of the file system is found: "+r+": "+err.Error())
	}
	sym.Assert(run(sch, i).Valid() == ref.Valid(M{"minimum": lo}, v), "the schema in the file decides")
	sym.Assert(counts(fs.opened, name) == 1, "the file is opened once under its name")
}

// H_C26_fragment: a reference with a pointer compiles to exactly that part of the document, whatever
// the document says elsewhere; a pointer to nothing is refused.
func H_C26_fragment() {
	lo, v := num("lo", "d"), num("v", "d")
	doc := `{"const":"root","definitions":{"q":{"minimum":` + string(lo) + `},"a/b":{"minimum":` + string(lo) + `},"Q":{"const":"Q"},"r":{"$ref":"#/definitions/q"}},"lists":{"l":[{"const":1},{"minimum":` + string(lo) + `}]}}`
	serve(map[string]string{"http://x.test/s.json": doc})
	fs := &memFS{files: map[string]string{"/s.json": doc}}
	good := []string{"#/definitions/q", "#/lists/l/1", "#/definitions/a~1b", "#/definitions/r"}
	bad := []string{"#/definitions/z", "#/lists/l/2", "#/definitions/q/minimum/x", "#/x", "#nope", "#/definitions/"}
	ok := sym.Choose("ok", 2) == 1
	var f string
	if ok {
		f = good[sym.Choose("g", len(good))]
	} else {
		f = bad[sym.Choose("b", len(bad))]
	}
	var sch *gjs.Schema
	var err error
	switch sym.Choose("how", 4) {
	case 0:
		sch, err = gjs.NewSchema(gjs.NewReferenceLoader("http://x.test/s.json" + f))
	case 1:
		sch, err = gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///s.json"+f, fs))
	case 2:
		sch, err = gjs.NewSchema(gjs.NewRawLoader(M{"$ref": "http://x.test/s.json" + f}))
	default:
		sl := gjs.NewSchemaLoader()
		_, err = sl.Compile(gjs.NewReferenceLoader("http://x.test/s.json"))
		sym.Assert(err == nil, "Compile")
		sch, err = sl.Compile(gjs.NewReferenceLoader("http://x.test/s.json" + f))
	}
	sym.Assert((err == nil) == ok, "a fragment resolves exactly if it points to a part of the document: "+f)
	if ok {
		sym.Assert(run(sch, v).Valid() == ref.Valid(M{"minimum": lo}, v), "the part of the document decides: "+f)
	}
}

// H_C26_status: a document is only read from a response with status 200; every other status and every
// failure is an error, for the root document, references and instances.
func H_C26_status() {
	st := []int{200, 201, 202, 203, 204, 205, 206, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 599, 0}[sym.Choose("st", 21)]
	body := []string{`{"minimum":3}`, `true`, ``, `{"minimum":`, `{} {}`}[sym.Choose("body", 5)]
	sym.SetHTTP(func(u string) (int, string, error) {
		if st == 0 {
			return 0, "", errors.New("unreachable")
		}
		return st, body, nil
	})
	_, isJSON := ref.ParseJSON(body)
	ok := st == 200 && isJSON
	var err error
	switch sym.Choose("how", 4) {
	case 0:
		_, err = gjs.NewSchema(gjs.NewReferenceLoader("http://x.test/s"))
	case 1:
		_, err = gjs.NewSchema(gjs.NewRawLoader(M{"items": M{"$ref": "https://x.test/s"}}))
	case 2:
		_, err = compile(M{}).Validate(gjs.NewReferenceLoader("http://x.test/s"))
	default:
		_, err = gjs.NewReferenceLoader("http://x.test/s").LoadJSON()
	}
	sym.Assert((err == nil) == ok, "a response counts exactly if its status is 200 and its body is JSON")
}

// H_C26_once: documents are requested without a fragment and once, however many references there
// are; only referenced ones are.
func H_C26_once() {
	serve(map[string]string{
		"http://x.test/a.json":   `{"definitions":{"q":{"const":1},"b":{"$ref":"b.json#/definitions/q"},"self":{"$ref":"a.json#/definitions/q"}}}`,
		"http://x.test/b.json":   `{"definitions":{"q":{"const":2},"a":{"$ref":"a.json#/definitions/q"}}}`,
		"http://x.test/c.json?x": `{"const":3}`,
	})
	refs := []string{"http://x.test/a.json#/definitions/q", "http://x.test/a.json#/definitions/b", "http://x.test/a.json#/definitions/self", "http://x.test/b.json#/definitions/a", "http://x.test/a.json", "http://x.test/a.json#", "http://x.test/b.json", "http://x.test/c.json?x#"}
	i, j := sym.Choose("i", len(refs)), sym.Choose("j", len(refs))
	s := M{"properties": M{"p": M{"$ref": refs[i]}, "q": M{"$ref": refs[j]}, "r": M{"$ref": refs[i]}}}
	sl := gjs.NewSchemaLoader()
	_, err := sl.Compile(gjs.NewRawLoader(s))
	sym.Assert(err == nil, "Compile")
	_, err = sl.Compile(gjs.NewReferenceLoader(refs[j]))
	sym.Assert(err == nil, "Compile")
	for _, u := range []string{"http://x.test/a.json", "http://x.test/b.json", "http://x.test/c.json?x"} {
		sym.Assert(counts(sym.Requests, u) <= 1, "a document is requested once")
	}
	for _, u := range sym.Requests {
		sym.Assert(u == "http://x.test/a.json" || u == "http://x.test/b.json" || u == "http://x.test/c.json?x", "documents are requested without a fragment")
	}
	sym.Assert(i >= 7 || j >= 7 || counts(sym.Requests, "http://x.test/c.json?x") == 0, "only referenced documents are requested")
}

// H_C26_files: all files of a schema, at any distance, are read from the file system it was given, http
// references from the network; a missing or malformed file is an error.
func H_C26_files() {
	lo, v := num("lo", "d"), num("v", "d")
	leaf := `{"definitions":{"q":{"minimum":` + string(lo) + `}}}`
	bad := sym.Choose("bad", 4)
	files := map[string]string{
		"/s/main.json":    `{"properties":{"p":{"$ref":"sub/mid.json"},"w":{"$ref":"http://x.test/w.json"}}}`,
		"/s/sub/mid.json": `{"allOf":[{"$ref":"../leaf.json#/definitions/q"}]}`,
		"/s/leaf.json":    leaf,
		"/leaf.json":      `{"definitions":{"q":{"const":"wrong"}}}`,
	}
	switch bad {
	case 1:
		delete(files, "/s/leaf.json")
	case 2:
		files["/s/sub/mid.json"] = `{"allOf":`
	case 3:
		files["/s/leaf.json"] = leaf + "x"
	}
	serve(map[string]string{"http://x.test/w.json": letterDoc("w")})
	fs := &memFS{files: files}
	sch, err := gjs.NewSchema(gjs.NewReferenceLoaderFileSystem("file:///s/main.json", fs))
	sym.Assert((err == nil) == (bad == 0), "a file that is missing or no JSON is an error")
	if bad != 0 {
		return
	}
	w := []string{"w", "x"}[sym.Choose("w", 2)]
	sym.Assert(run(sch, M{"p": v, "w": w}).Valid() == sym.And(w == "w", ref.Valid(M{"minimum": lo}, v)), "referenced files decide")
	sym.Assert(len(sym.Requests) == 1, "files are not requested from the network")
	for _, n := range fs.opened {
		sym.Assert(counts(fs.opened, n) == 1, "a file is opened once")
	}
}

// H_C26_instance: an instance loaded by reference is the whole document at that place.
func H_C26_instance() {
	lo, v := num("lo", "d"), num("v", "d")
	text := `{"a":` + string(v) + `}`
	sch := compile(M{"properties": M{"a": M{"minimum": lo}}, "required": A{"a"}})
	var r *gjs.Result
	var err error
	if sym.Choose("how", 2) == 0 {
		serve(map[string]string{"http://x.test/i.json": text})
		r, err = sch.Validate(gjs.NewReferenceLoader("http://x.test/i.json"))
	} else {
		r, err = sch.Validate(gjs.NewReferenceLoaderFileSystem("file:///i.json", &memFS{files: map[string]string{"/i.json": text}}))
	}
	sym.Assert(err == nil, "an instance is loaded by reference")
	sym.Assert(r.Valid() == ref.Valid(M{"minimum": lo}, v), "the instance at the reference decides")
}

// H_C26_nowhere: references that name no fetchable place are refused without any request.
func H_C26_nowhere() {
	sym.SetHTTP(nil)
	r := []string{"other.json", "/other.json", "a/b", "./x", "../x#/y"}[sym.Choose("r", 5)]
	var err error
	switch sym.Choose("how", 3) {
	case 0:
		_, err = gjs.NewSchema(gjs.NewRawLoader(M{"$ref": r}))
	case 1:
		_, err = gjs.NewSchema(gjs.NewReferenceLoader(r))
	default:
		_, err = gjs.NewSchema(gjs.NewRawLoader(M{"properties": M{"p": M{"$ref": r}}}))
	}
	sym.Assert(err != nil, "a relative reference without a base is refused")
	sym.Assert(len(sym.Requests) == 0, "a relative reference without a base is not requested")
}
