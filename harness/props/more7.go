package props

import (
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"

	"verifharness/ref"
	"verifharness/sym"
)

// H_C24_drafts: schemas of two drafts given to one loader one after the other, in each way, are each checked against the metaschema of their own draft.
func H_C24_drafts() {
	sl := gjs.NewSchemaLoader()
	sl.Validate = true
	for k := 0; k < 2; k++ {
		d := []int{4, 6, 7}[sym.Choose("d"+itoa(k), 3)]
		doc := []M{{"exclusiveMinimum": true, "minimum": N("1")}, {"exclusiveMinimum": N("1")}, {"contains": N("1")}, {"$comment": N("1")}, {"readOnly": "x"}, {"examples": N("1")}}[sym.Choose("doc"+itoa(k), 6)]
		s := M{"$schema": draftURL[d] + "#"}
		for n, x := range doc {
			s[n] = x
		}
		ok := metaValid(d, s)
		if k == 0 || sym.Choose("way", 2) == 0 {
			sym.Assert((sl.AddSchema("http://x.test/s"+itoa(k), gjs.NewRawLoader(s)) == nil) == ok, "a schema is checked against its own metaschema")
			continue
		}
		_, err := sl.Compile(gjs.NewRawLoader(s))
		if !ok {
			sym.Assert(err != nil, "a schema is checked against its own metaschema")
		} else if err != nil {
			_, plain := gjs.NewSchema(gjs.NewRawLoader(s))
			sym.Assert(plain != nil, "a schema is checked against its own metaschema")
		}
	}
}

// H_C25_nils: nil and empty slices, maps and pointers given as Go values are null, [] and {} as encoding/json has them.
func H_C25_nils() {
	var ns []interface{}
	var nm map[string]interface{}
	var np *int
	var nss []string
	one := 1
	type c struct {
		v    interface{}
		want interface{}
	}
	x := []c{{ns, nil}, {nm, nil}, {np, nil}, {nss, nil}, {[]interface{}{}, A{}}, {map[string]interface{}{}, M{}}, {[]string{}, A{}}, {&one, N("1")}, {[]interface{}{ns, nm, A{}}, A{nil, nil, A{}}}, {map[string]interface{}{"a": ns, "b": nm}, M{"a": nil, "b": nil}}, {struct{}{}, M{}}, {[]*int{nil, &one}, A{nil, N("1")}}}[sym.Choose("x", 12)]
	v, err := gjs.NewGoLoader(x.v).LoadJSON()
	sym.Assert(err == nil && ref.Equal(v, x.want) && ref.TypeOf(v) == ref.TypeOf(x.want), "a Go value is what it encodes to")
	t := []string{"null", "array", "object"}[sym.Choose("t", 3)]
	r, err := gjs.Validate(gjs.NewRawLoader(M{"type": t}), gjs.NewGoLoader(x.v))
	sym.Assert(err == nil && r.Valid() == (ref.TypeOf(x.want) == t), "a Go value decides as what it encodes to")
}

// H_C26_everychar: every printable character, escaped, at the start, in the middle and at the end of a file name.
func H_C26_everychar() {
	c := byte(33 + sym.Choose("c", 94))
	if c == '/' {
		return
	}
	const hex = "0123456789ABCDEF"
	esc := "%" + string(hex[c>>4]) + string(hex[c&15])
	pre, post := "", ""
	switch sym.Choose("at", 3) {
	case 0:
		pre = "a"
	case 1:
		post = "a"
	case 2:
		pre, post = "a", "b.json"
	}
	if c == '.' && pre == "" {
		return
	}
	name := "/d/" + pre + string(c) + post
	fs := &memFS{files: map[string]string{name: `{"type":"integer"}`, "/d/a": `{"type":"null"}`, "/main.json": `{"items":{"$ref":"d/` + pre + esc + post + `"}}`}}
	if name == "/d/a" {
		return
	}
	r, v := "file:///d/"+pre+esc+post, interface{}(N("1"))
	if sym.Choose("how", 2) == 1 {
		r, v = "file:///main.json", A{N("1")}
	}
	sch, err := gjs.NewSchema(gjs.NewReferenceLoaderFileSystem(r, fs))
	if err != nil {
		sym.Assert(false, "a file of the file system is found: "+r+": "+err.Error())
	}
	sym.Assert(run(sch, v).Valid(), "the schema in the file decides")
	sym.Assert(counts(fs.opened, name) == 1, "the file is opened once under its name")
}

// H_C26_queries: URLs that differ in their query, port, scheme or case of the path are different documents, each requested once, also with fragments.
func H_C26_queries() {
	urls := []string{"http://x.test/r.json", "http://x.test/r.json?a=1", "http://x.test/r.json?a=2", "http://x.test/r.json?", "http://x.test:81/r.json", "https://x.test/r.json", "http://x.test/R.json", "http://x.test/r.json/"}
	docs := map[string]string{}
	for k, u := range urls {
		docs[u] = `{"const":` + itoa(k) + `,"definitions":{"q":{"const":"q` + itoa(k) + `"}}}`
	}
	serve(docs)
	a, b := sym.Choose("a", len(urls)), sym.Choose("b", len(urls))
	sym.Assume(a != 3 && b != 3) // an empty query may be dropped
	deep := sym.Choose("deep", 2) == 1
	u, w := urls[a], urls[b]
	va, vb := interface{}(N(itoa(a))), interface{}(N(itoa(b)))
	if deep {
		u, w = u+"#/definitions/q", w+"#/definitions/q"
		va, vb = "q"+itoa(a), "q"+itoa(b)
	}
	sl := gjs.NewSchemaLoader()
	sl.AutoDetect = sym.Choose("detect", 2) == 1
	sch, err := sl.Compile(gjs.NewRawLoader(M{"items": A{M{"$ref": u}, M{"$ref": w}}}))
	if err != nil {
		sym.Assert(false, "a document is found: "+err.Error())
	}
	sym.Assert(run(sch, A{va, vb}).Valid(), "each reference means its own document")
	sym.Assert(run(sch, A{vb, va}).Valid() == (a == b), "each reference means its own document only")
	n := 2
	if a == b {
		n = 1
	}
	sym.Assert(len(sym.Requests) == n, "each document is requested once")
}

// a part of a fetched document, reached by a pointer, whose own references (relative, local, by identifier) resolve, with and without detection of drafts.
func H_C12_part() {
	serve(map[string]string{
		"http://x.test/d/r.json":    `{"definitions":{"q":{"allOf":[{"$ref":"leaf.json"}]},"s":{"$ref":"#/definitions/t"},"t":{"const":"t"},"u":{"items":{"$ref":"#mark"}},"m":{"$id":"#mark","const":"m"},"w":{"$id":"e/","items":{"$ref":"leaf.json"}}}}`,
		"http://x.test/d/leaf.json": letterDoc("leaf"), "http://x.test/d/e/leaf.json": letterDoc("inner"), "http://x.test/leaf.json": letterDoc("wrong"),
	})
	type c struct {
		r    string
		good interface{}
	}
	x := []c{{"q", "leaf"}, {"s", "t"}, {"t", "t"}, {"u", A{"m"}}, {"w", A{"inner"}}, {"m", "m"}}[sym.Choose("x", 6)]
	sl := gjs.NewSchemaLoader()
	sl.AutoDetect = sym.Choose("detect", 2) == 1
	if sym.Choose("draft", 2) == 1 {
		sl.Draft = gjs.Draft7
	}
	main := M{"additionalItems": M{"$ref": "http://x.test/d/r.json#/definitions/" + x.r}, "items": A{M{}}}
	if sym.Choose("whole", 2) == 1 {
		main["items"] = A{M{"$ref": "http://x.test/d/r.json"}}
	}
	sch, err := sl.Compile(gjs.NewRawLoader(main))
	if err != nil {
		sym.Assert(false, "the references of a part resolve: "+err.Error())
	}
	v := A{"leaf", "t", A{"m"}, A{"inner"}, "m", "wrong", A{"wrong"}}[sym.Choose("v", 7)]
	want := ref.Equal(v, x.good)
	if ref.TypeOf(x.good) == "array" && ref.TypeOf(v) != "array" {
		want = true // items says nothing about it
	}
	sym.Assert(run(sch, A{nil, v}).Valid() == want, "the references of a part resolve in its document")
}

// H_C27_ownroot: an error a user adds at the root, at a member or at any depth is described with its context.
func H_C27_ownroot() {
	c := gjs.NewJsonContext("(root)", nil)
	path, field := "(root)", "(root)"
	for k, n := 0, sym.Choose("n", 3); k < n; k++ {
		p := sym.Str("p"+itoa(k), 1, "abAB")
		c = gjs.NewJsonContext(p, c)
		path += "." + p
		field = strings.TrimPrefix(path, "(root).")
	}
	r := &gjs.Result{}
	e := &ownError{}
	e.SetType("own")
	e.SetContext(c)
	e.SetDescriptionFormat("{{.context}} and {{.what}}")
	e.SetValue("v")
	r.AddError(e, gjs.ErrorDetails{"what": "v"})
	g := r.Errors()[0]
	sym.Assert(g.Description() == path+" and v", "an added error is described with its place: "+g.Description())
	sym.Assert(g.Field() == field, "an added error keeps its place")
	sym.Assert(g.String() == field+": "+path+" and v", "an added error prints with its place")
}

type longLocale struct{ gjs.DefaultLocale }

var longText = strings.Repeat("a long text before ", 10)

func (longLocale) Required() string    { return longText + "{{.property}}/{{.nothing}}/{{.context}}" }
func (longLocale) NumberGTE() string   { return "{{.nothing}}{{.min}}" }
func (longLocale) ErrorFormat() string { return longText + "{{.field}}|{{.nothing}}|{{.description}}" }

// H_C27_longtexts: texts of a locale of any length, that also name details an error does not have, are rendered alike.
func H_C27_longtexts() {
	l := sym.Str("l", 1, "abAB")
	old := gjs.Locale
	gjs.Locale = longLocale{}
	e := run(compile(M{"required": A{l}}), M{}).Errors()
	f := run(compile(M{"minimum": N("5")}), N("3")).Errors()
	es, fs := e[0].String(), f[0].String()
	gjs.Locale = old
	d := longText + l + "/<no value>/(root)"
	sym.Assert(len(e) == 1 && e[0].Description() == d, "a long text is rendered")
	sym.Assert(len(f) == 1 && f[0].Description() == "<no value>5", "a short text is rendered")
	sym.Assert(es == longText+"(root)|<no value>|"+d, "a long form is rendered")
	sym.Assert(fs == longText+"(root)|<no value>|<no value>5", "a long form is rendered with a short text")
}

// H_C27_indices: the two equal elements are told by their indices, any two of 8.
func H_C27_indices() {
	n := 2 + sym.Choose("n", 7)
	i, j := sym.Choose("i", 8), sym.Choose("j", 8)
	sym.Assume(i < j && j < n)
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, "e"+itoa(k))
	}
	v[j] = v[i]
	e := run(compile(M{"uniqueItems": true}), v).Errors()
	sym.Assert(len(e) == 1, "one pair of equal elements is one error")
	d := e[0].Details()
	a, b := d["i"], d["j"]
	sym.Assert(a == i && b == j || a == j && b == i, "the indices of the equal elements")
	text := e[0].Description()
	sym.Assert(text == "array items["+itoa(i)+","+itoa(j)+"] must be unique" || text == "array items["+itoa(j)+","+itoa(i)+"] must be unique", "the text tells the indices: "+text)
}

// H_C28_single: a list of one alternative, given directly or by reference, is explained by its errors.
func H_C28_single() {
	kw := alternative()
	b := []M{{"type": "string", "minimum": N("5")}, {"minimum": N("5"), "multipleOf": N("2")}, {"required": A{"a", "b"}}, {"items": M{"type": "null"}}, {"not": M{}}}[sym.Choose("b", 5)]
	v := A{N("3"), N("8"), M{"a": nil}, A{N("1"), nil, "x"}, "s"}[sym.Choose("v", 5)]
	rest := alone(b, v)
	s := M{kw: A{b}}
	switch sym.Choose("by", 3) {
	case 1:
		s = M{kw: A{M{"$ref": "#/definitions/b"}}, "definitions": M{"b": b}}
	case 2:
		s = M{kw: A{M{"$ref": "#/definitions/c"}}, "definitions": M{"b": b, "c": M{"$ref": "#/definitions/b"}}}
	}
	r := run(compile(s), v)
	if len(rest) == 0 {
		sym.Assert(r.Valid(), "the alternative holds")
		return
	}
	typ := "number_any_of"
	if kw == "oneOf" {
		typ = "number_one_of"
	}
	explained(r, typ, rest, "a single alternative")
}

// H_C28_refs: alternatives by reference are explained like the ones they refer to.
func H_C28_refs() {
	kw := alternative()
	bs := A{}
	defs := M{}
	plain := A{}
	for k := 0; k < 2; k++ {
		b := M{"minimum": limit("lo"+itoa(k), "2", "5", "8"), "multipleOf": limit("m"+itoa(k), "2", "3")}
		plain = append(plain, b)
		if sym.Choose("ref"+itoa(k), 2) == 1 {
			defs["b"+itoa(k)] = b
			bs = append(bs, M{"$ref": "#/definitions/b" + itoa(k)})
		} else {
			bs = append(bs, b)
		}
	}
	v := A{N("1"), N("4"), N("7"), N("9"), "x"}[sym.Choose("v", 5)]
	sym.Assert(sameKeys(errorKeys(run(compile(M{kw: bs, "definitions": defs}), v)), errorKeys(run(compile(M{kw: plain}), v))), "alternatives by reference are explained alike")
}

// H_C28_many: alternatives with up to 4 failures inside one element, member or name: the first with the fewest explains.
func H_C28_many() {
	kw := alternative()
	names := A{"a", "b", "c", "d"}
	form := sym.Choose("form", 4)
	var bs A
	for k := 0; k < 2; k++ {
		n := sym.Choose("n"+itoa(k), 5)
		need := A{}
		for i := 0; i < 4; i++ {
			if i < n {
				need = append(need, "x"+names[i].(string))
			} else {
				need = append(need, names[i])
			}
		}
		in := M{"required": need}
		switch form {
		case 0:
			bs = append(bs, M{"items": in})
		case 1:
			bs = append(bs, M{"additionalProperties": in})
		case 2:
			bs = append(bs, M{"patternProperties": M{"p": in}})
		case 3:
			bs = append(bs, M{"allOf": A{in}})
		}
	}
	o := M{"a": nil, "b": nil, "c": nil, "d": nil}
	v := []interface{}{A{o}, M{"p": o}, M{"p": o}, o}[form]
	closest(kw, bs, v, true)
}

// H_C28_wrongnames: alternatives that restrict the member names, with 0 to 3 wrong ones each: the first with the fewest explains.
func H_C28_wrongnames() {
	kw := alternative()
	lists := []A{{"a", "b", "c"}, {"a", "b"}, {"a"}, {"z"}, {"b", "c"}}
	var bs A
	for k := 0; k < 2; k++ {
		bs = append(bs, M{"propertyNames": M{"enum": lists[sym.Choose("l"+itoa(k), 5)]}})
	}
	closest(kw, bs, M{"a": nil, "b": nil, "c": nil}, true)
}

// H_C28_negated: alternatives with a negation that fails or holds, of schemas with few or many constraints, next to the same other keywords: the first with the fewest failures explains.
func H_C28_negated() {
	kw := alternative()
	n := []M{{}, {"type": "integer"}, {"type": "integer", "minimum": N("0"), "maximum": N("9"), "multipleOf": N("1"), "enum": A{N("1"), N("4"), N("9")}}, {"type": "string"}, {"allOf": A{M{"minimum": N("0")}, M{"maximum": N("9")}, M{"type": "integer"}}}}
	var bs A
	for k := 0; k < 2; k++ {
		bs = append(bs, M{"not": n[sym.Choose("n"+itoa(k), 5)], "minimum": limit("lo"+itoa(k), "2", "5"), "multipleOf": limit("m"+itoa(k), "2", "3")})
	}
	closest(kw, bs, A{N("1"), N("4"), N("9")}[sym.Choose("v", 3)], true)
}

// H_C28_shapes: two alternatives of one shape (parts of allOf, members, patterns, elements, positions, dependencies, conditions, required names) in which 0 to 3 parts fail: the first with the fewest explains.
func H_C28_shapes() {
	kw := alternative()
	form := sym.Choose("form", 9)
	list := A{N("1"), N("2"), N("3")}
	o := M{"a": N("1"), "b": N("2"), "c": N("3")}
	var v interface{} = o
	var bs A
	for k := 0; k < 2; k++ {
		mask := sym.Choose("m"+itoa(k), 8)
		part := func(i int) M {
			if mask>>uint(i)&1 == 1 {
				return M{"minimum": N("5")}
			}
			return M{"minimum": N("0")}
		}
		name := []string{"a", "b", "c"}
		in := M{}
		switch form {
		case 0:
			v = N("3")
			in["allOf"] = A{part(0), part(1), part(2)}
		case 1:
			in["properties"] = M{"a": part(0), "b": part(1), "c": part(2)}
		case 2:
			in["patternProperties"] = M{"^a$": part(0), "^b$": part(1), "c": part(2)}
		case 3:
			v = list
			in["items"] = A{part(0), part(1), part(2)}
		case 4:
			v = list
			in["items"], in["additionalItems"] = A{part(0)}, part(1)
		case 5:
			in["dependencies"] = M{"a": M{"properties": M{"a": part(0)}}, "b": M{"properties": M{"b": part(1)}}, "c": M{"properties": M{"c": part(2)}}}
		case 6:
			v = N("3")
			in["if"], in["then"], in["else"] = M{"minimum": N("0")}, M{"allOf": A{part(0), part(1)}}, part(2)
		case 7:
			l := A{}
			for i := range name {
				if mask>>uint(i)&1 == 1 {
					l = append(l, "x"+name[i])
				} else {
					l = append(l, name[i])
				}
			}
			in["required"] = l
		case 8:
			in["properties"], in["additionalProperties"] = M{"a": part(0)}, part(1)
		}
		bs = append(bs, in)
	}
	closest(kw, bs, v, true)
}
