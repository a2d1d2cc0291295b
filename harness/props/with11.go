package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// H_C11_case: definitions whose names differ in case only, or in one letter, stay apart.
func H_C11_case() {
	a, b := sym.Str("a", 1, "aAbB"), sym.Str("b", 1, "aAbB")
	sym.Assume(a != b)
	pre := []string{"", "x", "Node", strings.Repeat("n", 60)}[sym.Choose("pre", 4)]
	lo, hi := M{"minimum": num("lo", "d")}, M{"maximum": num("hi", "d")}
	s := M{"definitions": M{pre + a: lo, pre + b: hi}, "properties": M{"p": M{"$ref": "#/definitions/" + pre + a}, "q": M{"$ref": "#/definitions/" + pre + b}}}
	if sym.Choose("id", 2) == 1 {
		s["$id"] = "http://x.test/main.json"
	}
	v, w := num("v", "d"), num("w", "d")
	want := sym.And(ref.Valid(lo, v), ref.Valid(hi, w))
	sym.Assert(run(compile(s), M{"p": v, "q": w}).Valid() == want, "each reference reaches its own definition")
}

// H_C11_badsiblings: whatever stands next to $ref is ignored, well-formed or not: every
// keyword x every odd value.
func H_C11_badsiblings() {
	kw := append([]string{"exclusiveMinimum", "$comment", "readOnly"}, keywords...)[sym.Choose("kw", len(keywords)+3)]
	sym.Assume(kw != "$ref" && kw != "$id" && kw != "id" && kw != "definitions" && kw != "title" && kw != "description")
	x := special("x")
	t := M{"minimum": num("t", "d")}
	p := M{"$ref": "#/definitions/x", kw: x}
	switch sym.Choose("more", 3) {
	case 1:
		p["minimum"] = "1"
	case 2:
		p["title"], p["type"] = "t", "string"
	}
	v := num("v", "d")
	s := M{"definitions": M{"x": t}, "properties": M{"p": p}}
	sch, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(s)))
	if err != nil {
		sym.Assert(false, "a sibling of $ref is looked at: "+kw+": "+err.Error())
	}
	sym.Assert(run(sch, M{"p": v}).Valid() == ref.Valid(t, v), "a sibling of $ref takes part: "+kw)
}

var plainNames = []string{"a", "A", "properties", "patternProperties", "dependencies", "definitions", "const", "enum", "default", "examples", "items", "allOf", "not", "if", "type", "title", "id", "required", "additionalProperties", "format", "x"}

// H_C11_containers: a relative reference below a member of any name in properties,
// patternProperties, dependencies and definitions is a reference; names may be keywords.
func H_C11_containers() {
	serve(map[string]string{"http://x.test/leaf.json": `{"required":["z"]}`})
	name := plainNames[sym.Choose("name", len(plainNames))]
	r := interface{}(M{"$ref": "leaf.json"})
	if sym.Choose("below", 2) == 1 {
		r = M{"allOf": A{r}}
	}
	has := sym.Bool("has")
	in := M{}
	if has {
		in["z"] = nil
	}
	var s M
	var v interface{} = M{name: in}
	switch sym.Choose("at", 5) {
	case 0:
		s = M{"properties": M{name: r}}
	case 1:
		s = M{"patternProperties": M{"^" + name + "$": r}}
	case 2:
		s = M{"patternProperties": M{name: r}}
	case 3:
		s = M{"dependencies": M{name: r}}
		in[name] = nil
		v = in
	default:
		s = M{"definitions": M{name: r}, "allOf": A{M{"$ref": "#/definitions/" + name}}}
		v = in
	}
	s["$id"] = "http://x.test/main.json"
	if sym.Choose("deep", 2) == 1 {
		delete(s, "$id")
		if d, ok := s["definitions"]; ok {
			delete(s, "definitions")
			s = M{"properties": M{"q": s}, "definitions": d}
		} else {
			s = M{"properties": M{"q": s}}
		}
		s["$id"] = "http://x.test/main.json"
		v = M{"q": v}
	}
	sym.Assert(run(compile(s), v).Valid() == has, "a reference below a member named "+name)
}

// H_C11_longlists: relative references at any of 24 positions of a list.
func H_C11_longlists() {
	serve(map[string]string{"http://x.test/leaf.json": `{"const":"leaf"}`})
	const n = 24
	at := pick(sym.Int("at", 0, n-1), n)
	same := sym.Bool("same")
	l, inst := A{}, A{}
	kw := []string{"allOf", "anyOf", "oneOf", "items"}[sym.Choose("kw", 4)]
	for k := 0; k < n; k++ {
		l = append(l, kw == "allOf" || kw == "items")
		inst = append(inst, nil)
	}
	l[at] = M{"$ref": "leaf.json"}
	leaf := "leaf"
	if !same {
		leaf = "loaf"
	}
	var v interface{} = leaf
	if kw == "items" {
		inst[at] = leaf
		v = inst
	}
	sym.Assert(run(compile(M{"$id": "http://x.test/main.json", kw: l}), v).Valid() == same, "a reference in a long list")
}

// H_C11_literals: objects inside enum and const are compared as they are written, also when
// they look like references or identifiers and the document has a base; at every place.
func H_C11_literals() {
	sym.SetHTTP(nil)
	which := sym.Choose("lit", 8)
	lit := func(a string) interface{} {
		return []interface{}{M{"$ref": a}, M{"$id": a}, M{"id": a}, M{"a": M{"$ref": a}}, M{"properties": M{"p": M{"$ref": a}}}, M{"definitions": M{"p": M{"$ref": a, "$id": a}}}, A{M{"$ref": a}}, M{"$schema": a}}[which]
	}
	k := sym.Str("k", 1, "xy#")
	w := sym.Str("w", 1, "xy#")
	kind := sym.Choose("kind", 3)
	sl, vl := lit(k), lit(w)
	var s interface{}
	switch kind {
	case 0:
		s = M{"const": sl}
	case 1:
		s = M{"enum": A{N("1"), sl}}
	default:
		s = M{"enum": A{sl, "a", nil}}
	}
	m, x := place("at", s, vl)
	want := ref.Valid(m, x)
	if sym.Choose("base", 2) == 1 {
		m["$id"] = "http://x.test/main.json"
	}
	sym.Assert(run(compile(m), x).Valid() == want, "literals stay as they are")
}

// H_C12_places: the base of an $id holds at every place of a subschema below it.
func H_C12_places() {
	serve(map[string]string{"http://x.test/leaf.json": letterDoc("root"), "http://x.test/sub/leaf.json": letterDoc("sub")})
	v := []string{"root", "sub"}[sym.Choose("v", 2)]
	idKey := []string{"$id", "id"}[sym.Choose("idkey", 2)]
	inner := sym.Choose("inner", 2) == 1
	s, x := place("at", M{"$ref": "leaf.json"}, v)
	target := "root"
	if inner {
		s[idKey] = "sub/"
		s = M{"allOf": A{s}}
		target = "sub"
	}
	s[idKey] = "http://x.test/main.json"
	var subst func(n interface{}) interface{}
	subst = func(n interface{}) interface{} {
		switch t := n.(type) {
		case M:
			if _, ok := t["$ref"]; ok {
				return M{"const": target}
			}
			o := M{}
			for k, e := range t {
				if k != idKey {
					o[k] = subst(e)
				}
			}
			return o
		case A:
			o := A{}
			for _, e := range t {
				o = append(o, subst(e))
			}
			return o
		}
		return n
	}
	want := ref.Valid(subst(s), x)
	sym.Assert(run(compile(s), x).Valid() == want, "the base holds at every place of a subschema")
}

// H_C12_anchors: a fragment identifier inside another document, fetched or added, referenced
// as document#name, first or after the document itself.
func H_C12_anchors() {
	d := num("d", "d")
	e := num("e", "d")
	text := `{"definitions":{"q":{"$id":"#foo","minimum":` + string(d) + `},"r":{"properties":{"z":{"$id":"#bar","maximum":` + string(e) + `}}}},"type":"integer"}`
	sl := gjs.NewSchemaLoader()
	if sym.Choose("added", 2) == 1 {
		sym.SetHTTP(nil)
		sym.Assert(sl.AddSchema("http://x.test/r.json", gjs.NewStringLoader(text)) == nil, "AddSchema")
	} else {
		serve(map[string]string{"http://x.test/r.json": text})
	}
	frag := []string{"#foo", "#bar", "#", "", "#/definitions/q"}[sym.Choose("frag", 5)]
	s := M{"$id": "http://x.test/main.json", "items": M{"$ref": "r.json" + frag}}
	if sym.Choose("before", 2) == 1 {
		s = M{"$id": "http://x.test/main.json", "allOf": A{M{"items": M{"$ref": "r.json"}}, M{"items": M{"$ref": "r.json" + frag}}}}
	}
	sch, err := sl.Compile(gjs.NewRawLoader(s))
	if err != nil {
		sym.Assert(false, "a named part of another document is not found: "+frag+": "+err.Error())
	}
	v := num("v", "d")
	want := true
	switch frag {
	case "#foo", "#/definitions/q":
		want = ref.Rat(v).Cmp(ref.Rat(d)) >= 0
	case "#bar":
		want = ref.Rat(v).Cmp(ref.Rat(e)) <= 0
	}
	sym.Assert(run(sch, A{v}).Valid() == want, "a named part of another document")
	sym.Assert(len(sym.Requests) <= 1, "a document is requested once")
}

// H_C12_renamed: a fetched document that names itself otherwise: its relative references
// are resolved against its own name.
func H_C12_renamed() {
	serve(map[string]string{
		"http://x.test/r.json":      `{"$id":"http://y.test/z/own.json","properties":{"p":{"$ref":"leaf.json"},"q":{"$ref":"#/definitions/q"}},"definitions":{"q":{"const":"q"}}}`,
		"http://x.test/leaf.json":   letterDoc("x"),
		"http://y.test/z/leaf.json": letterDoc("y"),
	})
	s := M{"$id": "http://x.test/main.json", "items": M{"$ref": "r.json"}}
	v := []string{"x", "y", "q"}[sym.Choose("v", 3)]
	w := []string{"x", "y", "q"}[sym.Choose("w", 3)]
	sym.Assert(run(compile(s), A{M{"p": v, "q": w}}).Valid() == (v == "y" && w == "q"), "a fetched document's own name is its base")
}

// H_C12_levels: identifiers nested up to 4 levels; each level a directory, an absolute URI,
// a fragment or nothing.
func H_C12_levels() {
	docs := map[string]string{}
	for _, h := range []string{"http://x.test/", "http://y.test/"} {
		for _, d := range []string{"", "a/", "a/a/", "a/a/a/", "a/a/a/a/"} {
			docs[h+d+"leaf.json"] = letterDoc(h + d)
		}
	}
	serve(docs)
	cur := "http://x.test/"
	seen := map[string]bool{cur: true}
	s := M{"items": M{"$ref": "leaf.json"}}
	n := 1 + sym.Choose("n", 3)
	ids := []string{}
	for k := 0; k < n; k++ {
		switch sym.Choose("id"+itoa(k), 3) {
		case 0:
			ids = append(ids, "a/")
			cur += "a/"
		case 1:
			ids = append(ids, "http://y.test/")
			cur = "http://y.test/"
		default:
			ids = append(ids, "")
		}
		sym.Assume(ids[k] == "" || !seen[cur]) // one identifier, one schema
		seen[cur] = true
	}
	for k := n - 1; k >= 0; k-- {
		if ids[k] != "" {
			s["$id"] = ids[k]
		}
		s = []M{{"allOf": A{s}}, {"not": M{"not": s}}}[sym.Choose("at"+itoa(k), 2)]
	}
	s["$id"] = "http://x.test/"
	v := []string{"http://x.test/", "http://x.test/a/", "http://y.test/", "http://y.test/a/", "http://x.test/a/a/"}[sym.Choose("v", 5)]
	sym.Assert(run(compile(s), A{v}).Valid() == (v == cur), "nested identifiers")
}

// oldPlace puts a subschema at a place every draft has.
func oldPlace(name string, in, v interface{}) (M, interface{}) {
	switch sym.Choose(name, 12) {
	case 0:
		return M{"properties": M{"p": in}}, M{"p": v}
	case 1:
		return M{"patternProperties": M{"^p$": in}}, M{"p": v}
	case 2:
		return M{"additionalProperties": in}, M{"p": v}
	case 3:
		return M{"items": in}, A{v}
	case 4:
		return M{"items": A{in}}, A{v}
	case 5:
		return M{"items": A{M{}}, "additionalItems": in}, A{nil, v}
	case 6:
		return M{"dependencies": M{"d": M{"properties": M{"p": in}}}}, M{"d": nil, "p": v}
	case 7:
		return M{"allOf": A{in}}, v
	case 8:
		return M{"anyOf": A{in}}, v
	case 9:
		return M{"oneOf": A{in}}, v
	case 10:
		return M{"not": M{"not": in}}, v
	default:
		return M{"properties": M{"p": M{"items": M{"properties": M{"q": in}}}}}, M{"p": A{M{"q": v}}}
	}
}

// H_C13_deep: every draft-dependent keyword, in every draft, at every place of a subschema
// and behind a reference.
func H_C13_deep() {
	d := allDrafts[sym.Choose("d", 4)]
	in, v := gatedSchema()
	if d == 4 {
		if _, ok := in["then"].(bool); ok {
			in["then"] = M{"not": M{}}
		}
	}
	refd := sym.Choose("ref", 2) == 1
	s, x := oldPlace("at", in, v)
	want := ref.ValidDraft(d, s, x)
	if refd {
		s = M{"definitions": M{"q": s}, "allOf": A{M{"$ref": "#/definitions/q"}}}
	}
	sch, err := compileDraft(d, s)
	if err != nil {
		sym.Assert(false, "a schema of the draft is rejected: "+err.Error())
	}
	sym.Assert(run(sch, x).Valid() == want, "a keyword applies exactly in the drafts that define it, at every place")
}

// H_C13_nearmiss: a $schema that is almost the name of a draft is not that draft: any byte at
// any one place, another scheme, another suffix.
func H_C13_nearmiss() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	u := draftURL[d]
	switch sym.Choose("how", 9) {
	case 0:
		at := 17 + pick(sym.Int("at", 0, len(u)-18), len(u)-17)
		c := sym.Byte("c", "a-zA-Z0-9.")
		sym.Assume(c != u[at])
		b := []byte(u)
		b[at] = c
		u = string(b)
		sym.Assume(u != draftURL[4] && u != draftURL[6] && u != draftURL[7])
	case 1:
		u = "https" + u[4:]
	case 2:
		u += "/"
	case 3:
		u += ".json"
	case 4:
		u = u[:len(u)-1]
	case 5:
		u = "http://www." + u[7:]
	case 6:
		u += "?x"
	case 7:
		u = u[5:]
	default:
		u = "http://json-schema.org/schema"
	}
	if sym.Choose("hash", 2) == 1 {
		u += "#"
	}
	own := []int{4, 6}[sym.Choose("own", 2)]
	c, v := num("c", "d"), num("v", "d")
	s := M{"$schema": u, "const": c, "if": true, "then": M{"maximum": num("m", "d")}}
	sch, err := compileDraft(own, s)
	if err != nil {
		sym.Assert(false, "an unknown $schema is rejected: "+err.Error())
	}
	sym.Assert(run(sch, v).Valid() == (own == 4 || ref.Equal(c, v)), "an unknown $schema changes nothing")
}

// H_C13_crossdeep: a document of another draft keeps its draft at every place inside it.
func H_C13_crossdeep() {
	a := []int{4, 6, 7}[sym.Choose("a", 3)]
	b := []int{4, 6, 7}[sym.Choose("b", 3)]
	in, v := gatedSchema()
	if _, ok := in["then"].(bool); ok {
		in["then"] = M{"not": M{}}
	}
	s, x := oldPlace("at", in, v)
	want := ref.ValidDraft(b, s, x)
	s["$schema"] = draftURL[b] + "#"
	sym.SetHTTP(nil)
	sl := gjs.NewSchemaLoader()
	sym.Assert(sl.AddSchema("http://x.test/r.json", gjs.NewRawLoader(s)) == nil, "AddSchema")
	ca, va := num("ca", "d"), num("va", "d")
	sch, err := sl.Compile(gjs.NewRawLoader(M{"$schema": draftURL[a] + "#", "properties": M{"b": M{"$ref": "http://x.test/r.json"}, "c": M{"const": ca}}}))
	if err != nil {
		sym.Assert(false, "Compile: "+err.Error())
	}
	want = sym.And(want, sym.Or(a == 4, ref.Equal(ca, va)))
	sym.Assert(run(sch, M{"b": x, "c": va}).Valid() == want, "each document is decided in its own draft, throughout")
}

// H_C14_position: one bad member at any of 9 positions of a list, or any pair of equal members.
func H_C14_position() {
	const n = 9
	kw := []string{"required", "type", "dependencies", "allOf", "anyOf", "oneOf", "items", "enum"}[sym.Choose("kw", 8)]
	m := 1 + sym.Choose("n", n)
	if kw == "type" {
		sym.Assume(m <= 7)
	}
	l := A{}
	for k := 0; k < m; k++ {
		switch kw {
		case "required", "dependencies", "enum":
			l = append(l, "n"+itoa(k))
		case "type":
			l = append(l, typeNames[k])
		default:
			l = append(l, M{"minLength": N(itoa(k))})
		}
	}
	bad := true
	at := pick(sym.Int("at", 0, m-1), m)
	switch sym.Choose("bad", 4) {
	case 0:
		bad = false
	case 1:
		sym.Assume(kw != "enum")
		l[at] = []interface{}{nil, N("1"), A{}, A{"x"}}[sym.Choose("x", 4)]
	case 2:
		sym.Assume(kw != "enum" && kw != "required" && kw != "dependencies")
		l[at] = "nonsense"
	default:
		sym.Assume(kw == "enum" || kw == "required" || kw == "type")
		o := pick(sym.Int("o", 0, m-1), m)
		sym.Assume(o != at)
		l[at] = l[o]
	}
	var s interface{} = M{kw: l}
	if kw == "dependencies" {
		s = M{kw: M{"a": A{"x"}, "b": l, "c": A{"x", "y"}}}
	}
	_, err := compileDraft(0, s)
	sym.Assert((err != nil) == bad, "one bad member of "+kw+" is enough, and none is accepted")
}

// H_C14_member: one bad member among 6 of a map of schemas, under any of them.
func H_C14_member() {
	kw := []string{"properties", "patternProperties", "dependencies", "definitions"}[sym.Choose("kw", 4)]
	const n = 6
	at := pick(sym.Int("at", 0, n-1), n)
	o := M{}
	for k := 0; k < n; k++ {
		o["n"+itoa(k)] = M{"minLength": N("1")}
		if kw == "dependencies" && k%2 == 0 {
			o["n"+itoa(k)] = A{"x", "y"}
		}
	}
	o["n"+itoa(at)] = []interface{}{nil, N("1"), "x", M{"minLength": "x"}, M{"type": "nonsense"}, M{"not": N("1")}, M{"properties": M{"a": nil}}}[sym.Choose("bad", 7)]
	_, err := compileDraft(0, M{kw: o})
	sym.Assert(err != nil, "a bad member of "+kw+" is accepted")
}

// H_C14_special: every keyword x every odd value.
func H_C14_special() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	v := special("v")
	if o, ok := v.(M); ok {
		// $ref and identifiers have their own properties; const: [] is a schema in itself
		_, r := o["$ref"]
		_, i := o["$id"]
		_, j := o["id"]
		sym.Assume(!r && !i && !j)
		if kw == "properties" || kw == "definitions" || kw == "patternProperties" || kw == "dependencies" {
			_, t := o["type"]
			sym.Assume(!t || kw != "patternProperties")
		}
	}
	if kw == "$id" || kw == "id" {
		if s, ok := v.(string); ok {
			sym.Assume(s == "a" || s == "A" || s == "0")
		}
	}
	if kw == "pattern" {
		if s, ok := v.(string); ok {
			sym.Assume(s != "{{.x}}")
		}
	}
	if kw == "multipleOf" || strings.HasPrefix(kw, "m") || strings.HasPrefix(kw, "exclusive") {
		if n, ok := v.(jsonNumber); ok {
			sym.Assume(len(n) < 16 && n != "1e300")
		}
	}
	judge(kw, M{kw: v}, v)
}

// H_C14_with: a malformed keyword is refused next to every other keyword, and a well-formed
// one accepted.
func H_C14_with() {
	ks := []string{"minimum", "multipleOf", "maxItems", "pattern", "uniqueItems", "required", "enum", "type", "items", "anyOf", "not", "properties", "dependencies", "format", "additionalProperties", "title", "if", "then", "contains", "const"}
	kw := ks[sym.Choose("kw", len(ks))]
	v := scalar("v")
	judge(kw, with("w", M{kw: v}), v)
}

// H_C15_special: every keyword x every odd value x instances of every type.
func H_C15_special() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	sym.SetHTTP(nil)
	v := sym.Lazy(func() interface{} {
		return []interface{}{M{"a": N("1"), "b": nil}, A{"a", N("1"), nil}, "a", N("1"), nil, M{}, A{}}[sym.Choose("v", 7)]
	})
	x := special("s")
	sym.Assume(kw != "$ref" || x != "")
	if o, ok := x.(M); ok && (kw == "not" || kw == "if" || kw == "then" || kw == "else") {
		sym.Assume(o["$ref"] == nil) // refers to itself without consuming anything
	}
	s := M{kw: x}
	if sym.Choose("nested", 2) == 1 {
		s = M{"items": s, "additionalProperties": s}
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(s)), v)
}

// H_C15_company: every pair of keywords out of a list of 60 with typical values, on arrays,
// objects, strings and numbers of several sizes.
func H_C15_company() {
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(couple())), typical())
}

// H_C15_specialinstance: every company keyword x every odd instance.
func H_C15_specialinstance() {
	v := special("v")
	if n, ok := v.(jsonNumber); ok {
		sym.Assume(n != "1e300")
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(ref.Clone(with("a", M{}))), []interface{}{v, A{v, v}, M{"a": v, "": v}}[sym.Choose("in", 3)])
}

// H_C15_refs: references of every form to documents that exist and that do not, with every
// kind of document behind them.
func H_C15_refs() {
	body := []string{`{}`, `true`, `false`, `null`, `1`, `"x"`, `[]`, `{"a":{"type":"null"}}`, `{"$id":"#a"}`, `{"$id":"http://y.test/"}`, `{"$ref":"#/a"}`, `{"$ref":"#"}`, `{"definitions":{"a":{"$id":"#a"}}}`, ``, `{`}[sym.Choose("body", 15)]
	r := []string{"r", "r#", "r#/", "r#/a", "r#a", "http://x.test/r", "http://x.test/r#a", "#", "#/", "", "?", "/r", "//x.test/r", "../r", "r?q", "http://x.test", "http://x.test/", "#a", "nope", "file:///nonexistent/x", "file:", "urn:a", "mailto:a", "%", "http://[", "r#%", "r#/~", "r#/~2", "r#/0", "r#/-1"}[sym.Choose("r", 30)]
	serve(map[string]string{"http://x.test/r": body, "http://x.test/": body, "http://x.test/r?q": body})
	base := []string{"http://x.test/m", "", "m", "#m", "urn:m"}[sym.Choose("base", 5)]
	loop := r == "#" || r == "" && base == "" || body == `{"$ref":"#"}`
	sym.Assume(!loop)
	s := M{"properties": M{"p": M{"$ref": r}}}
	if base != "" {
		s["$id"] = base
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(s), M{"p": M{"a": N("1")}})
}
