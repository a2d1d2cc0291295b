package props

import (
	"encoding/json"
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// metaValid decides a schema document by the official metaschema of draft d.
func metaValid(d int, doc interface{}) bool {
	var m interface{}
	dec := json.NewDecoder(strings.NewReader(metaText[d]))
	dec.UseNumber()
	if dec.Decode(&m) != nil {
		panic("metaschema")
	}
	return ref.ValidDraft(d, m, doc)
}

// settle makes a loader that checks schemas, for which the metaschema of draft d applies to doc.
func settle(d int, doc M, n int) *gjs.SchemaLoader {
	sl := gjs.NewSchemaLoader()
	sl.Validate = true
	switch sym.Choose("how", n) {
	case 0:
		doc["$schema"] = draftURL[d] + "#"
	case 1:
		sl.Draft = draftOf(d)
	case 2:
		sl.Draft = draftOf(d)
		sl.AutoDetect = false
		doc["$schema"] = draftURL[4+3*(d%2)] + "#" // another draft
	case 3:
		sl.Draft = draftOf(11 - d) // 4 and 7 swapped
		if d == 6 {
			sl.Draft = gjs.Draft4
		}
		doc["$schema"] = draftURL[d]
	}
	return sl
}

// feed gives doc to the loader in one of three ways and reports whether it was refused.
func feed(sl *gjs.SchemaLoader, doc interface{}, way int) bool {
	l := gjs.NewRawLoader(ref.Clone(doc))
	switch way {
	case 0:
		_, err := sl.Compile(l)
		return err != nil
	case 1:
		return sl.AddSchema("http://x.test/doc", l) != nil
	}
	return sl.AddSchemas(l) != nil
}

// gate asserts that doc is refused exactly if the metaschema of draft d, or the compiler itself,
// refuses it.
func gate(sl *gjs.SchemaLoader, d int, doc interface{}, way int) {
	ok := metaValid(d, doc)
	refused := feed(sl, doc, way)
	sym.Observe("refused", refused)
	if !ok {
		sym.Cover("breaks the metaschema")
		sym.Assert(refused, "a schema that breaks its metaschema is refused")
	} else if refused {
		sym.Cover("meets the metaschema, refused")
		plain := gjs.NewSchemaLoader()
		plain.Draft, plain.AutoDetect = sl.Draft, sl.AutoDetect
		sym.Assert(way == 0 && feed(plain, doc, 0), "a schema that meets its metaschema is refused only by the compiler itself")
	} else {
		sym.Cover("accepted")
	}
	sym.Assert(sl.Validate, "the setting stays")
}

var metaWords = []string{"multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "additionalItems", "items", "maxItems", "minItems",
	"uniqueItems", "contains", "maxProperties", "minProperties", "required", "additionalProperties", "definitions", "properties", "patternProperties", "dependencies", "propertyNames",
	"const", "enum", "type", "format", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "title", "description", "default", "examples", "readOnly", "$comment", "contentMediaType", "contentEncoding", "unknown"}

// H_C24_words: every keyword of every draft with any scalar or container of one scalar as value,
// the draft named by $schema, compiled.
func H_C24_words() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	kw := metaWords[sym.Choose("kw", len(metaWords))]
	doc := M{kw: anyVal("v", 1, 1)}
	gate(settle(d, doc, 1), d, doc, 0)
}

// H_C24_ways: keywords that only the metaschema refuses, with any scalar, the draft named or
// configured in each way, through Compile, AddSchema and AddSchemas.
func H_C24_ways() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	kw := []string{"title", "description", "$comment", "readOnly", "minItems", "exclusiveMinimum", "contentEncoding"}[sym.Choose("kw", 7)]
	doc := M{kw: scalar("v")}
	gate(settle(d, doc, 4), d, doc, sym.Choose("way", 3))
}

// H_C24_nested: what only the metaschema refuses is found at every place of a subschema and in
// definitions.
func H_C24_nested() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	var s interface{} = M{[]string{"title", "description"}[sym.Choose("kw", 2)]: []interface{}{"t", nil, N("1")}[sym.Choose("v", 3)]}
	doc := M{"definitions": M{"q": s}}
	if sym.Choose("where", 2) == 1 {
		doc, _ = place("at", s, nil)
	}
	gate(settle(d, doc, 1), d, doc, sym.Choose("way", 2)*2)
}

// H_C24_pairs: documents of two members, each a free digit, boolean or string, or a list of up to
// 2 of them: uniqueness, the drafts' exclusive bounds and their companions.
func H_C24_pairs() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	pairs := [][2]string{{"exclusiveMinimum", "minimum"}, {"exclusiveMaximum", "maximum"}, {"required", "title"}, {"enum", "title"}}
	p := pairs[sym.Choose("p", len(pairs))]
	val := func(n string) interface{} {
		return sym.Lazy(func() interface{} {
			switch sym.Choose(n, 3) {
			case 0:
				return num(n+".n", "d")
			case 1:
				return sym.Str(n+".s", 1, "aA")
			}
			return true
		})
	}
	doc := M{}
	if p[0] == "required" || p[0] == "enum" {
		doc[p[0]] = A{val("x"), val("y")}[:sym.Choose("n", 3)]
	} else {
		if sym.Choose("has", 2) == 1 {
			doc[p[0]] = val("x")
		}
	}
	if sym.Choose("has2", 2) == 1 {
		doc[p[1]] = val("z")
	}
	gate(settle(d, doc, 1), d, doc, 0)
}

// H_C24_again: the check applies to every schema given to the loader, whatever came before.
func H_C24_again() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	sl := gjs.NewSchemaLoader()
	sl.Validate = true
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for k := 0; k < n; k++ {
		id := "http://x.test/" + itoa(k)
		doc := M{"title": []interface{}{"t", nil}[sym.Choose("v"+itoa(k), 2)]}
		if d == 4 {
			doc["id"] = id
		} else {
			doc["$id"] = id
		}
		if sym.Choose("draft"+itoa(k), 2) == 0 {
			doc["$schema"] = draftURL[d] + "#"
		} else {
			delete(doc, "id")
			doc["$id"] = id
			doc["$schema"] = draftURL[7] + "#"
		}
		ok := metaValid(d, doc)
		way := sym.Choose("way"+itoa(k), 2)
		var err error
		if way == 0 {
			err = sl.AddSchemas(gjs.NewRawLoader(doc))
		} else {
			err = sl.AddSchema("http://x.test/added"+itoa(k), gjs.NewRawLoader(doc))
		}
		sym.Assert((err != nil) == !ok, "every schema given to the loader is checked")
		sym.Assert(sl.Validate, "the setting stays")
	}
}

// H_C24_off: without the setting, or in the hybrid draft without $schema, nothing but the compiler
// refuses a schema.
func H_C24_off() {
	d := allDrafts[sym.Choose("d", 4)]
	doc := M{[]string{"title", "examples", "$comment", "readOnly"}[sym.Choose("kw", 4)]: anyVal("v", 1, 1)}
	sl := gjs.NewSchemaLoader()
	switch sym.Choose("how", 3) {
	case 0:
		sl.Draft = draftOf(d)
	case 1:
		if d != 0 {
			doc["$schema"] = draftURL[d] + "#"
		}
	default:
		sl.Validate = true
		if sym.Choose("auto", 2) == 0 {
			sl.AutoDetect = false
			doc["$schema"] = draftURL[7] + "#"
		}
	}
	if t, ok := doc["title"]; ok {
		sym.Assume(ref.TypeOf(t) == "string")
	}
	refused := feed(sl, doc, sym.Choose("way", 3))
	sym.Assert(!refused, "an unchecked schema is refused")
}

// H_C24_custom: a $schema that is no known draft names the metaschema that decides, wherever that
// comes from (added under its URL, by its identifier, or served), with any limits.
func H_C24_custom() {
	lo := num("lo", "d")
	meta := `{"$id":"http://m.test/meta","properties":{"x":{"minimum":` + string(lo) + `},"properties":{"additionalProperties":{"$ref":"#"}}}}`
	sl := gjs.NewSchemaLoader()
	sym.SetHTTP(nil)
	known := true
	switch sym.Choose("from", 4) {
	case 0:
		sym.Assert(sl.AddSchemas(gjs.NewStringLoader(meta)) == nil, "AddSchemas")
	case 1:
		sym.Assert(sl.AddSchema("http://m.test/meta", gjs.NewStringLoader(`{"properties":{"x":{"minimum":`+string(lo)+`},"properties":{"additionalProperties":{"$ref":"#"}}}}`)) == nil, "AddSchema")
	case 2:
		serve(map[string]string{"http://m.test/meta": meta})
	default:
		known = false
	}
	sl.Validate = true
	x := num("v", "d")
	doc := M{"$schema": "http://m.test/meta" + []string{"", "#"}[sym.Choose("hash", 2)], "minimum": N("3")}
	if sym.Choose("deep", 2) == 1 {
		doc["properties"] = M{"p": M{"x": x}}
	} else {
		doc["x"] = x
	}
	refused := feed(sl, doc, sym.Choose("way", 3))
	ok := known
	if known {
		ok = ref.Valid(M{"minimum": lo}, x)
	}
	sym.Assert(refused == !ok, "the metaschema named by $schema decides")
	sym.Assert(sl.Validate, "the setting stays")
}

// H_C24_keeps: checking a schema changes nothing about what it accepts, nor where its references
// are read from.
func H_C24_keeps() {
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	lo, v := num("lo", "d"), num("v", "d")
	fs := &memFS{files: map[string]string{"/dir/main.json": `{"$schema":"` + draftURL[d] + `#","properties":{"p":{"$ref":"other.json#/definitions/q"}}}`, "/dir/other.json": `{"definitions":{"q":{"minimum":` + string(lo) + `}}}`}}
	sym.SetHTTP(nil)
	sl := gjs.NewSchemaLoader()
	sl.Validate = true
	sch, err := sl.Compile(gjs.NewReferenceLoaderFileSystem("file:///dir/main.json", fs))
	sym.Assert(err == nil, "a checked schema still reads its references from its file system")
	sym.Assert(run(sch, M{"p": v}).Valid() == ref.Valid(M{"minimum": lo}, v), "a checked schema accepts what it accepts unchecked")
	sym.Assert(len(sym.Requests) == 0, "the metaschemas are built in")
}

// H_C24_builtin: a reference to a metaschema, or a part of it, decides by the official metaschema
// of that draft without any request.
func H_C24_builtin() {
	sym.SetHTTP(nil)
	d := []int{4, 6, 7}[sym.Choose("d", 3)]
	kw := []string{"title", "minLength", "type", "required", "contains", "if"}[sym.Choose("kw", 6)]
	doc := M{kw: anyVal("v", 1, 1)}
	u := draftURL[d] + []string{"", "#"}[sym.Choose("hash", 2)]
	sch, err := gjs.NewSchema(gjs.NewReferenceLoader(u))
	if sym.Choose("how", 2) == 1 {
		sch, err = gjs.NewSchema(gjs.NewRawLoader(M{"$ref": u}))
	}
	sym.Assert(err == nil, "a metaschema is available")
	sym.Assert(run(sch, doc).Valid() == metaValid(d, doc), "a reference to a metaschema decides like it")
	sym.Assert(len(sym.Requests) == 0, "the metaschemas are built in")
}
