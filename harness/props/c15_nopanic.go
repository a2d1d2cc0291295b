package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// try compiles and, if that works, validates and renders; the engine reports any panic.
func try(sl *gjs.SchemaLoader, s gjs.JSONLoader, v interface{}) {
	sch, err := sl.Compile(s)
	sym.Observe("err", err != nil)
	if err != nil {
		sym.Assert(err.Error() != "", "an error has a text")
		return
	}
	r, err := sch.Validate(gjs.NewRawLoader(v))
	if err != nil {
		return
	}
	for _, e := range r.Errors() {
		_, _, _ = e.String(), e.Description(), e.Field()
	}
	sym.Assert(r.Valid() == (len(r.Errors()) == 0), "valid means no errors")
}

// H_C15_keyword: every keyword x every value (nesting 2, width 1; thorough width 2) x every
// draft, compiled and run on any instance (nesting 1).
func H_C15_keyword() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	sym.Assume(kw != "$ref")
	w, n := 1, 2
	if sym.Thorough() {
		w, n = 2, 4
	}
	sl := gjs.NewSchemaLoader()
	sl.Draft = draftOf([]int{4, 0, 6, 7}[sym.Choose("d", n)])
	try(sl, gjs.NewRawLoader(ref.Clone(M{kw: anyVal("s", 2, w)})), anyVal("v", 1, 1))
}

// H_C15_pairs: every pair of keywords with any scalar or one-member container values.
func H_C15_pairs() {
	k1 := keywords[sym.Choose("k1", len(keywords))]
	k2 := keywords[sym.Choose("k2", len(keywords))]
	sym.Assume(k1 < k2 && k1 != "$ref" && k2 != "$ref")
	small := func(n string) interface{} {
		return sym.Lazy(func() interface{} {
			switch sym.Choose(n, 6) {
			case 0:
				return N("1")
			case 1:
				return "a"
			case 2:
				return true
			case 3:
				return A{M{}}
			case 4:
				return M{"a": M{}}
			}
			return nil
		})
	}
	sl := gjs.NewSchemaLoader()
	if sym.Thorough() {
		sl.Draft = draftOf([]int{4, 0}[sym.Choose("d", 2)])
	}
	v := sym.Lazy(func() interface{} { return []interface{}{M{"a": N("1")}, A{"a"}, "a", N("1")}[sym.Choose("v", 4)] })
	try(sl, gjs.NewRawLoader(ref.Clone(M{k1: small("s1"), k2: small("s2")})), v)
}

// H_C15_nested: every keyword with any scalar or one-member container, at every place of a
// subschema, in every draft.
func H_C15_nested() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	sym.Assume(kw != "$ref")
	s, v := place("at", M{kw: anyVal("s", 1, 1)}, N("1"))
	sl := gjs.NewSchemaLoader()
	if sym.Thorough() {
		sl.Draft = draftOf(allDrafts[sym.Choose("d", 4)])
	}
	try(sl, gjs.NewRawLoader(ref.Clone(s)), v)
}

// H_C15_root: any value as the schema document, through every loader call.
func H_C15_root() {
	v := anyVal("s", 2, 1)
	sl := gjs.NewSchemaLoader()
	sl.Validate = sym.Choose("validate", 2) == 1
	sl.Draft = draftOf(allDrafts[sym.Choose("d", 4)])
	sl.AutoDetect = sym.Choose("auto", 2) == 1
	switch sym.Choose("how", 3) {
	case 0:
		try(sl, gjs.NewRawLoader(ref.Clone(v)), nil)
	case 1:
		err := sl.AddSchema("http://x.test/s", gjs.NewRawLoader(ref.Clone(v)))
		sym.Observe("err", err != nil)
		try(sl, gjs.NewStringLoader(`{"$ref":"http://x.test/s"}`), nil)
	default:
		err := sl.AddSchemas(gjs.NewRawLoader(ref.Clone(v)))
		sym.Observe("err", err != nil)
	}
	sym.Assert(true, "done")
}

// H_C15_reftext: any $ref text of up to 4 characters out of "#/ab~0:.%", compile only.
func H_C15_reftext() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.SetHTTP(nil)
	s := M{"$ref": strOf("r", n, "#/ab~0:.%"), "b": M{}}
	if sym.Choose("nested", 2) == 1 {
		s = M{"properties": M{"p": s}, "b": M{}}
	}
	_, err := gjs.NewSchema(gjs.NewRawLoader(s))
	sym.Observe("err", err != nil)
	sym.Assert(true, "compiled or refused")
}

// H_C15_idtext: any $id or id text of up to 3 characters out of "#/a:.%", with a reference in
// its scope.
func H_C15_idtext() {
	sym.SetHTTP(nil)
	s := M{[]string{"$id", "id"}[sym.Choose("k", 2)]: strOf("r", 3, "#/a:.%"), "properties": M{"p": M{"$ref": "#/properties/q"}, "q": M{}}}
	if sym.Choose("nested", 2) == 1 {
		s = M{"$id": "http://x.test/", "allOf": A{s}}
	}
	_, err := gjs.NewSchema(gjs.NewRawLoader(s))
	sym.Observe("err", err != nil)
	sym.Assert(true, "compiled or refused")
}

// H_C15_instance: any instance (nesting 2, width 2) against schemas that use every keyword.
func H_C15_instance() {
	all := []string{
		`{"properties":{"a":{"minimum":3,"multipleOf":0.1,"enum":[1,"a"]},"b":{"type":"array","items":[{"const":1}],"additionalItems":{"type":"string"},"uniqueItems":true,"contains":{"minLength":1}}},"patternProperties":{"^a":{"maxProperties":1}},"additionalProperties":{"type":["null","object"]},"required":["a"],"propertyNames":{"pattern":"[ab]"},"dependencies":{"a":["b"],"b":{"minProperties":2}},"maxProperties":1}`,
		`{"if":{"type":"object"},"then":{"anyOf":[{"required":["a"]},{"maxProperties":0}]},"else":{"oneOf":[{"type":"array","maxItems":1},{"type":"string","format":"ipv4"},{"not":{"type":"number"}}]},"allOf":[{"exclusiveMinimum":1},{"exclusiveMaximum":5},{"maxLength":0}]}`,
	}
	s := all[sym.Choose("s", 2)]
	w := 1
	if sym.Thorough() {
		w = 2
	}
	try(gjs.NewSchemaLoader(), gjs.NewStringLoader(s), anyVal("v", 2, w))
}

// H_C15_bytes: any bytes as the source of a schema or an instance (up to 3 arbitrary bytes,
// thorough 4; up to 5 out of JSON's own characters).
func H_C15_bytes() {
	n, m := 2, 4
	if sym.Thorough() {
		n, m = 3, 6
	}
	var t string
	if sym.Choose("class", 2) == 0 {
		t = strOf("t", n, "")
	} else {
		t = strOf("j", m, `{}[]":,10-.e`)
	}
	if sym.Choose("schema", 2) == 1 {
		try(gjs.NewSchemaLoader(), gjs.NewStringLoader(t), N("1"))
		return
	}
	sch := compile(M{"type": "object"})
	_, err := sch.Validate(gjs.NewBytesLoader([]byte(t)))
	sym.Observe("err", err != nil)
	sym.Assert(true, "loaded or refused")
}

// H_C15_bignum: numbers with exponents of up to 7 digits, as limits and as instances.
func H_C15_bignum() {
	v := oneNum("v", "d", "1e400", "-1e-400", "1e999999", "1e9999999", "1e-9999999", "1e99999999999999999999", "0e99999999999")
	ks := []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxItems", "const", "multipleOf"}
	kw := ks[sym.Choose("kw", len(ks))]
	if kw == "multipleOf" {
		sym.Assume(len(v) < 5)
	}
	i := oneNum("i", "d", "-1e400", "1e9999999", "1e99999999999999999999")
	if kw == "multipleOf" {
		sym.Assume(len(i) == 1)
	}
	try(gjs.NewSchemaLoader(), gjs.NewRawLoader(M{kw: v}), i)
}
