package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

var draftURL = map[int]string{4: "http://json-schema.org/draft-04/schema", 6: "http://json-schema.org/draft-06/schema", 7: "http://json-schema.org/draft-07/schema"}

var allDrafts = []int{4, 6, 7, 0}

// gatedSchema uses one keyword whose meaning depends on the draft.
func gatedSchema() (M, interface{}) {
	t := num("t", "d")
	sub := M{"minimum": t}
	switch sym.Choose("gk", 8) {
	case 0:
		return M{"const": t}, instDigit()
	case 1:
		return M{"contains": sub}, A{num("v", "d"), "s"}
	case 2:
		return M{"propertyNames": M{"maxLength": N("1")}}, M{strOf("v", 2, "a"): nil}
	case 3:
		return M{"if": sub, "then": M{"maximum": num("u", "d")}, "else": M{"multipleOf": N("2")}}, num("v", "d")
	case 4:
		return M{"if": M{"type": "string"}, "then": false}, instDigit()
	case 5:
		return M{"propertyNames": false}, M{"a": nil}
	case 6:
		return M{"contains": false}, A{nil}
	default:
		return M{"const": nil}, instDigit()
	}
}

// selectDraft compiles s so that draft d applies, chosen in one of the documented ways.
func selectDraft(d int, s M) (*gjs.Schema, error) {
	sl := gjs.NewSchemaLoader()
	other := allDrafts[sym.Choose("other", 4)]
	switch sym.Choose("how", 5) {
	case 0:
		sl.Draft = draftOf(d)
	case 1:
		sl.Draft = draftOf(d)
		sl.AutoDetect = false
		if other != 0 {
			s["$schema"] = draftURL[other] + "#"
		}
	case 2:
		sym.Assume(d != 0)
		sl.Draft = draftOf(other)
		s["$schema"] = draftURL[d] + "#"
	case 3:
		sym.Assume(d != 0)
		sl.Draft = draftOf(other)
		s["$schema"] = draftURL[d]
	default:
		sl.Draft = draftOf(d)
		s["$schema"] = "http://meta.test/unknown#"
	}
	return sl.Compile(gjs.NewRawLoader(ref.Clone(s)))
}

// H_C13_gated: every draft-dependent keyword x every draft x every way of choosing the
// draft (setting, $schema with or without '#', detection off, unknown $schema), digits free.
func H_C13_gated() {
	d := allDrafts[sym.Choose("d", 4)]
	s, v := gatedSchema()
	want := ref.ValidDraft(d, s, v)
	if d == 4 {
		if b, ok := s["then"].(bool); ok {
			_ = b
			want = true
		}
	}
	sch, err := selectDraft(d, s)
	sym.Assert(err == nil, "a schema of the draft is rejected")
	got := run(sch, v).Valid()
	sym.Observe("valid", got)
	sym.Assert(got == want, "a keyword applies exactly in the drafts that define it")
}

// H_C13_nested: the draft of the document applies at every place of a subschema and
// behind references.
func H_C13_nested() {
	d := allDrafts[sym.Choose("d", 4)]
	c := num("c", "d")
	in := M{"const": c}
	v := num("v", "d")
	var s M
	var x interface{}
	k := sym.Choose("at", 12)
	switch k {
	case 0:
		s, x = M{"properties": M{"p": in}}, M{"p": v}
	case 1:
		s, x = M{"patternProperties": M{"^p$": in}}, M{"p": v}
	case 2:
		s, x = M{"additionalProperties": in}, M{"p": v}
	case 3:
		s, x = M{"items": in}, A{v}
	case 4:
		s, x = M{"items": A{in}}, A{v}
	case 5:
		s, x = M{"items": A{M{}}, "additionalItems": in}, A{nil, v}
	case 6:
		s, x = M{"dependencies": M{"d": M{"properties": M{"p": in}}}}, M{"d": nil, "p": v}
	case 7:
		s, x = M{"allOf": A{in}}, v
	case 8:
		s, x = M{"anyOf": A{in}}, v
	case 9:
		s, x = M{"oneOf": A{in}}, v
	case 10:
		s, x = M{"definitions": M{"q": in}, "allOf": A{M{"$ref": "#/definitions/q"}}}, v
	default:
		s, x = M{"not": M{"not": in}}, v
	}
	want := d == 4 || ref.Equal(c, v)
	sch, err := selectDraft(d, s)
	sym.Assert(err == nil, "a schema of the draft is rejected")
	sym.Assert(run(sch, x).Valid() == want, "the draft applies to subschemas")
}

// H_C13_bool: boolean schemas are accepted since draft 6 and rejected in draft 4, at every
// place where draft 4 does not define a boolean itself.
func H_C13_bool() {
	d := allDrafts[sym.Choose("d", 4)]
	b := sym.Bool("b")
	var s interface{}
	switch sym.Choose("at", 12) {
	case 0:
		s = b
	case 1:
		s = M{"properties": M{"p": b}}
	case 2:
		s = M{"patternProperties": M{"p": b}}
	case 3:
		s = M{"items": b}
	case 4:
		s = M{"items": A{b}}
	case 5:
		s = M{"dependencies": M{"p": b}}
	case 6:
		s = M{"allOf": A{b}}
	case 7:
		s = M{"anyOf": A{M{}, b}}
	case 8:
		s = M{"oneOf": A{M{}, b}}
	case 9:
		s = M{"not": b}
	case 10:
		s = M{"definitions": M{"q": b}}
	default:
		s = M{"definitions": M{"q": b}, "properties": M{"p": M{"$ref": "#/definitions/q"}}}
	}
	_, err := compileDraft(d, s)
	sym.Assert((err == nil) == (d != 4), "boolean schemas exist since draft 6")
	for _, k := range []string{"additionalProperties", "additionalItems"} {
		_, err := compileDraft(d, M{k: b, "items": A{M{}}})
		sym.Assert(err == nil, "a boolean "+k+" is valid in every draft")
	}
}

// H_C13_exclusive: exclusiveMinimum and exclusiveMaximum are booleans in draft 4 (and
// need the bound next to them), numbers since draft 6, both in the union.
func H_C13_exclusive() {
	d := allDrafts[sym.Choose("d", 4)]
	lim, ex := "minimum", "exclusiveMinimum"
	if sym.Choose("max", 2) == 1 {
		lim, ex = "maximum", "exclusiveMaximum"
	}
	t, v := num("t", "d"), num("v", "d")
	s := M{}
	isBool := sym.Choose("bool", 2) == 1
	bound := sym.Choose("bound", 2) == 1
	if isBool {
		s[ex] = sym.Bool("b")
	} else {
		s[ex] = t
	}
	if bound {
		s[lim] = num("u", "d")
	}
	sch, err := compileDraft(d, s)
	ok := !isBool
	if d == 4 {
		ok = isBool && bound
	} else if d == 0 && isBool {
		ok = bound
	}
	sym.Assert((err == nil) == ok, ex+" has the type its draft gives it")
	if ok {
		sym.Assert(run(sch, v).Valid() == ref.ValidDraft(d, s, v), ex+" decides as its draft says")
	}
}

// H_C13_id: the identifier keyword is "id" in draft 4 and "$id" since draft 6; both in the
// union. Decided by whether a non-string value is refused.
func H_C13_id() {
	d := allDrafts[sym.Choose("d", 4)]
	key := []string{"id", "$id"}[sym.Choose("key", 2)]
	s := M{key: N("1")}
	var x interface{} = s
	if sym.Choose("nested", 2) == 1 {
		x = M{"properties": M{"p": s}}
	}
	_, err := compileDraft(d, x)
	bad := d == 0 || (d == 4) == (key == "id")
	sym.Assert((err != nil) == bad, key+" must be a string in the drafts that define it, and means nothing elsewhere")
}

// H_C13_cross: a document reached by reference is decided in its own draft when it names
// one; the other document keeps its own. Reached over the network, added under a URL, or by $id.
func H_C13_cross() {
	a := []int{4, 6, 7}[sym.Choose("a", 3)]
	b := []int{4, 6, 7, 0}[sym.Choose("b", 4)]
	ca, cb, va, vb := num("ca", "d"), num("cb", "d"), num("va", "d"), num("vb", "d")
	remote := M{"const": cb}
	deep := sym.Choose("deep", 2) == 1
	r := "http://x.test/r.json"
	if deep {
		remote = M{"definitions": M{"q": M{"const": cb}}}
		r += "#/definitions/q"
	}
	if b != 0 {
		remote["$schema"] = draftURL[b] + "#"
	}
	main := M{"$schema": draftURL[a] + "#", "properties": M{"a": M{"const": ca}, "b": M{"$ref": r}}}
	sl := gjs.NewSchemaLoader()
	off := sym.Choose("off", 2) == 1
	if off {
		sl.AutoDetect = false
		sl.Draft = draftOf(a)
	}
	switch sym.Choose("how", 3) {
	case 0:
		txt := `{"const":` + string(cb) + `}`
		if deep {
			txt = `{"definitions":{"q":` + txt + `}}`
		}
		if b != 0 {
			txt = `{"$schema":"` + draftURL[b] + `#",` + txt[1:]
		}
		serve(map[string]string{"http://x.test/r.json": txt})
	case 1:
		sym.SetHTTP(nil)
		sym.Assert(sl.AddSchema("http://x.test/r.json", gjs.NewRawLoader(remote)) == nil, "AddSchema")
	default:
		sym.SetHTTP(nil)
		remote["$id"] = "http://x.test/r.json"
		if b == 4 {
			delete(remote, "$id")
			remote["id"] = "http://x.test/r.json"
		}
		sym.Assert(sl.AddSchemas(gjs.NewRawLoader(remote)) == nil, "AddSchemas")
	}
	sch, err := sl.Compile(gjs.NewRawLoader(main))
	sym.Assert(err == nil, "Compile")
	eff := b
	if b == 0 || off {
		eff = a
	}
	want := sym.And(sym.Or(a == 4, ref.Equal(ca, va)), sym.Or(eff == 4, ref.Equal(cb, vb)))
	sym.Assert(run(sch, M{"a": va, "b": vb}).Valid() == want, "each document is decided in its own draft")
}

// H_C13_default: without $schema and settings every keyword of every draft applies.
func H_C13_default() {
	s, v := gatedSchema()
	got := run(compile(s), v).Valid()
	sym.Assert(got == ref.Valid(s, v), "the default is the union of the drafts")
}
