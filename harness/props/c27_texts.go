package props

import (
	"fmt"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// expectation is what the one error of a type must say about itself.
type expectation struct {
	typ, text string
	details   map[string]string
	value     interface{}
	hasValue  bool
}

// told finds the only error of the given type and checks its texts and details.
func told(r *gjs.Result, field string, x expectation) {
	var e gjs.ResultError
	n := 0
	for _, y := range r.Errors() {
		if y.Type() == x.typ {
			e = y
			n++
		}
	}
	sym.Assert(n == 1, x.typ+": one such error is reported")
	if n != 1 {
		return
	}
	ctx := "(root)"
	if field != "(root)" {
		ctx = "(root)." + field
	}
	sym.Assert(e.Field() == field, x.typ+": Field")
	sym.Assert(e.Context().String() == ctx, x.typ+": Context")
	d := e.Details()
	sym.Assert(fmt.Sprint(d["field"]) == field, x.typ+": the field in the details")
	sym.Assert(fmt.Sprint(d["context"]) == ctx, x.typ+": the context in the details")
	for k, w := range x.details {
		g, ok := d[k]
		sym.Assert(ok, x.typ+": detail "+k)
		sym.Assert(fmt.Sprint(g) == w, x.typ+": detail "+k+" is that of the schema")
	}
	sym.Assert(e.Description() == x.text, x.typ+": description")
	sym.Assert(e.String() == field+": "+x.text, x.typ+": String")
	if x.hasValue {
		sym.Assert(ref.Equal(e.Value(), x.value), x.typ+": value")
	}
}

// cases is one failing schema and instance per error type, with free letters and digits.
func cases() (interface{}, interface{}, expectation) {
	l := sym.Str("l", 1, "abAB")
	n := num("n", "n")
	N1 := string(n)
	c := sym.Choose("case", 33)
	switch c {
	case 12, 13, 16, 17, 20, 21: // the limits are read as integers and printed from them
		N1 = itoa(1 + sym.Choose("limit", 9))
		n = N(N1)
	}
	switch c {
	case 0:
		return M{"required": A{"r" + l}}, M{"x": nil}, expectation{"required", "r" + l + " is required", map[string]string{"property": "r" + l}, M{"x": nil}, true}
	case 1:
		return M{"type": "string"}, n, expectation{"invalid_type", "Invalid type. Expected: string, given: integer", map[string]string{"expected": "string", "given": "integer"}, n, true}
	case 2:
		v := num("v", "d.n")
		return M{"type": A{"integer", "null"}}, v, expectation{"invalid_type", "Invalid type. Expected: [integer,null], given: number", map[string]string{"expected": "[integer,null]", "given": "number"}, v, true}
	case 3:
		vs := []interface{}{nil, true, "s", A{}, M{}}
		ns := []string{"null", "boolean", "string", "array", "object"}
		k := sym.Choose("k", 5)
		return M{"type": A{"number"}}, vs[k], expectation{"invalid_type", "Invalid type. Expected: number, given: " + ns[k], map[string]string{"expected": "number", "given": ns[k]}, vs[k], true}
	case 4:
		return M{"anyOf": A{M{"type": "string"}, M{"type": "null"}}}, n, expectation{"number_any_of", "Must validate at least one schema (anyOf)", nil, n, true}
	case 5:
		return M{"oneOf": A{M{"type": "integer"}, M{"type": "number"}}}, n, expectation{"number_one_of", "Must validate one and only one schema (oneOf)", nil, n, true}
	case 6:
		return M{"allOf": A{M{}, M{"type": "null"}}}, n, expectation{"number_all_of", "Must validate all the schemas (allOf)", nil, n, true}
	case 7:
		return M{"not": M{}}, n, expectation{"number_not", "Must not validate the schema (not)", nil, n, true}
	case 8:
		return M{"dependencies": M{"x": A{"x", "d" + l}}}, M{"x": n}, expectation{"missing_dependency", "Has a dependency on d" + l, map[string]string{"dependency": "d" + l}, M{"x": n}, true}
	case 9:
		return M{"const": "c" + l}, n, expectation{"const", `{F} does not match: "c` + l + `"`, map[string]string{"allowed": `"c` + l + `"`}, n, true}
	case 10:
		return M{"enum": A{"c" + l, nil, true}}, n, expectation{"enum", `{F} must be one of the following: "c` + l + `", null, true`, map[string]string{"allowed": `"c` + l + `", null, true`}, n, true}
	case 11:
		v := A{nil, n}
		return M{"items": A{true}, "additionalItems": false}, v, expectation{"array_no_additional_items", "No additional items allowed on array", nil, v, true}
	case 12:
		return M{"minItems": n}, A{}, expectation{"array_min_items", "Array must have at least " + N1 + " items", map[string]string{"min": N1}, A{}, true}
	case 13:
		v := A{nil, nil, nil, nil, nil, nil, nil, nil, nil, nil}
		return M{"maxItems": n}, v, expectation{"array_max_items", "Array must have at most " + N1 + " items", map[string]string{"max": N1}, v, true}
	case 14:
		v := A{"q", "q" + l, nil, "q" + l}
		return M{"uniqueItems": true}, v, expectation{"unique", "array items[1,3] must be unique", map[string]string{"i": "1", "j": "3", "type": "array"}, v, true}
	case 15:
		return M{"contains": M{"type": "null"}}, A{n}, expectation{"contains", "At least one of the items must match", nil, A{n}, true}
	case 16:
		return M{"minProperties": n}, M{}, expectation{"array_min_properties", "Must have at least " + N1 + " properties", map[string]string{"min": N1}, M{}, true}
	case 17:
		v := M{"a": nil, "b": nil, "c": nil, "d": nil, "e": nil, "f": nil, "g": nil, "h": nil, "i": nil, "j": nil}
		return M{"maxProperties": n}, v, expectation{"array_max_properties", "Must have at most " + N1 + " properties", map[string]string{"max": N1}, v, true}
	case 18:
		return M{"properties": M{"x": M{}}, "additionalProperties": false}, M{"x": nil, "y" + l: n}, expectation{"additional_property_not_allowed", "Additional property y" + l + " is not allowed", map[string]string{"property": "y" + l}, n, true}
	case 19:
		return M{"propertyNames": M{"maxLength": N("1")}}, M{"x": nil, "y" + l: n}, expectation{"invalid_property_name", `Property name of "y` + l + `" does not match`, map[string]string{"property": "y" + l}, M{"x": nil, "y" + l: n}, true}
	case 20:
		return M{"minLength": n}, "", expectation{"string_gte", "String length must be greater than or equal to " + N1, map[string]string{"min": N1}, "", true}
	case 21:
		return M{"maxLength": n}, "0123456789", expectation{"string_lte", "String length must be less than or equal to " + N1, map[string]string{"max": N1}, "0123456789", true}
	case 22:
		p := []string{"^z", "[0-9]+$", "a|b", "x'y"}[sym.Choose("p", 4)]
		return M{"pattern": p}, "-", expectation{"pattern", "Does not match pattern '" + p + "'", map[string]string{"pattern": p}, "-", true}
	case 23:
		f := []string{"ipv4", "date", "uri", "uuid"}[sym.Choose("f", 4)]
		return M{"format": f}, "-" + l, expectation{"format", "Does not match format '" + f + "'", map[string]string{"format": f}, "-" + l, true}
	case 24, 25, 26, 27, 28:
		type c struct{ kw, typ, text, key string }
		cs := []c{{"multipleOf", "multiple_of", "Must be a multiple of ", "multiple"}, {"minimum", "number_gte", "Must be greater than or equal to ", "min"}, {"exclusiveMinimum", "number_gt", "Must be greater than ", "min"},
			{"maximum", "number_lte", "Must be less than or equal to ", "max"}, {"exclusiveMaximum", "number_lt", "Must be less than ", "max"}}
		x := cs[sym.Choose("kw", len(cs))]
		lims := [][2]string{{"5", "5"}, {"2.5", "2.5"}, {"100", "100"}, {"0.01", "0.01"}, {"12345", "12345"}, {"1e3", "1000"}}
		if x.kw != "multipleOf" {
			lims = append(lims, [2]string{"-7", "-7"}, [2]string{"0", "0"})
		}
		lim := lims[sym.Choose("lim", len(lims))]
		var v jsonNumber
		switch x.kw {
		case "multipleOf":
			v = "0.003"
		case "minimum", "exclusiveMinimum":
			v = num("low", "-nd.d")
		default:
			v = num("high", "9nddd0")
		}
		return M{x.kw: N(lim[0])}, v, expectation{x.typ, x.text + lim[1], map[string]string{x.key: lim[1]}, v, true}
	case 29:
		return M{"if": M{}, "then": M{"type": "null"}}, n, expectation{"condition_then", `Must validate "then" as "if" was valid`, nil, n, true}
	case 30:
		return M{"if": false, "else": M{"type": "null"}}, n, expectation{"condition_else", `Must validate "else" as "if" was not valid`, nil, n, true}
	case 31:
		return false, n, expectation{"false", "False always fails validation", nil, n, true}
	default:
		return M{"const": n}, M{"k": l}, expectation{"const", `{F} does not match: ` + N1, map[string]string{"allowed": N1}, M{"k": l}, true}
	}
}

func fill(t, field string) string {
	if len(t) > 3 && t[:3] == "{F}" {
		return field + t[3:]
	}
	return t
}

// H_C27_errors: every error type with free names and limits, at the root, under a member with a
// free name, and inside arrays: type, details, description and text.
func H_C27_errors() {
	s, v, x := cases()
	field := "(root)"
	switch sym.Choose("at", 4) {
	case 1:
		k := "m" + sym.Str("k", 1, "abA")
		s, v, field = M{"properties": M{k: s}}, M{k: v}, k
	case 2:
		s, v, field = M{"items": M{"properties": M{"p": s}}}, A{M{}, M{"p": v}}, "1.p"
	case 3:
		if s == false {
			s = M{"allOf": A{s}} // "additionalProperties": false has an error of its own
		}
		s, v, field = M{"properties": M{"a": M{"additionalProperties": s}}}, M{"a": M{"b c": v}}, "a.b c"
	}
	x.text = fill(x.text, field)
	told(run(compile(s), v), field, x)
}

// ownLocale replaces some of the texts.
type ownLocale struct{ gjs.DefaultLocale }

func (ownLocale) Required() string    { return `missing <{{.property}}> in {{.context}}` }
func (ownLocale) NumberGTE() string   { return `{{.field}} < {{.min}}!` }
func (ownLocale) InvalidType() string { return `{{.given}} is no {{.expected}}` }
func (ownLocale) ErrorFormat() string {
	return `[{{.context}}|{{.field}}|{{.value}}|{{.description}}]`
}

// H_C27_locale: a locale set by the user supplies the descriptions and the form of String, for
// validations from then on, and the default one again afterwards.
func H_C27_locale() {
	old := gjs.Locale
	l := sym.Str("l", 1, "abAB")
	v := num("v", "d")
	var s, i interface{}
	var x, y, z string
	switch sym.Choose("case", 3) {
	case 0:
		s, i = M{"properties": M{"p": M{"required": A{"r" + l}}}}, M{"p": M{}}
		x, y, z = "missing <r"+l+"> in (root).p", "r"+l+" is required", "[(root).p|p|{}|missing <r"+l+"> in (root).p]"
	case 1:
		s, i = M{"properties": M{"p": M{"minimum": N("10")}}}, M{"p": v}
		x, y, z = "p < 10!", "Must be greater than or equal to 10", "[(root).p|p|"+string(v)+"|p < 10!]"
	default:
		s, i = M{"type": "null"}, "t"+l
		x, y, z = "string is no null", "Invalid type. Expected: null, given: string", `[(root)|(root)|"t`+l+`"|string is no null]`
	}
	sch := compile(s)
	gjs.Locale = ownLocale{}
	e := run(sch, i).Errors()
	ok := len(e) == 1 && e[0].Description() == x
	text := e[0].String()
	gjs.Locale = old
	sym.Assert(ok, "the locale supplies the description")
	sym.Assert(text == z, "the locale supplies the form of the text")
	e = run(sch, i).Errors()
	sym.Assert(len(e) == 1 && e[0].Description() == y, "the default locale is back")
}

// funcLocale uses a custom function in a text.
type funcLocale struct{ gjs.DefaultLocale }

func (funcLocale) Required() string { return `{{shout .property}} needed` }

// H_C27_funcs: template functions set by the user can be used in a locale.
func H_C27_funcs() {
	l := sym.Str("l", 1, "abAB")
	oldL, oldF := gjs.Locale, gjs.ErrorTemplateFuncs
	gjs.ErrorTemplateFuncs = map[string]interface{}{"shout": func(s string) string { return s + "!" }}
	gjs.Locale = funcLocale{}
	e := run(compile(M{"required": A{l}}), M{}).Errors()
	gjs.Locale, gjs.ErrorTemplateFuncs = oldL, oldF
	sym.Assert(len(e) == 1 && e[0].Description() == l+"! needed", "a template function is applied")
}

// ownError is an error defined by a user.
type ownError struct{ gjs.ResultErrorFields }

// H_C27_own: errors added by the user count, keep their order behind the others, and their
// description is rendered from their format and details.
func H_C27_own() {
	v := num("v", "d")
	l := sym.Str("l", 1, "abAB")
	r := run(compile(M{"minimum": N("5")}), v)
	before := len(r.Errors())
	sym.Assert(r.Valid() == (before == 0), "Valid")
	ctx := gjs.NewJsonContext("p"+l, gjs.NewJsonContext("(root)", nil))
	e := &ownError{}
	e.SetType("own")
	e.SetContext(ctx)
	e.SetDescriptionFormat("own {{.what}} at {{.context}}")
	e.SetValue(v)
	details := gjs.ErrorDetails{"what": "w" + l}
	r.AddError(e, details)
	sym.Assert(!r.Valid(), "an added error makes the result invalid")
	es := r.Errors()
	sym.Assert(len(es) == before+1, "an added error is one more error")
	g := es[len(es)-1]
	sym.Assert(g.Type() == "own" && g.Description() == "own w"+l+" at (root).p"+l, "an added error keeps its type and is described by its format")
	sym.Assert(g.Field() == "p"+l, "an added error keeps its place")
	sym.Assert(g.String() == "p"+l+": own w"+l+" at (root).p"+l, "an added error prints")
	sym.Assert(ref.Equal(g.Value(), v), "an added error keeps its value")
}

// H_C27_context: a context prints its parts from the root on, joined by a dot or the given
// delimiter; names that contain dots are kept.
func H_C27_context() {
	c := gjs.NewJsonContext("(root)", nil)
	want, wantSlash := "(root)", "(root)"
	n := sym.Choose("n", 4)
	for k := 0; k < n; k++ {
		p := strOf("p"+itoa(k), 2, "a.A/")
		c = gjs.NewJsonContext(p, c)
		want += "." + p
		wantSlash += "/" + p
	}
	sym.Assert(c.String() == want, "the path of a context")
	sym.Assert(c.String("/") == wantSlash, "the path of a context with a delimiter")
}

// H_C27_value: the value of an error is the failing part of the instance, any value of nesting 1.
func H_C27_value() {
	v := anyVal("v", 1, 2)
	r := run(compile(M{"properties": M{"p": M{"not": M{}}}}), M{"p": v})
	e := r.Errors()
	sym.Assert(len(e) == 1 && ref.Equal(e[0].Value(), v), "the value of an error is the failing part of the instance")
	sym.Assert(e[0].String() == "p: Must not validate the schema (not)", "the text of an error")
}
