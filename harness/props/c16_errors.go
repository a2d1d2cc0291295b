package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// errNumber: several number constraints at once, all limits and the instance free digits.
func errNumber() (interface{}, interface{}) {
	s := M{}
	switch sym.Choose("set", 3) {
	case 0:
		s["minimum"], s["maximum"], s["multipleOf"] = num("lo", "d"), num("hi", "d"), num("m", "n")
	case 1:
		s["exclusiveMinimum"], s["exclusiveMaximum"], s["enum"] = num("lo", "d"), num("hi", "d"), A{num("e", "d"), "x"}
	default:
		s["const"], s["maximum"], s["type"] = num("c", "d"), num("hi", "d"), []string{"number", "integer", "string"}[sym.Choose("ty", 3)]
	}
	return s, num("v", "d")
}

// errString: length, pattern, enum, const and format constraints on any string of up to 3
// letters, or a value of another type.
func errString() (interface{}, interface{}) {
	s := M{"minLength": N("2"), "maxLength": N("2"), "pattern": "^a", "enum": A{"ab", "b"}}
	switch sym.Choose("set", 3) {
	case 1:
		s = M{"minLength": N("3"), "pattern": "b$", "const": "ab"}
	case 2:
		s = M{"maxLength": N("1"), "format": "ipv4", "type": A{"string", "null"}}
	}
	if sym.Choose("other", 4) == 0 {
		return s, scalar("o")
	}
	return s, strOf("v", 3, "a-b")
}

// errArray: items, sizes, uniqueness, contains on arrays of up to 3 digits or strings.
func errArray() (interface{}, interface{}) {
	in := M{"minimum": num("lo", "d")}
	var s M
	switch sym.Choose("set", 5) {
	case 0:
		s = M{"items": in, "minItems": N("2"), "uniqueItems": true}
	case 1:
		s = M{"items": A{in, M{"type": "string"}}, "additionalItems": false, "maxItems": N("1")}
	case 2:
		s = M{"items": A{in}, "additionalItems": M{"maximum": num("hi", "d")}, "maxItems": N("2")}
	case 3:
		s = M{"contains": in, "maxItems": N("1"), "uniqueItems": true}
	default:
		s = M{"items": M{"items": in, "maxItems": N("0")}}
		return s, A{A{num("v", "d")}, A{num("w", "d"), "s"}}
	}
	v := A{}
	n := sym.Choose("n", 4)
	for k := 0; k < n; k++ {
		if k == 1 && sym.Choose("str", 2) == 1 {
			v = append(v, "s")
			continue
		}
		v = append(v, num("v"+itoa(k), "d"))
	}
	return s, v
}

// errObject: several object constraints at once on objects of up to 2 members out of a, b, c.
func errObject() (interface{}, interface{}) {
	in := M{"minimum": num("lo", "d")}
	var s M
	switch sym.Choose("set", 7) {
	case 0:
		s = M{"required": A{"a", "b"}, "minProperties": N("2"), "properties": M{"a": in}}
	case 1:
		s = M{"properties": M{"a": in}, "additionalProperties": false, "maxProperties": N("1")}
	case 2:
		s = M{"properties": M{"a": in}, "patternProperties": M{"[ab]": M{"type": "string"}}, "additionalProperties": M{"maximum": num("hi", "d")}}
	case 3:
		s = M{"propertyNames": M{"enum": A{"a", "d"}}, "required": A{"d"}}
	case 4:
		s = M{"dependencies": M{"a": A{"b", "c"}, "b": M{"maxProperties": N("1"), "required": A{"c"}}}, "additionalProperties": in}
	case 5:
		s = M{"patternProperties": M{"a": in, "^[ac]$": M{"multipleOf": N("2")}}, "maxProperties": N("0")}
	default:
		s = M{"properties": M{"a": M{"properties": M{"b": in}, "required": A{"c"}}}, "additionalProperties": false}
		return s, M{"a": M{sym.Str("k", 1, "a-cA"): num("v", "d")}, "b": nil}
	}
	v := M{}
	n := sym.Choose("n", 3)
	for k := 0; k < n; k++ {
		v[sym.Str("k"+itoa(k), 1, "a-cA")] = num("v"+itoa(k), "d")
	}
	return s, v
}

// errCombine: every combinator over free leaf schemas.
func errCombine() (interface{}, interface{}) {
	a, b := branchSchema("a"), branchSchema("b")
	var s M
	switch sym.Choose("set", 7) {
	case 0:
		s = M{"allOf": A{a, b}}
	case 1:
		s = M{"anyOf": A{a, b}}
	case 2:
		s = M{"oneOf": A{a, b}}
	case 3:
		s = M{"not": a, "anyOf": A{b}}
	case 4:
		s = M{"if": a, "then": b, "else": M{"maximum": num("e", "d")}}
	case 5:
		s = M{"allOf": A{M{"properties": M{"p": a}}}, "properties": M{"p": M{"not": b}}}
		return s, M{"p": instDigit()}
	default:
		s = M{"definitions": M{"x": a}, "items": M{"$ref": "#/definitions/x"}, "additionalItems": false, "not": M{"items": b}}
		return s, A{instDigit()}
	}
	return s, instDigit()
}

func subjectOf(e gjs.ResultError) string {
	switch e.Type() {
	case "required", "additional_property_not_allowed", "invalid_property_name":
		s, _ := e.Details()["property"].(string)
		return s
	case "missing_dependency":
		s, _ := e.Details()["dependency"].(string)
		return s
	}
	return ""
}

// nodeAt resolves a context in the instance.
func nodeAt(v interface{}, c *gjs.JsonContext) (interface{}, bool) {
	parts := strings.Split(c.String("\x00"), "\x00")
	if len(parts) == 0 || parts[0] != "(root)" {
		return nil, false
	}
	for _, p := range parts[1:] {
		switch x := v.(type) {
		case M:
			n, ok := x[p]
			if !ok {
				return nil, false
			}
			v = n
		case A:
			k := -1
			for i := range x {
				if itoa(i) == p {
					k = i
				}
			}
			if k < 0 {
				return nil, false
			}
			v = x[k]
		default:
			return nil, false
		}
	}
	return v, true
}

var errorTypes = []string{"false", "required", "invalid_type", "number_any_of", "number_one_of", "number_all_of", "number_not", "missing_dependency", "internal", "const", "enum",
	"array_no_additional_items", "array_min_items", "array_max_items", "unique", "contains", "array_min_properties", "array_max_properties", "additional_property_not_allowed",
	"invalid_property_pattern", "invalid_property_name", "string_gte", "string_lte", "pattern", "format", "multiple_of", "number_gte", "number_gt", "number_lte", "number_lt", "condition_then", "condition_else"}

func inList(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// integrity asserts what holds of every reported error.
func integrity(s, v interface{}) {
	r := run(compile(s), v)
	sym.Assert(r.Valid() == (len(r.Errors()) == 0), "valid means no errors")
	for _, e := range r.Errors() {
		t := e.Type()
		sym.Assert(inList(errorTypes, t), "the error type is documented: "+t)
		full := e.Context().String()
		node, ok := nodeAt(v, e.Context())
		sym.Assert(ok, t+": the context addresses a node of the instance: "+full)
		field := strings.TrimPrefix(full, "(root).")
		sym.Assert(e.Field() == field, t+": the field is the context without the root")
		d := e.Details()
		f, _ := d["field"].(string)
		c, _ := d["context"].(string)
		sym.Assert(f == field && c == full, t+": the details hold field and context")
		switch t {
		case "required":
			o, is := node.(M)
			_, has := o[subjectOf(e)]
			sym.Assert(is && subjectOf(e) != "" && !has && ref.Equal(e.Value(), node), "required names a missing property")
		case "missing_dependency":
			o, is := node.(M)
			_, has := o[subjectOf(e)]
			sym.Assert(is && subjectOf(e) != "" && !has && ref.Equal(e.Value(), node), "missing_dependency names a missing property")
		case "additional_property_not_allowed":
			o, is := node.(M)
			x, has := o[subjectOf(e)]
			sym.Assert(is && has && ref.Equal(e.Value(), x), "additional_property_not_allowed names a property and holds its value")
		case "invalid_property_name":
			o, is := node.(M)
			_, has := o[subjectOf(e)]
			sym.Assert(is && has && ref.Equal(e.Value(), node), "invalid_property_name names a property")
		default:
			if o, is := node.(M); is && mentions(s, "propertyNames") {
				if k, is := e.Value().(string); is {
					_, has := o[k]
					sym.Assert(has, t+": the value is a property name")
					break
				}
			}
			sym.Assert(ref.Equal(e.Value(), node), t+": the value is the node the context addresses")
		}
		sym.Cover(t)
	}
}

// mentions reports whether a schema uses the key anywhere.
func mentions(s interface{}, key string) bool {
	switch x := s.(type) {
	case M:
		for k, v := range x {
			if k == key || mentions(v, key) {
				return true
			}
		}
	case A:
		for _, v := range x {
			if mentions(v, key) {
				return true
			}
		}
	}
	return false
}

// H_C16_number: integrity of the errors about numbers (limits and instance free digits),
// at the root or below a property, an item or a reference.
func H_C16_number() {
	s, v := errNumber()
	integrity(wrap("w", s, v))
}

// H_C16_string: integrity of the errors about strings of up to 3 letters and other scalars.
func H_C16_string() {
	s, v := errString()
	integrity(wrap("w", s, v))
}

// H_C16_array: integrity of the errors about arrays of up to 3 elements.
func H_C16_array() {
	s, v := errArray()
	integrity(wrap2("w", s, v))
}

// H_C16_object: integrity of the errors about objects of up to 2 members.
func H_C16_object() {
	s, v := errObject()
	integrity(wrap2("w", s, v))
}

// H_C16_combine: integrity of the errors of combinators, references and conditions.
func H_C16_combine() {
	s, v := errCombine()
	integrity(s, v)
}

// wrap2 is wrap with fewer parents in the quick tier.
func wrap2(name string, s, v interface{}) (interface{}, interface{}) {
	if sym.Thorough() {
		return wrap(name, s, v)
	}
	switch sym.Choose(name, 2) {
	case 0:
		return s, v
	default:
		return M{"properties": M{"p": M{"items": s}}}, M{"p": A{v}}
	}
}

// H_C16_names: property names of up to 2 arbitrary printable characters (also '.', '~', '/'
// and digits) are reported unchanged in context, field and details.
func H_C16_names() {
	k := sym.Str("k", 1+sym.Choose("n", 2), " -~")
	sym.Assume(!strings.Contains(k, "\x00"))
	var s M
	switch sym.Choose("s", 4) {
	case 0:
		s = M{"additionalProperties": M{"type": "string"}}
	case 1:
		s = M{"additionalProperties": false}
	case 2:
		s = M{"propertyNames": false}
	default:
		s = M{"patternProperties": M{"": M{"not": M{}}}}
	}
	r := run(compile(s), M{k: N("1")})
	sym.Assert(len(r.Errors()) >= 1, "the property is refused")
	e := r.Errors()[0]
	switch e.Type() {
	case "invalid_type", "number_not":
		sym.Assert(e.Context().String() == "(root)."+k && e.Field() == k, "the context holds the name unchanged")
	default:
		p, _ := e.Details()["property"].(string)
		sym.Assert(p == k && e.Context().String() == "(root)" && e.Field() == "(root)", "the details hold the name unchanged")
	}
}

// H_C16_delim: the context is rendered with any one-character delimiter.
func H_C16_delim() {
	d := sym.Str("d", 1, " -~")
	s := M{"properties": M{"a": M{"items": M{"type": "string"}}}}
	r := run(compile(s), M{"a": A{N("1"), "s", nil}})
	sym.Assert(len(r.Errors()) == 2, "two wrong items")
	sym.Assert(r.Errors()[0].Context().String(d) == "(root)"+d+"a"+d+"0" && r.Errors()[1].Context().String(d) == "(root)"+d+"a"+d+"2", "the context uses the delimiter")
}
