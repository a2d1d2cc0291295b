package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// wellFormed reports whether v is an allowed value of the keyword, in the union of the
// drafts; ok is false for values the property leaves open.
func wellFormed(kw string, v interface{}) (good, ok bool) {
	t := ref.TypeOf(v)
	switch kw {
	case "minimum", "maximum":
		return t == "number" || t == "integer", true
	case "multipleOf":
		if t != "number" && t != "integer" {
			return false, true
		}
		return ref.Rat(v.(jsonNumber)).Sign() > 0, true
	case "exclusiveMinimum", "exclusiveMaximum":
		return t == "number" || t == "integer", t != "boolean"
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		if t != "integer" {
			return false, true
		}
		return ref.Rat(v.(jsonNumber)).Sign() >= 0, true
	case "pattern":
		return t == "string", true
	case "format", "title", "description", "$id", "id":
		return t == "string", true
	case "$ref":
		return false, t != "string"
	case "uniqueItems":
		return t == "boolean", true
	case "required":
		return stringSet(v)
	case "enum":
		a, is := v.(A)
		if !is {
			return false, true
		}
		for i := range a {
			for j := 0; j < i; j++ {
				if ref.Equal(a[i], a[j]) {
					return false, true
				}
			}
		}
		return true, len(a) > 0
	case "type":
		if s, is := v.(string); is {
			return isTypeName(s), true
		}
		a, is := v.(A)
		if !is {
			return false, true
		}
		good := true
		for i, x := range a {
			s, is := x.(string)
			good = good && is && isTypeName(s)
			for j := 0; j < i; j++ {
				good = good && !ref.Equal(a[i], a[j])
			}
		}
		return good, len(a) > 0
	case "items":
		if a, is := v.(A); is {
			return allSchemas(a), len(a) > 0
		}
		return isSchema(v), true
	case "allOf", "anyOf", "oneOf":
		a, is := v.(A)
		if !is {
			return false, true
		}
		return allSchemas(a), len(a) > 0
	case "additionalItems", "additionalProperties", "not", "contains", "propertyNames", "if", "then", "else":
		return isSchema(v), true
	case "properties", "definitions", "patternProperties":
		o, is := v.(M)
		if !is {
			return false, true
		}
		for _, x := range o {
			if !isSchema(x) {
				return false, true
			}
		}
		return true, true
	case "dependencies":
		o, is := v.(M)
		if !is {
			return false, true
		}
		for _, x := range o {
			if a, is := x.(A); is {
				for _, y := range a {
					if _, is := y.(string); !is {
						return false, true
					}
				}
				continue
			}
			if !isSchema(x) {
				return false, true
			}
		}
		return true, true
	}
	return true, true
}

func isTypeName(s string) bool {
	for _, t := range typeNames {
		if s == t {
			return true
		}
	}
	return false
}

// a schema of the values used here: a boolean or an object, whose one-letter members are
// no keywords.
func isSchema(v interface{}) bool {
	t := ref.TypeOf(v)
	return t == "boolean" || t == "object"
}

func allSchemas(a A) bool {
	for _, x := range a {
		if !isSchema(x) {
			return false
		}
	}
	return true
}

func stringSet(v interface{}) (bool, bool) {
	a, is := v.(A)
	if !is {
		return false, true
	}
	for i, x := range a {
		s, is := x.(string)
		if !is {
			return false, true
		}
		for j := 0; j < i; j++ {
			if a[j].(string) == s {
				return false, true
			}
		}
	}
	return true, true
}

var keywords = []string{"minimum", "maximum", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties",
	"pattern", "format", "title", "description", "$id", "id", "$ref", "uniqueItems", "required", "enum", "type", "items", "allOf", "anyOf", "oneOf",
	"additionalItems", "additionalProperties", "not", "contains", "propertyNames", "if", "then", "else", "properties", "definitions", "patternProperties", "dependencies", "const", "default", "x-unknown"}

func judge(kw string, s, v interface{}) {
	good, ok := wellFormed(kw, v)
	sym.Assume(ok)
	_, err := compileDraft(0, s)
	sym.Observe("err", err != nil)
	if good {
		sym.Cover("well-formed")
		sym.Assert(err == nil, "a schema with a well-formed "+kw+" is rejected")
	} else {
		sym.Cover("malformed")
		sym.Assert(err != nil, "a schema with a malformed "+kw+" is accepted")
	}
}

// H_C14_values: every keyword x every value: scalars (any one-letter string, boolean, digit,
// negative digit, one decimal), arrays and objects of up to 2 (thorough: deeper) such members.
func H_C14_values() {
	kw := keywords[sym.Choose("kw", len(keywords))]
	d := 1
	if sym.Thorough() {
		d = 2
	}
	v := anyVal("v", d, 2)
	judge(kw, M{kw: v}, v)
}

// H_C14_numbers: the numeric keywords x number spellings with fractions, exponents, signs
// and up to 20 digits.
func H_C14_numbers() {
	ks := keywords[:11]
	kw := ks[sym.Choose("kw", len(ks))]
	v := oneNum("v", "d", "nd", "-d", "-nd", "d.d", "-d.d", "d.dd", "nde-1", "n.de1", "0.0", "-0", "-0.0", "0e1", "ndddddddd", "1e2", "-1e2", "1e-2", "0.00000000000000000000d")
	judge(kw, M{kw: v}, v)
}

// H_C14_nested: a malformed keyword is found at every place of a subschema, next to other
// keywords; the keyword value is any scalar.
func H_C14_nested() {
	ks := []string{"minimum", "multipleOf", "maxLength", "uniqueItems", "required", "enum", "type", "items", "anyOf", "not", "properties", "dependencies", "pattern", "$ref", "format", "additionalProperties", "if"}
	kw := ks[sym.Choose("kw", len(ks))]
	v := scalar("v")
	in := M{kw: v, "title": "t"}
	s, _ := place("at", in, nil)
	if sym.Choose("def", 2) == 1 {
		s = M{"definitions": M{"d": in}}
	}
	judge(kw, s, v)
}

// H_C14_pairs: lower and upper limits of the same kind contradict each other exactly when
// the lower one is greater (length, items and properties), digits free.
func H_C14_pairs() {
	lo, hi := num("lo", "d"), num("hi", "d")
	var s M
	k := sym.Choose("k", 2)
	if k == 0 {
		s = M{"minLength": lo, "maxLength": hi}
	} else {
		s = M{"minProperties": lo, "maxProperties": hi}
	}
	_, err := compileDraft(0, s)
	sym.Assert((err != nil) == (ref.Rat(lo).Cmp(ref.Rat(hi)) > 0), "contradicting limits are rejected, others accepted")
}

// H_C14_types: any string of up to 7 letters as a type, alone or in a list.
func H_C14_types() {
	n := []int{4, 5, 6, 7}[sym.Choose("len", 4)]
	t := sym.Str("t", n, "a-z")
	var v interface{} = t
	if sym.Choose("list", 2) == 1 {
		v = A{"null", t}
	}
	judge("type", M{"type": v}, v)
}

// H_C14_pattern: strings that are, and that are not, regular expressions.
func H_C14_pattern() {
	pats := []string{"", "a", "^a+$", "[a-z]", "(a|b)", "a{2,3}", "\\d", "(", "[", "*", "a{3,2}", "(?", ")", "\\", "[b-a]", "a**", "\\p{L}", "(?<x"}
	k := sym.Choose("p", len(pats))
	bad := (k >= 7 && k <= 15) || k == 17
	var s interface{} = M{"pattern": pats[k]}
	switch sym.Choose("at", 3) {
	case 1:
		s = M{"patternProperties": M{pats[k]: M{}}}
	case 2:
		s = M{"items": M{"pattern": pats[k]}}
	}
	_, err := compileDraft(0, s)
	sym.Assert((err != nil) == bad, "a pattern is accepted exactly when it is a regular expression: "+pats[k])
}

// H_C14_root: a schema document is an object or a boolean.
func H_C14_root() {
	v := anyVal("v", 1, 1)
	_, err := compileDraft(0, v)
	sym.Assert((err == nil) == isSchema(v), "a schema is an object or a boolean")
}

// H_C14_schemakw: $schema is a string.
func H_C14_schemakw() {
	v := anyVal("v", 1, 1)
	_, err := compileDraft(0, M{"$schema": v})
	_, is := v.(string)
	sym.Assert((err == nil) == is, "$schema is a string")
}
