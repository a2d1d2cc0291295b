package props

import (
	"strings"

	"verifharness/sym"
)

// H_C01_with: "type" next to every other keyword.
func H_C01_with() {
	t := typeNames[sym.Choose("t", len(typeNames))]
	var x interface{} = t
	if sym.Choose("list", 2) == 1 {
		x = A{t, "null"}
		sym.Assume(t != "null")
	}
	v := []interface{}{nil, true, num("v", "d"), num("v", "d.d"), "a", A{num("v", "d")}, M{"a": num("v", "d")}}[sym.Choose("kind", 7)]
	agree(with("w", M{"type": x}), v, "type next to another keyword")
}

// H_C01_order: lists of 2 to 7 type names in either direction from any name on.
func H_C01_order() {
	n := 2 + sym.Choose("n", 6)
	at := sym.Choose("at", 7)
	step := []int{1, 6, 3}[sym.Choose("step", 3)]
	l := A{}
	for k := 0; k < n; k++ {
		l = append(l, typeNames[(at+k*step)%7])
	}
	v := []interface{}{nil, true, num("v", "d"), num("v", "d.d"), "a", A{}, M{}}[sym.Choose("kind", 7)]
	agree(M{"type": l}, v, "long type list")
}

// H_C01_special: every type and odd values; alone and below a parent.
func H_C01_special() {
	s, v := wrap("wrap", M{"type": typeNames[sym.Choose("t", len(typeNames))]}, special("v"))
	agree(s, v, "type and odd values")
}

// H_C02_with: a bound next to every other keyword.
func H_C02_with() {
	s, n := boundSchema(sym.Choose("k", 6), num("b", "d"))
	agree(with("w", s), oneNum("v", "d", "d.d", "-d"), n+" next to another keyword")
}

// H_C02_four: all four bounds at once, in numeric and boolean form, in every draft.
func H_C02_four() {
	lo, hi := num("lo", "d"), num("hi", "d")
	v := oneNum("v", "d", "d.d", "-d")
	if sym.Choose("form", 2) == 0 {
		d := []int{6, 7, 0}[sym.Choose("draft", 3)]
		agreeDraft(d, M{"minimum": lo, "exclusiveMinimum": num("xlo", "d"), "maximum": hi, "exclusiveMaximum": num("xhi", "d")}, v, "four bounds")
		return
	}
	d := []int{4, 0}[sym.Choose("draft", 2)]
	agreeDraft(d, M{"minimum": lo, "exclusiveMinimum": sym.Choose("x", 2) == 1, "maximum": hi, "exclusiveMaximum": sym.Choose("y", 2) == 1}, v, "four bounds")
}

// H_C02_zero: bounds of zero and of negative numbers in any spelling.
func H_C02_zero() {
	b := []string{"0", "-0", "0.0", "0e5", "-1", "-0.5", "-1e-3", "0.00"}[sym.Choose("b", 8)]
	s, n := boundSchema(sym.Choose("k", 8), N(b))
	agree(s, oneNum("v", "-d", "d", "-0.00d", "0.00d", "-d.d", "de-9", "-de-9", "-0"), n+" of zero")
}

// H_C03_all: multipleOf next to every other keyword, in every draft.
func H_C03_all() {
	m := []string{"1", "2", "3", "0.5", "0.1"}[sym.Choose("m", 5)]
	agree(with("w", M{"multipleOf": N(m)}), oneNum("v", "d", "d.d", "-d"), "multipleOf next to another keyword")
}

// H_C03_drafts: multipleOf in every draft.
func H_C03_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	agreeDraft(d, M{"multipleOf": oneNum("m", "n", "0.n")}, oneNum("v", "d", "-d.d"), "multipleOf in a draft")
}

// H_C03_zero: zero in any spelling is a multiple of everything; equal and opposite numbers are multiples.
func H_C03_zero() {
	m := oneNum("m", "n", "0.0n", "ne5", "ne-5", "nddd")
	v := []jsonNumber{"0", "-0", "0.0", "0e9", "-0.00", "0e-9", m, "-" + m}[sym.Choose("v", 8)]
	got := run(compile(M{"multipleOf": m}), v).Valid()
	sym.Assert(got, "zero and the number itself are multiples")
}

// H_C04_with: length and pattern next to every other keyword.
func H_C04_with() {
	s := []M{{"minLength": num("n", "d")}, {"maxLength": num("n", "d")}, {"pattern": "^a"}, {"pattern": "b$"}}[sym.Choose("k", 4)]
	agree(with("w", s), strOf("v", 3, "ab"), "a string keyword next to another")
}

// H_C04_special: length and pattern over odd strings, in every draft.
func H_C04_special() {
	s := []M{{"minLength": num("n", "d")}, {"maxLength": num("n", "d")}, {"pattern": "."}, {"pattern": "^a$"}, {"pattern": "\\s$"}, {"pattern": " a"}, {"pattern": "a "}, {"pattern": "^\\n"}, {"pattern": "\\x00"}, {"pattern": "^$"}, {"pattern": "[^ -~]"}, {"pattern": "(?s)^.{64,}$"}}[sym.Choose("k", 12)]
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	agreeDraft(d, s, special("v"), "a string keyword over odd values")
}

// H_C04_ends: white space and zero bytes at either end count and match like any other character.
func H_C04_ends() {
	c := " \t\n\x00\r"
	v := sym.Str("p", sym.Choose("pl", 3), c) + "a" + sym.Str("q", sym.Choose("ql", 3), c)
	s := []M{{"minLength": N("3")}, {"maxLength": N("2")}, {"pattern": "^a"}, {"pattern": "a$"}, {"pattern": "^\\sa"}, {"pattern": "a\\s"}}[sym.Choose("k", 6)]
	agree(s, v, "white space counts")
}

// H_C04_limits: limits of any size up to 6 digits against strings of 0 to 3 characters.
func H_C04_limits() {
	n := oneNum("n", "nd", "ndd", "256", "65536", "4294967296", "4294967297", "9223372036854775807", "ndddddd")
	s := M{[]string{"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"}[sym.Choose("k", 2)]: n}
	agree(s, strOf("v", 3, "a"), "a large limit")
}

// H_C05_with: items, additionalItems and contains next to every other keyword.
func H_C05_with() {
	s := []M{{"items": M{"minimum": num("m", "d")}}, {"items": A{M{"minimum": num("m", "d")}}}, {"items": A{M{}}, "additionalItems": M{"minimum": num("m", "d")}}, {"items": A{M{}}, "additionalItems": false}, {"contains": M{"minimum": num("m", "d")}}, {"contains": M{"type": "null"}, "items": M{}}}[sym.Choose("k", 6)]
	n := sym.Choose("n", 4)
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, num("v"+itoa(k), "d"))
	}
	agree(with("w", s), v, "an array keyword next to another")
}

// H_C05_special: odd elements at each position of up to three.
func H_C05_special() {
	in := []interface{}{M{"type": "string"}, M{"type": A{"null", "boolean", "integer"}}, M{"not": M{"type": "null"}}, M{"minLength": N("1"), "minItems": N("1"), "minProperties": N("1")}}[sym.Choose("in", 4)]
	x := special("x")
	var s M
	v := A{x}
	switch sym.Choose("k", 6) {
	case 0:
		s, v = M{"items": in}, A{"b", x}
	case 1:
		s = M{"items": A{in}}
	case 2:
		s, v = M{"items": A{M{}}, "additionalItems": in}, A{N("1"), x}
	case 3:
		s, v = M{"items": A{M{}}, "additionalItems": false}, A{N("1"), x}
	case 4:
		s, v = M{"contains": in}, A{nil, x, A{}}
	default:
		s, v = M{"items": A{in, in}, "additionalItems": in}, A{"b", x, x}
	}
	agree(s, v, "an array keyword over odd values")
}

// H_C05_drafts: items, additionalItems and contains in every draft.
func H_C05_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	s := []M{{"items": M{"minimum": N("5")}}, {"items": A{M{"minimum": N("5")}}, "additionalItems": M{"type": "null"}}, {"contains": M{"minimum": N("5")}}, {"items": A{M{}}, "additionalItems": false}}[sym.Choose("k", 4)]
	agreeDraft(d, s, arr("v", 1, 2), "an array keyword in a draft")
}

// H_C06_with: sizes and uniqueItems next to every other keyword.
func H_C06_with() {
	s := []M{{"minItems": num("m", "d")}, {"maxItems": num("m", "d")}, {"uniqueItems": true}, {"uniqueItems": false}, {"minItems": N("1"), "maxItems": N("2"), "uniqueItems": true}}[sym.Choose("k", 5)]
	n := sym.Choose("n", 4)
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, num("v"+itoa(k), "d"))
	}
	agree(with("w", s), v, "an array size next to another keyword")
}

// H_C06_special: uniqueItems over two odd values, equal or not.
func H_C06_special() {
	agree(M{"uniqueItems": true}, A{special("a"), special("b")}, "uniqueItems over odd values")
}

// H_C06_longtext: long values that differ in one free place (any of 200) are different: strings,
// numbers, arrays and objects.
func H_C06_longtext() {
	x, y := sym.Byte("x", "12"), sym.Byte("y", "12")
	const n = 200
	at := pick(sym.Int("at", 0, n-1), n)
	kind := sym.Choose("kind", 4)
	mk := func(c byte) interface{} {
		b := make([]byte, n)
		for k := range b {
			b[k] = '1'
		}
		b[at] = c
		switch kind {
		case 0:
			return string(b)
		case 1:
			return jsonNumber(b)
		case 2:
			return A{string(b[:n/2]), string(b[n/2:])}
		default:
			return M{"k": string(b[:20]), "l": M{"m": string(b[20:])}}
		}
	}
	got := run(compile(M{"uniqueItems": true}), A{mk(x), mk(y)}).Valid()
	sym.Assert(got == (x != y), "long values are compared in full")
}

// H_C06_drafts: the array keywords in every draft.
func H_C06_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	s := []M{{"minItems": num("n", "d")}, {"maxItems": num("n", "d")}, {"uniqueItems": true}}[sym.Choose("k", 3)]
	agreeDraft(d, s, arr("v", 1, 2), "an array size in a draft")
}

// H_C07_with: properties, patternProperties and additionalProperties next to every other keyword.
func H_C07_with() {
	s := []M{{"properties": M{"a": M{"minimum": num("m", "d")}}}, {"patternProperties": M{"a": M{"minimum": num("m", "d")}}}, {"additionalProperties": M{"minimum": num("m", "d")}}, {"properties": M{"a": M{}}, "additionalProperties": false}, {"properties": M{"a": M{}}, "patternProperties": M{"b": M{"maximum": num("m", "d")}}, "additionalProperties": false}}[sym.Choose("k", 5)]
	o := M{}
	for k, n := 0, sym.Choose("n", 3); k < n; k++ {
		o[sym.Str("k"+itoa(k), 1, "abA")] = num("v"+itoa(k), "d")
	}
	agree(with("w", s), o, "an object keyword next to another")
}

// H_C07_odd: odd names in the schema and in the instance.
func H_C07_odd() {
	n, m := odd("n"), odd("m")
	v := M{m: num("v", "d")}
	var s M
	switch sym.Choose("k", 5) {
	case 0:
		s = M{"properties": M{n: M{"minimum": N("5")}}}
	case 1:
		s = M{"properties": M{n: M{}}, "additionalProperties": false}
	case 2:
		s = M{"properties": M{n: M{"minimum": N("5")}}, "additionalProperties": M{"maximum": N("4")}}
	case 3:
		s = M{"properties": M{n: M{"minimum": N("5")}}, "patternProperties": M{"^[a-z]$": M{"maximum": N("7")}}, "additionalProperties": false}
	default:
		s = M{"properties": M{n: M{"type": "string"}, m: M{"minimum": N("5")}}}
	}
	agree(s, v, "odd names")
}

// H_C07_special: odd values under each kind of member.
func H_C07_special() {
	in := []interface{}{M{"type": "string"}, M{"type": A{"null", "boolean", "integer"}}, M{"not": M{"type": "null"}}, false}[sym.Choose("in", 4)]
	s := []M{{"properties": M{"a": in}}, {"patternProperties": M{"a": in}}, {"additionalProperties": in}, {"properties": M{"a": in}, "additionalProperties": false}, {"properties": M{"b": in}, "patternProperties": M{"^a": in, "a$": M{}}, "additionalProperties": in}}[sym.Choose("k", 5)]
	agree(s, M{"a": special("x")}, "an object keyword over odd values")
}

// H_C07_regex: member names of up to 2 free letters against 10 patterns, found anywhere.
func H_C07_regex() {
	p := []string{"^a", "a$", "a", "^a$", "b|^$", "[A-Z]", "^.b", "(?i)A", "a.", "^(a|b)+$"}[sym.Choose("p", 10)]
	s := M{"patternProperties": M{p: M{"minimum": N("5")}}}
	if sym.Choose("addl", 2) == 1 {
		s["additionalProperties"] = M{"maximum": N("5")}
	}
	agree(s, M{strOf("k", 2, "abA"): num("v", "d")}, "patternProperties "+p)
}

// H_C07_drafts: the object keywords in every draft.
func H_C07_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	s := []M{{"properties": M{"a": M{"minimum": N("5")}}, "additionalProperties": false}, {"patternProperties": M{"a": M{"minimum": N("5")}}}, {"additionalProperties": M{"minimum": N("5")}}}[sym.Choose("k", 3)]
	agreeDraft(d, s, objKeys("v", 1, 1), "an object keyword in a draft")
}

// H_C08_with: the object keywords next to every other keyword.
func H_C08_with() {
	s := []M{{"required": A{"a"}}, {"required": A{"b", "a"}}, {"minProperties": num("m", "d")}, {"maxProperties": num("m", "d")}, {"propertyNames": M{"pattern": "^[a-b]"}}, {"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"a": M{"maxProperties": N("1")}}}}[sym.Choose("k", 7)]
	o := M{}
	for k, n := 0, sym.Choose("n", 3); k < n; k++ {
		o[sym.Str("k"+itoa(k), 1, "abA")] = num("v"+itoa(k), "d")
	}
	agree(with("w", s), o, "an object keyword next to another")
}

// H_C08_odd: odd names that are required, needed, or tested as names.
func H_C08_odd() {
	n, m := odd("n"), odd("m")
	v := M{m: nil}
	var s M
	switch sym.Choose("k", 6) {
	case 0:
		s = M{"required": A{n}}
	case 1:
		s, v = M{"dependencies": M{"x": A{n}}}, M{"x": nil, m: nil}
	case 2:
		s = M{"dependencies": M{n: A{"y"}}}
	case 3:
		s = M{"dependencies": M{n: M{"minProperties": N("2")}}}
	case 4:
		s = M{"propertyNames": M{"const": n}}
	default:
		s = M{"propertyNames": M{"not": M{"enum": A{n, "zz"}}}}
	}
	agree(s, v, "odd names")
}

// H_C08_special: members with odd values count like any other.
func H_C08_special() {
	x := special("x")
	s := []M{{"required": A{"a"}}, {"required": A{"b"}}, {"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"b": A{"a"}}}, {"dependencies": M{"a": M{"required": A{"b"}}}}, {"dependencies": M{"a": false}}, {"minProperties": N("2")}, {"maxProperties": N("1")}, {"propertyNames": M{"maxLength": N("1")}}}[sym.Choose("k", 9)]
	v := M{"a": x}
	if sym.Choose("two", 2) == 1 {
		v["bb"[:1+sym.Choose("name", 2)]] = N("1")
	}
	agree(s, v, "members with odd values")
}

// H_C08_names2: propertyNames over names of 0 to 3 characters of any width, by length.
func H_C08_names2() {
	k := uni("k", sym.Choose("n", 3))
	s := M{"propertyNames": []M{{"minLength": num("m", "d")}, {"maxLength": num("m", "d")}, {"pattern": "^[a-c]"}}[sym.Choose("s", 3)]}
	agree(s, M{k: nil}, "propertyNames over any name")
}

// H_C08_drafts: the object keywords in every draft.
func H_C08_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	s := []M{{"required": A{"a"}}, {"minProperties": num("n", "d")}, {"maxProperties": num("n", "d")}, {"dependencies": M{"a": A{"b"}}}, {"dependencies": M{"a": M{"required": A{"b"}}}}, {"propertyNames": M{"pattern": "^a"}}}[sym.Choose("k", 6)]
	agreeDraft(d, s, objKeys("v", 2, 1), "an object keyword in a draft")
}

// H_C09_with: const and enum next to every other keyword.
func H_C09_with() {
	x := []interface{}{nil, num("c", "d"), "a", A{}, A{num("c", "d")}, M{"a": num("c", "d")}}[sym.Choose("x", 6)]
	s := M{"const": x}
	if sym.Choose("kw", 2) == 1 {
		s = M{"enum": A{true, x, "zz"}}
	}
	v := []interface{}{nil, num("v", "d"), "a", A{}, A{num("v", "d")}, M{"a": num("v", "d")}, true}[sym.Choose("v", 7)]
	agree(with("w", s), v, "const and enum next to another keyword")
}

// H_C09_special: const and enum of any odd value against any odd value.
func H_C09_special() {
	a, b := special("a"), special("b")
	if sym.Choose("kw", 2) == 0 {
		agree(M{"const": a}, b, "const of odd values")
	} else {
		agree(M{"enum": A{a}}, b, "enum of odd values")
	}
}

// H_C09_longtext: long values that differ in one free place (any of 200) are different.
func H_C09_longtext() {
	x, y := sym.Byte("x", "12"), sym.Byte("y", "12")
	const n = 200
	at := pick(sym.Int("at", 0, n-1), n)
	kind := sym.Choose("kind", 4)
	mk := func(c byte) interface{} {
		b := make([]byte, n)
		for k := range b {
			b[k] = '1'
		}
		b[at] = c
		switch kind {
		case 0:
			return string(b)
		case 1:
			return jsonNumber(b)
		case 2:
			return jsonNumber("0." + string(b))
		default:
			return M{"k": A{string(b[:20]), string(b[20:])}}
		}
	}
	kw, in := "const", mk(x)
	if sym.Choose("kw", 2) == 1 {
		kw, in = "enum", A{in}
	}
	got := run(compile(M{kw: in}), mk(y)).Valid()
	sym.Assert(got == (x == y), "long values are compared in full")
}

// H_C09_drafts: const (from draft 6) and enum in every draft.
func H_C09_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	s := M{"const": N("4")}
	if sym.Choose("kw", 2) == 1 {
		s = M{"enum": A{N("4"), "a", nil}}
	}
	agreeDraft(d, s, scalar("v"), "const and enum in a draft")
}

// H_C10_with: each combinator next to every other keyword.
func H_C10_with() {
	lo, hi := M{"minimum": num("lo", "d")}, M{"maximum": num("hi", "d")}
	s := []M{{"allOf": A{lo, hi}}, {"anyOf": A{lo, hi}}, {"oneOf": A{lo, hi}}, {"not": lo}, {"if": lo, "then": hi}, {"if": lo, "else": hi}, {"if": lo, "then": hi, "else": M{"multipleOf": N("2")}}, {"then": lo, "else": hi}}[sym.Choose("k", 8)]
	agree(with("w", s), num("v", "d"), "a combinator next to another keyword")
}

// H_C10_pairs: any two combinators next to each other, branches free.
func H_C10_pairs() {
	pool := func(p string) M {
		lo, hi := M{"minimum": num(p+"lo", "d")}, M{"maximum": num(p+"hi", "d")}
		return []M{{"allOf": A{lo, hi}}, {"anyOf": A{lo, hi}}, {"oneOf": A{lo, hi}}, {"not": lo}, {"if": lo, "then": hi}, {"if": lo, "else": hi}}[sym.Choose(p+"k", 6)]
	}
	a, b := pool("a"), pool("b")
	s := M{}
	for k, x := range a {
		s[k] = x
	}
	for k, x := range b {
		if _, taken := s[k]; taken {
			sym.Assume(false)
		}
		s[k] = x
	}
	agree(s, num("v", "d"), "two combinators")
}

// H_C10_special: combinators over odd values.
func H_C10_special() {
	x := []interface{}{M{"type": "string"}, M{"type": A{"null", "integer", "object"}}, M{"minLength": N("1"), "minItems": N("1"), "minProperties": N("1"), "minimum": N("0")}, M{}, M{"enum": A{nil, N("0"), "", A{}, M{}, false}}}[sym.Choose("x", 5)]
	y := []interface{}{M{"type": "null"}, M{"type": A{"number", "array"}}, M{}, M{"not": M{}}}[sym.Choose("y", 4)]
	s := []M{{"allOf": A{x, y}}, {"anyOf": A{x, y}}, {"oneOf": A{x, y}}, {"oneOf": A{y, x, x}}, {"not": x}, {"if": x, "then": y}, {"if": x, "else": y}, {"not": M{"anyOf": A{x, y}}}}[sym.Choose("k", 8)]
	agree(s, special("v"), "combinators over odd values")
}

// H_C10_deep: combinators, items and properties nested up to 40 levels.
func H_C10_deep() {
	n := []int{5, 12, 40}[sym.Choose("n", 3)]
	s, v := deep(n, M{"minimum": num("m", "d")}, num("v", "d"))
	agree(s, v, "deep nesting")
}

// H_C10_double: not nested up to 9 times, if in if, alternatives of one branch.
func H_C10_double() {
	var s interface{} = M{"minimum": num("m", "d")}
	n := 1 + sym.Choose("n", 9)
	kind := sym.Choose("kind", 5)
	for k := 0; k < n; k++ {
		switch kind {
		case 0:
			s = M{"not": s}
		case 1:
			s = M{"if": s, "then": M{"maximum": N(itoa(9 - k))}, "else": M{"multipleOf": N("3")}}
		case 2:
			s = M{"oneOf": A{s}}
		case 3:
			s = M{"anyOf": A{M{"const": N(itoa(k))}, s}}
		default:
			s = M{"oneOf": A{s, M{"const": N(itoa(k))}}}
		}
	}
	agree(s, num("v", "d"), "nested combinators")
}

// H_C10_counts: oneOf with 0 to 5 matching branches out of 5 at any positions; anyOf and allOf alike.
func H_C10_counts() {
	l := A{}
	for k := 0; k < 5; k++ {
		l = append(l, M{"minimum": N(itoa(2 * sym.Choose("m"+itoa(k), 2) * (k + 1)))})
	}
	agree(M{listKw[sym.Choose("kw", 3)]: l}, num("v", "d"), "the number of matching branches")
}

// H_C10_drafts: the combinators in every draft (if, then and else from draft 7).
func H_C10_drafts() {
	d := []int{4, 6, 7, 0}[sym.Choose("draft", 4)]
	lo, hi := M{"minimum": num("lo", "d")}, M{"maximum": num("hi", "d")}
	s := []M{{"allOf": A{lo, hi}}, {"anyOf": A{lo, hi}}, {"oneOf": A{lo, hi}}, {"not": lo}, {"if": lo, "then": hi, "else": M{"multipleOf": N("2")}}}[sym.Choose("k", 5)]
	agreeDraft(d, s, num("v", "d"), "a combinator in a draft")
}

// longNum is a number of 30 to 66 (thorough: 130) digits with a free digit at its end, with or without a
// fraction and an exponent that may cancel it.
func longNum(name string) jsonNumber {
	sizes := []int{30, 34, 66}
	if sym.Thorough() {
		sizes = []int{30, 34, 66, 130}
	}
	n := sizes[sym.Choose(name+".n", len(sizes))]
	z := strings.Repeat("0", n)
	switch sym.Choose(name+".shape", 6) {
	case 0:
		return num(name, "1"+z+"d")
	case 1:
		return num(name, "1"+z+".d")
	case 2:
		return num(name, "7."+z+"d")
	case 3:
		return num(name, "-1"+z+"d.5")
	case 4:
		return num(name, "2"+z+"de-1")
	default:
		return num(name, "1."+z+"de"+itoa(n))
	}
}

// H_C01_long: integrality of numbers of 30 to 66 (thorough: 130) digits.
func H_C01_long() {
	agree(M{"type": []interface{}{"integer", "number", A{"integer", "null"}}[sym.Choose("t", 3)]}, longNum("v"), "the type of a long number")
}

// H_C02_long: bounds and values of 30 to 400 digits that differ in their last digit.
func H_C02_long() {
	n := []int{30, 34, 66, 130, 400}[sym.Choose("n", 5)]
	z := strings.Repeat("0", n)
	shape := []string{"1" + z + "d", "7." + z + "d", "-1" + z + ".d", "1." + z + "de" + itoa(n)}[sym.Choose("shape", 4)]
	s, m := boundSchema(sym.Choose("k", 6), num("b", shape))
	agree(s, num("v", shape), m+" of a long number")
}

// H_C03_long: multiples of numbers of 30 to 66 (thorough: 130) digits.
func H_C03_long() {
	m := []string{"1", "2", "0.5", "5", "10"}[sym.Choose("m", 5)]
	agree(M{"multipleOf": N(m)}, longNum("v"), "multipleOf and a long number")
}

// H_C10_heavy: alternatives that fail in one place and hold in many others still fail.
func H_C10_heavy() {
	n := 1 + sym.Choose("n", 5)
	l := A{}
	props, req, v := M{}, A{}, M{}
	for k := 0; k < 12; k++ {
		props["p"+itoa(k)] = M{"type": "string", "minLength": N("1")}
		req = append(req, "p"+itoa(k))
		v["p"+itoa(k)] = "x"
	}
	for k := 0; k < n; k++ {
		l = append(l, M{"type": "object", "properties": props, "required": req, "patternProperties": M{"^z": M{"minimum": num("m"+itoa(k), "d")}}})
	}
	v["z"] = num("v", "d")
	agree(M{listKw[sym.Choose("kw", 3)]: l}, v, "alternatives that nearly hold")
}

// H_C10_heavyarray: the same over arrays.
func H_C10_heavyarray() {
	n := 1 + sym.Choose("n", 5)
	l, v := A{}, A{}
	for k := 0; k < 20; k++ {
		v = append(v, N("5"))
	}
	v[pick(sym.Int("at", 0, 19), 20)] = num("v", "d")
	for k := 0; k < n; k++ {
		l = append(l, M{"type": "array", "items": M{"type": "integer", "minimum": N(itoa(k + 1))}, "uniqueItems": false})
	}
	agree(M{listKw[sym.Choose("kw", 3)]: l}, v, "alternatives that nearly hold")
}
