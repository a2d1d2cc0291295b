package props

import (
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// alone is what a schema reports about a value by itself.
func alone(s, v interface{}) []string { return errorKeys(run(compile(s), v)) }

// ownKey is the key of an error at the root without details.
func ownKey(r *gjs.Result, typ string) []string {
	var out []string
	for _, e := range r.Errors() {
		if e.Type() == typ && e.Context().String() == "(root)" {
			out = append(out, e.Context().String()+"|"+e.Type()+"|"+subjectOf(e)+"|"+e.Description())
		}
	}
	return out
}

// explained asserts that the errors are one of the given type and exactly the given others.
func explained(r *gjs.Result, typ string, rest []string, msg string) {
	own := ownKey(r, typ)
	n := 0
	for _, k := range rest {
		if len(own) > 0 && k == own[0] {
			n++
		}
	}
	sym.Assert(len(own) == n+1, msg+": the failure itself is reported once")
	if len(own) == 0 {
		return
	}
	sym.Assert(sameKeys(errorKeys(r), append([]string{own[0]}, rest...)), msg+": the rest is exactly the explanation")
}

// limit is one of a few numbers: the texts of errors show limits, so they are concrete.
func limit(name string, of ...string) jsonNumber { return N(of[sym.Choose(name, len(of))]) }

// closest asserts the outcome of anyOf or oneOf over the branches.
func closest(kw string, branches A, v interface{}, ranked bool) {
	r := run(compile(M{kw: branches}), v)
	var each [][]string
	matches, best := 0, 0
	for _, b := range branches {
		k := alone(b, v)
		if len(k) == 0 {
			matches++
		}
		each = append(each, k)
		if len(k) < len(each[best]) {
			best = len(each) - 1
		}
	}
	typ := "number_any_of"
	if kw == "oneOf" {
		typ = "number_one_of"
	}
	switch {
	case matches == 1 || matches > 1 && kw == "anyOf":
		sym.Cover("matched")
		sym.Assert(r.Valid() && len(r.Errors()) == 0, "a matched alternative leaves no errors")
	case matches > 1:
		sym.Cover("ambiguous")
		explained(r, typ, nil, "too many matches")
	case ranked:
		sym.Cover("failed")
		explained(r, typ, each[best], "the closest alternative")
	default:
		ok := false
		for _, k := range each {
			own := ownKey(r, typ)
			if len(own) > 0 && sameKeys(errorKeys(r), append([]string{own[0]}, k...)) {
				ok = true
			}
		}
		sym.Assert(ok, "the errors of exactly one alternative explain the failure")
	}
}

func alternative() string { return []string{"anyOf", "oneOf"}[sym.Choose("kw", 2)] }

// H_C28_number: two or three alternatives with the same number keywords, limits out of a few and the
// instance a free digit: the errors shown are those of the first with the fewest failures.
func H_C28_number() {
	kw := alternative()
	n := 2 + sym.Choose("n", 2)
	var bs A
	for k := 0; k < n; k++ {
		bs = append(bs, M{"minimum": limit("lo"+itoa(k), "2", "5", "8"), "exclusiveMaximum": limit("hi"+itoa(k), "3", "7")})
	}
	closest(kw, bs, num("v", "d"), true)
}

// H_C28_required: three alternatives that each require 3 names out of a to d, the instance has
// any 0 to 2 of them.
func H_C28_required() {
	kw := alternative()
	lists := []A{{"a", "b", "c"}, {"b", "c", "d"}, {"c", "d", "a"}, {"e", "f", "a"}}
	n := 2 + sym.Choose("n", 2)
	var bs A
	for k := 0; k < n; k++ {
		bs = append(bs, M{"required": lists[sym.Choose("l"+itoa(k), 4)]})
	}
	v := M{}
	for k, m := 0, sym.Choose("m", 3); k < m; k++ {
		v[sym.Str("k"+itoa(k), 1, "a-f")] = nil
	}
	closest(kw, bs, v, true)
}

// H_C28_string: alternatives of string keywords, strings of up to 3 free letters.
func H_C28_string() {
	kw := alternative()
	var bs A
	for k := 0; k < 2; k++ {
		bs = append(bs, M{"minLength": limit("lo"+itoa(k), "1", "3"), "pattern": []string{"^a", "b$"}[sym.Choose("p"+itoa(k), 2)], "enum": A{sym.Str("e"+itoa(k), 1, "ab"), "ab"}})
	}
	closest(kw, bs, strOf("v", 3, "ab"), true)
}

// H_C28_nested: alternatives whose failures lie in members and items.
func H_C28_nested() {
	kw := alternative()
	var bs A
	for k := 0; k < 2; k++ {
		lim := M{"maximum": limit("hi"+itoa(k), "1", "4", "8")}
		bs = append(bs, M{"properties": M{"p": lim, "q": M{"items": lim}}})
	}
	closest(kw, bs, M{"p": num("p", "d"), "q": A{num("q", "d"), num("r", "d")}}, true)
}

// H_C28_types: among an alternative of another type and one of the right type with one failure
// in its members, the latter explains.
func H_C28_types() {
	kw := alternative()
	lo := limit("lo", "0", "5")
	v := num("v", "d")
	var in interface{}
	var right M
	if sym.Choose("what", 2) == 0 {
		in, right = M{"p": v}, M{"type": "object", "properties": M{"p": M{"minimum": lo}}}
	} else {
		in, right = A{v}, M{"type": "array", "items": M{"minimum": lo}}
	}
	wrong := M{"type": []string{"string", "null", "integer"}[sym.Choose("wrong", 3)]}
	bs := A{wrong, right}
	if sym.Choose("order", 2) == 1 {
		bs = A{right, wrong}
	}
	r := run(compile(M{kw: bs}), in)
	rest := alone(right, in)
	if len(rest) == 0 {
		sym.Assert(r.Valid(), "a matched alternative leaves no errors")
		return
	}
	if kw == "anyOf" {
		explained(r, "number_any_of", rest, "the alternative of the right type")
	} else {
		explained(r, "number_one_of", rest, "the alternative of the right type")
	}
}

// H_C28_mixed: alternatives of unlike shapes: exactly one of them explains, in full.
func H_C28_mixed() {
	kw := alternative()
	shapes := A{M{"type": "null"}, M{"minimum": N("7"), "multipleOf": N("2")}, M{"type": A{"string", "object"}, "maxProperties": N("0")},
		M{"not": M{}}, M{"allOf": A{M{"required": A{"x", "y"}}, M{"minLength": N("2")}}}, false, M{"items": M{"type": "string"}}, M{"enum": A{"z"}, "const": "y"}}
	var bs A
	for k := 0; k < 2; k++ {
		bs = append(bs, shapes[sym.Choose("s"+itoa(k), len(shapes))])
	}
	closest(kw, bs, anyVal("v", 1, 2), false)
}

// H_C28_contains: the element with the fewest failures explains a failed contains, at its index.
func H_C28_contains() {
	s := M{"minimum": limit("lo", "2", "6"), "multipleOf": limit("m", "2", "3"), "maximum": limit("hi", "5", "7")}
	n := sym.Choose("n", 4)
	v := A{}
	best := -1
	var each []string
	match := false
	for k := 0; k < n; k++ {
		e := num("v"+itoa(k), "d")
		v = append(v, e)
	}
	for k := 0; k < n; k++ {
		// the same element at the same index, and nothing to say about the others
		items := A{}
		for j := 0; j < k; j++ {
			items = append(items, true)
		}
		x := alone(M{"items": append(items, s)}, v)
		if len(x) == 0 {
			match = true
		}
		if best < 0 || len(x) < len(each) {
			best, each = k, x
		}
	}
	r := run(compile(M{"contains": s}), v)
	if match {
		sym.Assert(r.Valid() && len(r.Errors()) == 0, "a contained element leaves no errors")
		return
	}
	explained(r, "contains", each, "contains")
}

// H_C28_all: allOf shows the errors of every failing part; parts that hold add none.
func H_C28_all() {
	n := 1 + sym.Choose("n", 3)
	v := num("v", "d")
	var bs A
	var rest []string
	for k := 0; k < n; k++ {
		b := M{"minimum": limit("lo"+itoa(k), "1", "4", "6")}
		if sym.Choose("kind"+itoa(k), 2) == 1 {
			b = M{"allOf": A{b}}
		}
		bs = append(bs, b)
		rest = append(rest, alone(b, v)...)
	}
	r := run(compile(M{"allOf": bs}), v)
	if len(rest) == 0 {
		sym.Assert(r.Valid() && len(r.Errors()) == 0, "nothing failed")
		return
	}
	got := errorKeys(r)
	own := "(root)|number_all_of||Must validate all the schemas (allOf)"
	n1 := 0
	for _, k := range got {
		if k == own {
			n1++
		}
	}
	sym.Assert(sameKeys(got, append([]string{own}, rest...)), "allOf shows the errors of every failing part and its own")
	sym.Assert(n1 > 0, "allOf shows its own error")
}

// H_C28_cond: not and if leak nothing; then and else show their own error and their parts'.
func H_C28_cond() {
	v := num("v", "d")
	a, b, c := M{"minimum": limit("a", "1", "5"), "multipleOf": N("3")}, M{"maximum": limit("b", "3", "6"), "minimum": N("4")}, M{"multipleOf": limit("c", "1", "4", "7")}
	s := M{}
	switch sym.Choose("kw", 3) {
	case 0:
		r := run(compile(M{"not": a}), v)
		if len(alone(a, v)) > 0 {
			sym.Assert(len(r.Errors()) == 0, "a failed not leaves nothing")
			return
		}
		explained(r, "number_not", nil, "not")
		return
	case 1:
		s = M{"if": a, "then": b}
	default:
		s = M{"if": a, "then": b, "else": c}
	}
	r := run(compile(s), v)
	_, hasElse := s["else"]
	switch {
	case len(alone(a, v)) == 0:
		if x := alone(b, v); len(x) > 0 {
			explained(r, "condition_then", x, "then")
			return
		}
	case hasElse:
		if x := alone(c, v); len(x) > 0 {
			explained(r, "condition_else", x, "else")
			return
		}
	}
	sym.Assert(len(r.Errors()) == 0, "a condition that holds leaves nothing")
}

// H_C28_names: a wrong name shows the name and the errors of the name, a right one nothing; a
// schema dependency that applies shows the errors of its schema and nothing else.
func H_C28_names() {
	x, y := sym.Str("x", 1, "abA"), "a"+sym.Str("y", 1, "bc")
	v := M{x: nil, y: nil}
	if sym.Choose("kw", 2) == 0 {
		s := M{"pattern": []string{"^a", "c$"}[sym.Choose("p", 2)], "minLength": N("2")}
		r := run(compile(M{"propertyNames": s}), v)
		var want []string
		for _, k := range []string{x, y} {
			e := alone(s, k)
			if len(e) > 0 {
				want = append(want, "(root)|invalid_property_name|"+k+"|Property name of \""+k+"\" does not match")
				want = append(want, e...)
			}
		}
		sym.Assert(sameKeys(errorKeys(r), want), "propertyNames shows each wrong name and why it is wrong")
		return
	}
	dep := M{"required": A{"z"}, "maxProperties": N("1")}
	on := sym.Str("on", 1, "abA")
	r := run(compile(M{"dependencies": M{on: dep}}), v)
	var want []string
	if on == x {
		want = alone(dep, v)
	}
	sym.Assert(sameKeys(errorKeys(r), want), "a dependency shows the errors of its schema")
}

// H_C28_deep: an alternative of alternatives: explanations are themselves explained.
func H_C28_deep() {
	v := num("v", "d")
	in := M{"anyOf": A{M{"minimum": limit("a", "2", "5", "8")}, M{"maximum": limit("b", "1", "3", "6")}}}
	switch sym.Choose("out", 4) {
	case 0:
		closest("anyOf", A{in, false}, v, false)
	case 1:
		closest("oneOf", A{M{"type": "null"}, in}, v, false)
	case 2:
		if x := alone(in, v); len(x) > 0 {
			explained(run(compile(M{"if": true, "then": in}), v), "condition_then", x, "then")
		}
	default:
		if x := alone(in, v); len(x) == 0 {
			sym.Assert(run(compile(M{"allOf": A{in}, "oneOf": A{in, false}}), v).Valid(), "nothing failed")
		}
	}
}
