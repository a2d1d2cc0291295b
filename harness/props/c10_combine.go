package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// branchSchema is a subschema that splits the small integers at a free digit, or a
// constant or type test.
func branchSchema(name string) interface{} {
	switch sym.Choose(name+".br", 5) {
	case 0:
		return M{"minimum": num(name+".min", "d")}
	case 1:
		return M{"maximum": num(name+".max", "d")}
	case 2:
		return sym.Choose(name+".b", 2) == 1
	case 3:
		return M{"type": "string"}
	default:
		return M{"not": M{"const": num(name+".c", "d")}}
	}
}

func instDigit() interface{} {
	return sym.Lazy(func() interface{} {
		if sym.Choose("v.str", 2) == 1 {
			return "s"
		}
		return num("v", "d")
	})
}

var listKw = []string{"allOf", "anyOf", "oneOf"}

// H_C10_lists: allOf, anyOf, oneOf of 1..3 free branches; instances are any digit or a string.
func H_C10_lists() {
	kw := listKw[sym.Choose("kw", 3)]
	n := 1 + sym.Choose("n", 3)
	l := A{}
	for k := 0; k < n; k++ {
		if k < 2 || sym.Thorough() {
			l = append(l, branchSchema("s"+itoa(k)))
		} else {
			l = append(l, M{"minimum": num("s2.min", "d")})
		}
	}
	agree(M{kw: l}, instDigit(), kw)
}

// H_C10_not: negation, also doubled and around each list keyword.
func H_C10_not() {
	var in interface{} = branchSchema("s")
	switch sym.Choose("k", 4) {
	case 1:
		in = M{"not": in}
	case 2:
		in = M{listKw[sym.Choose("kw", 3)]: A{in, branchSchema("t")}}
	case 3:
		in = M{"properties": M{"a": in}}
	}
	agree(M{"not": in}, instDigit(), "not")
}

// H_C10_cond: every combination of if, then and else with free branches.
func H_C10_cond() {
	s := M{}
	k := sym.Choose("k", 8)
	if k&1 != 0 {
		s["if"] = branchSchema("i")
	}
	if k&2 != 0 {
		s["then"] = branchSchema("t")
	}
	if k&4 != 0 {
		s["else"] = branchSchema("e")
	}
	agree(s, instDigit(), "if/then/else")
}

// H_C10_mixed: several combinators in one schema, next to plain keywords.
func H_C10_mixed() {
	s := M{}
	if sym.Choose("a", 2) == 1 {
		s["allOf"] = A{M{"minimum": num("a0", "d")}, M{"maximum": num("a1", "d")}}
	}
	if sym.Choose("y", 2) == 1 {
		s["anyOf"] = A{M{"minimum": num("y0", "d")}, M{"maximum": num("y1", "d")}}
	}
	if sym.Choose("o", 2) == 1 {
		s["oneOf"] = A{M{"minimum": num("o0", "d")}, M{"maximum": num("o1", "d")}}
	}
	if sym.Choose("n", 2) == 1 {
		s["not"] = M{"const": num("n0", "d")}
	}
	if sym.Choose("i", 2) == 1 {
		s["if"] = M{"minimum": num("i0", "d")}
		s["then"] = M{"multipleOf": N("2")}
		s["else"] = M{"multipleOf": N("3")}
	}
	if sym.Choose("p", 2) == 1 {
		s["type"] = "number"
	}
	agree(s, num("v", "d"), "combinators together")
}

// H_C10_nested: combinators inside combinators (two levels).
func H_C10_nested() {
	a := M{"minimum": num("a", "d")}
	b := M{"maximum": num("b", "d")}
	c := M{"const": num("c", "d")}
	in := M{listKw[sym.Choose("k1", 3)]: A{a, b}}
	if sym.Choose("neg", 2) == 1 {
		in = M{"not": in}
	}
	agree(M{listKw[sym.Choose("k0", 3)]: A{in, c}}, num("v", "d"), "nested combinators")
}

// H_C10_long: lists of 30 branches of which the ones at two free positions match.
func H_C10_long() {
	const n = 30
	i := pick(sym.Int("i", 0, n-1), n)
	j := pick(sym.Int("j", 0, n-1), n)
	kw := listKw[sym.Choose("kw", 3)]
	good := sym.Bool("good") // the branches at i and j match, the others do not; or the reverse for allOf
	l := A{}
	for k := 0; k < n; k++ {
		hit := k == i || k == j
		if kw == "allOf" {
			l = append(l, M{"const": pickNum(hit && !good)})
		} else {
			l = append(l, M{"const": pickNum(!(hit && good))})
		}
	}
	got := run(compile(M{kw: l}), N("1")).Valid()
	want := good
	if kw == "oneOf" {
		want = good && i == j
	}
	sym.Assert(got == want, kw+" over a long list")
}

func pickNum(two bool) jsonNumber {
	if two {
		return N("2")
	}
	return N("1")
}

// H_C10_objects: combinators over objects: branches constrain members.
func H_C10_objects() {
	kw := listKw[sym.Choose("kw", 3)]
	s := M{kw: A{M{"required": A{sym.Str("r", 1, "a-cA")}}, M{"properties": M{"b": M{"type": "integer"}}}, M{"maxProperties": N("1")}}}
	agree(s, objKeys("v", 2, 1), kw+" over objects")
}

// H_C10_null: combinators, if/then/else and boolean schemas also constrain null, booleans,
// strings, arrays and objects.
func H_C10_null() {
	x := M{"type": typeNames[sym.Choose("t", len(typeNames))]}
	var s M
	switch sym.Choose("k", 6) {
	case 0:
		s = M{"allOf": A{x}}
	case 1:
		s = M{"anyOf": A{x, false}}
	case 2:
		s = M{"oneOf": A{x, M{"type": "null"}}}
	case 3:
		s = M{"not": x}
	case 4:
		s = M{"if": x, "then": false}
	default:
		s = M{"if": x, "else": false}
	}
	agree(s, anyVal("v", 1, 1), "combinators over every type")
}

// H_C10_bool: true accepts and false rejects every instance at every place of a subschema.
func H_C10_bool() {
	b := sym.Choose("b", 2) == 1
	s, v := wrap("wrap", b, anyVal("v", 1, 1))
	got := run(compile(s), v).Valid()
	sym.Assert(got == b, "boolean schema")
	_ = ref.Valid
}
