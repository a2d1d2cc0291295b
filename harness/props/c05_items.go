package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// leaf is a small schema with a free parameter.
func leaf(name string) interface{} {
	switch sym.Choose(name+".leaf", 5) {
	case 0:
		return M{"type": "integer"}
	case 1:
		return M{"minimum": num(name+".min", "d")}
	case 2:
		return M{"enum": A{sym.Str(name+".e", 1, "a-cA"), nil}}
	case 3:
		return true
	default:
		return false
	}
}

// H_C05_single: "items" with one schema; arrays of 0..3 free scalars (thorough 4).
func H_C05_single() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	s := M{"items": leaf("s")}
	if sym.Choose("addl", 2) == 1 {
		s["additionalItems"] = false // has no effect next to a single schema
	}
	agree(s, arr("v", 1, n), "items")
}

// H_C05_tuple: "items" as a list of 1..2 schemas with "additionalItems" absent, true,
// false or a schema; arrays of 0..3 free scalars.
func H_C05_tuple() {
	l := A{leaf("s0")}
	if sym.Choose("two", 2) == 1 {
		l = append(l, M{"type": "string"})
	}
	s := M{"items": l}
	switch sym.Choose("addl", 4) {
	case 1:
		s["additionalItems"] = true
	case 2:
		s["additionalItems"] = false
	case 3:
		s["additionalItems"] = M{"maximum": num("a", "d")}
	}
	agree(s, arr("v", 1, 3), "items list")
}

// H_C05_lone: additionalItems without "items" has no effect.
func H_C05_lone() {
	var a interface{} = false
	if sym.Choose("k", 2) == 1 {
		a = M{"type": "string"}
	}
	agree(M{"additionalItems": a}, anyVal("v", 1, 2), "additionalItems alone")
}

// H_C05_contains: "contains" with every leaf schema; arrays of 0..3 free scalars.
func H_C05_contains() {
	s := M{"contains": leaf("s")}
	if sym.Choose("items", 2) == 1 {
		s["items"] = M{"type": A{"integer", "string"}}
	}
	agree(s, arr("v", 1, 3), "contains")
}

// H_C05_nested: arrays of arrays of up to 1 member (thorough: 2) at each level.
func H_C05_nested() {
	s := M{"items": M{"items": leaf("s"), "type": "array"}}
	if sym.Choose("k", 2) == 1 {
		s = M{"items": A{M{"contains": leaf("t")}, M{"items": A{leaf("u")}, "additionalItems": false}}}
	}
	w := 1
	if sym.Thorough() {
		w = 2
	}
	agree(s, A{arr("v0", 1, w), anyVal("v1", 1, w)}, "nested arrays")
}

// H_C05_long: arrays of 70 members, one of them (any position) a free digit that may
// break items, a list of 40 schemas, additionalItems after a list, or satisfy contains.
func H_C05_long() {
	const n = 70
	at := pick(sym.Int("at", 0, n-1), n)
	d := num("d", "d")
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, N("3"))
	}
	v[at] = d
	var s M
	want := false
	le5 := ref.Rat(d).Cmp(ref.Rat(N("5"))) <= 0
	switch sym.Choose("k", 4) {
	case 0:
		s = M{"items": M{"maximum": N("5")}}
		want = le5
	case 1:
		l := A{}
		for k := 0; k < 40; k++ {
			l = append(l, M{"maximum": N("5")})
		}
		s = M{"items": l}
		want = at >= 40 || le5
	case 2:
		l := A{M{}, M{}, M{}}
		s = M{"items": l, "additionalItems": M{"maximum": N("5")}}
		want = at < 3 || le5
	default:
		s = M{"contains": M{"minimum": N("6")}}
		want = !le5
	}
	got := run(compile(s), v).Valid()
	sym.Assert(got == want, "array keywords over a long array")
}

// H_C05_other: the array keywords ignore everything that is not an array; at any depth.
func H_C05_other() {
	s := []M{{"items": false}, {"items": A{false}, "additionalItems": false}, {"contains": false}}[sym.Choose("k", 3)]
	ws, wv := wrap("wrap", s, anyVal("v", 1, 1))
	agree(ws, wv, "array keywords below a parent")
}
