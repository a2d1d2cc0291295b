package props

import "verifharness/sym"

// H_C06_size: minItems/maxItems any digit or fitting pair; arrays of 0..4 members.
func H_C06_size() {
	s := M{}
	switch sym.Choose("k", 3) {
	case 0:
		s["minItems"] = num("min", "d")
	case 1:
		s["maxItems"] = num("max", "d")
	default:
		s["minItems"], s["maxItems"] = num("min2", "d"), num("max2", "d")
	}
	n := sym.Choose("n", 5)
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, nil)
	}
	agree(s, v, "array size")
}

// H_C06_sizelong: arrays of 63..65, 255..257 and 1000 members against neighbouring limits.
func H_C06_sizelong() {
	n := []int{63, 64, 65, 255, 256, 257, 1000}[sym.Choose("n", 7)]
	d := sym.Choose("d", 3) - 1
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, true)
	}
	if sym.Choose("k", 2) == 0 {
		sym.Assert(run(compile(M{"minItems": N(itoa(n + d))}), v).Valid() == (d <= 0), "minItems of a long array")
	} else {
		sym.Assert(run(compile(M{"maxItems": N(itoa(n + d))}), v).Valid() == (d >= 0), "maxItems of a long array")
	}
}

// H_C06_unique2: uniqueItems over two arbitrary values (scalars, arrays and objects of up
// to 1 member, thorough 2).
func H_C06_unique2() {
	w := 1
	if sym.Thorough() {
		w = 2
	}
	v := A{anyVal("a", 1, w), anyVal("b", 1, w)}
	agree(M{"uniqueItems": true}, v, "uniqueItems")
}

// H_C06_unique3: three scalars; uniqueItems false accepts everything.
func H_C06_unique3() {
	u := sym.Choose("u", 2) == 0
	agree(M{"uniqueItems": u}, A{scalar("a"), scalar("b"), scalar("c")}, "uniqueItems")
}

// H_C06_uniquenum: pairs of numbers in different notation, including -0, integers beyond
// 2^53 and exponents: equal exactly if mathematically equal.
func H_C06_uniquenum() {
	a := oneNum("a", "d", "-d", "d.d", "de1", "nde-1", "d.0", "-0.0", "900719925474099d", "ne400", "0.00d")
	b := oneNum("b", "d", "-d.d", "n0", "0.d", "d.d0", "n00e-1", "900719925474099d", "ne400", "n0e399", "de-3")
	agree(M{"uniqueItems": true}, A{a, b}, "uniqueItems with numbers")
}

// H_C06_uniquetext: strings against other types that print alike, and strings whose
// joining would collide.
func H_C06_uniquetext() {
	s := strOf("s", 3, "\"\\,<1[]")
	var o interface{}
	switch sym.Choose("k", 5) {
	case 0:
		o = strOf("t", 3, "\"\\,<1[]")
	case 1:
		o = num("n", "n")
	case 2:
		o = A{sym.Str("u", 1, "\"\\,<1[]")}
	case 3:
		s, o = "true", sym.Bool("b")
	default:
		s, o = "null", nil
	}
	agree(M{"uniqueItems": true}, A{s, o}, "uniqueItems with text")
}

// H_C06_uniquelong: 24 distinct numbers, of which any two positions are made equal or not.
func H_C06_uniquelong() {
	const n = 24
	i := pick(sym.Int("i", 0, n-1), n)
	j := pick(sym.Int("j", 0, n-1), n)
	sym.Assume(i < j)
	v := A{}
	for k := 0; k < n; k++ {
		v = append(v, M{"id": N(itoa(100 + k))})
	}
	x, y := num("x", "d"), num("y", "d")
	v[i], v[j] = M{"id": x}, M{"id": y}
	got := run(compile(M{"uniqueItems": true}), v).Valid()
	sym.Assert(got == (x != y), "uniqueItems over a long array")
}

// H_C06_objects: objects that differ only in the order of their members are equal.
func H_C06_objects() {
	a, b, c, d := num("a", "d"), num("b", "d"), num("c", "d"), num("d", "d")
	v := A{M{"x": a, "y": b}, M{"y": c, "x": d}}
	if sym.Choose("k", 2) == 1 {
		v = A{A{M{"x": a, "y": A{b}}}, A{M{"y": A{c}, "x": d}}}
	}
	agree(M{"uniqueItems": true}, v, "uniqueItems with objects")
}

// H_C06_other: the keywords ignore everything that is not an array; at any depth.
func H_C06_other() {
	s := []M{{"minItems": N("1")}, {"maxItems": N("0")}, {"uniqueItems": true, "minItems": N("2")}}[sym.Choose("k", 3)]
	ws, wv := wrap("wrap", s, anyVal("v", 1, 2))
	agree(ws, wv, "array size below a parent")
}
