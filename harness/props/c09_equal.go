package props

import "verifharness/sym"

// H_C09_const: const over two arbitrary values of depth 1, both free.
func H_C09_const() {
	a := forced(anyVal("a", 1, 1))
	agree(M{"const": a}, anyVal("b", 1, 1), "const")
}

// forced resolves the lazy parts of a value (a schema is inspected at compile time).
func forced(v interface{}) interface{} {
	switch x := v.(type) {
	case A:
		for k := range x {
			x[k] = forced(x[k])
		}
		return x
	case M:
		for k := range x {
			x[k] = forced(x[k])
		}
		return x
	}
	return v
}

// H_C09_enum: enum lists of 1..3 values of all types; any instance of depth 1.
func H_C09_enum() {
	lists := []A{
		{nil}, {true, N("1")}, {"1", N("2"), nil}, {N("1.0"), "a", false}, {A{}, M{}}, {A{N("1")}, M{"a": N("1")}},
		{"a", "b"}, {N("0"), ""}, {M{"a": "b"}, A{"a"}, "a"}, {false, N("-1"), N("0.5")},
	}
	agree(M{"enum": lists[sym.Choose("l", len(lists))]}, anyVal("v", 1, 1), "enum")
}

// H_C09_numbers: enum and const compare numbers mathematically whatever their notation.
func H_C09_numbers() {
	a := oneNum("a", "d", "-d", "d.d", "de1", "-0.0", "900719925474099d", "ne400", "0.00d", "1e-30d")
	b := oneNum("b", "d", "-d.d", "n0", "0.d", "d.d0", "n00e-1", "900719925474099d", "n0e399", "de-3", "1e-30d")
	if sym.Choose("k", 2) == 0 {
		agree(M{"const": a}, b, "const number")
	} else {
		agree(M{"enum": A{"x", a}}, A{b}[0], "enum number")
	}
}

// H_C09_nested: numbers and members inside arrays and objects.
func H_C09_nested() {
	a := oneNum("a", "d", "d.0", "n0e-1")
	b := oneNum("b", "d", "d.d")
	var x, y interface{}
	switch sym.Choose("k", 4) {
	case 0:
		x, y = A{a, nil}, A{b, scalar("y")}
	case 1:
		x, y = M{"p": a, "q": A{true}}, M{"q": A{sym.Bool("t")}, "p": b}
	case 2:
		x, y = M{"p": M{"q": a}}, M{"p": M{sym.Str("key", 1, "p-r"): b}}
	default:
		x, y = A{A{a}}, A{anyVal("z", 1, 2)}
	}
	if sym.Choose("kw", 2) == 0 {
		agree(M{"const": x}, y, "const")
	} else {
		agree(M{"enum": A{x}}, y, "enum")
	}
}

// H_C09_text: strings compare byte for byte, whatever they contain, and never equal
// another type that prints alike.
func H_C09_text() {
	a := strOf("a", 2, "\"\\<1&a\n")
	var b interface{}
	switch sym.Choose("k", 3) {
	case 0:
		b = strOf("b", 2, "\"\\<1&a\n")
	case 1:
		b = num("n", "n")
	default:
		b = uni("u", 1)
	}
	if sym.Choose("kw", 2) == 0 {
		agree(M{"const": a}, b, "const text")
	} else {
		agree(M{"enum": A{a}}, b, "enum text")
	}
}

// H_C09_unicode: two strings of one code point of any width.
func H_C09_unicode() {
	agree(M{"const": uni("a", 1)}, uni("b", 1), "const text")
}

// H_C09_many: a 50-value enum accepts each of its values and nothing else.
func H_C09_many() {
	l := A{}
	for k := 0; k < 50; k++ {
		l = append(l, N(itoa(100+2*k)))
	}
	v := num("v", "ndd")
	agree(M{"enum": l}, v, "long enum")
}

// H_C09_siblings: enum and const next to other keywords; below every parent.
func H_C09_siblings() {
	s := M{"enum": A{N("1"), "a", A{}, nil}}
	switch sym.Choose("k", 3) {
	case 1:
		s["const"] = forced(scalar("c"))
	case 2:
		s["type"] = A{"string", "null"}
	}
	ws, wv := wrap("wrap", s, anyVal("v", 1, 1))
	agree(ws, wv, "enum below a parent")
}
