package props

import "verifharness/sym"

// H_C03_small: divisor shapes n nd n.d 0.n 0.0n ne-1 ne1, value shapes up to 3 digits
// with fraction, sign and exponent; all digits free.
func H_C03_small() {
	m := oneNum("m", "n", "nd", "n.d", "0.n", "0.0n", "ne-1", "ne1")
	v := oneNum("v", "d", "-d", "ndd", "d.d", "-d.d", "d.dd", "nde-1", "de1")
	agree(M{"multipleOf": m}, v, "multipleOf")
}

// H_C03_fixed: customary divisors; values of up to 6 free digits.
func H_C03_fixed() {
	m := []string{"1", "2", "3", "7", "10", "100", "0.1", "0.01", "0.001", "1e-3", "0.5", "0.25", "1.1", "1e2", "12.5"}[sym.Choose("m", 15)]
	v := oneNum("v", "nddddd", "-nddd", "nddd.dd", "d.ddd")
	agree(M{"multipleOf": N(m)}, v, "multipleOf "+m)
}

// H_C03_big: values of 17 to 25 digits and divisors that float64 arithmetic rounds.
func H_C03_big() {
	type c struct{ m, v string }
	cs := []c{{"0.1", "0.3d"}, {"0.01", "19.9d"}, {"0.01", "4.3d"}, {"0.0001", "0.007d"}, {"2", "900719925474099d"}, {"3", "900719925474099d"}, {"10", "1844674407370955161d"},
		{"7", "12345678901234567890123d"}, {"0.1", "9007199254740993.d"}, {"1e-8", "123456789.1234567d"}, {"1e-8", "1.123456789d"}, {"1e-20", "0.1234567890123456789d"},
		{"9007199254740993", "900719925474099d"}, {"1e30", "ne3d"}, {"0.000001", "nd.0000001e1"}, {"3", "ne20"}, {"1", "n.de300"}}
	x := cs[sym.Choose("c", len(cs))]
	agree(M{"multipleOf": N(x.m)}, num("v", x.v), "multipleOf "+x.m+" with many digits")
}

// H_C03_other: multipleOf ignores values that are not numbers and holds below any parent.
func H_C03_other() {
	s, v := wrap("wrap", M{"multipleOf": num("m", "n")}, anyVal("v", 1, 1))
	agree(s, v, "multipleOf below a parent")
}

// H_C03_with: multipleOf next to bounds and "type":"integer".
func H_C03_with() {
	s := M{"multipleOf": num("m", "n"), "minimum": num("b", "d")}
	switch sym.Choose("k", 3) {
	case 1:
		s = M{"multipleOf": N("0.5"), "type": "integer"}
	case 2:
		s = M{"multipleOf": num("m2", "n"), "exclusiveMaximum": num("b2", "d"), "type": "number"}
	}
	agree(s, oneNum("v", "d", "d.d", "-d"), "multipleOf with other keywords")
}
