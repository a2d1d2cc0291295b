package props

import (
	"verifharness/sym"
)

func boundSchema(k int, b interface{}) (M, string) {
	switch k {
	case 0:
		return M{"minimum": b}, "minimum"
	case 1:
		return M{"maximum": b}, "maximum"
	case 2:
		return M{"exclusiveMinimum": b}, "exclusiveMinimum"
	case 3:
		return M{"exclusiveMaximum": b}, "exclusiveMaximum"
	case 4:
		return M{"minimum": b, "exclusiveMinimum": true}, "minimum with exclusiveMinimum:true"
	case 5:
		return M{"maximum": b, "exclusiveMaximum": true}, "maximum with exclusiveMaximum:true"
	case 6:
		return M{"minimum": b, "exclusiveMinimum": false}, "minimum with exclusiveMinimum:false"
	default:
		return M{"maximum": b, "exclusiveMaximum": false}, "maximum with exclusiveMaximum:false"
	}
}

// H_C02_small: each bound keyword and boolean exclusive form; bound and value range
// over all numbers of the shapes d -d nd d.d -d.d d.dd de1 de-1 (d any digit).
func H_C02_small() {
	s, n := boundSchema(sym.Choose("k", 8), oneNum("b", "d", "-d", "d.d", "de1", "de-1"))
	v := oneNum("v", "d", "-d", "nd", "d.d", "-d.d", "d.dd", "de-1")
	agree(s, v, n)
}

// H_C02_big: bound and value are integers and decimals of 16 to 30 digits that differ
// beyond the precision of float64, around 2^53, 2^63 and 2^64, with 1 or 2 free digits
// each, plus exponents up to 400.
func H_C02_big() {
	sh := []string{"900719925474099d", "-900719925474099d", "92233720368547758d7", "1844674407370955161d", "12345678901234567890123456789d",
		"0.1234567890123456789d", "-1.000000000000000000d", "100000000000000000000.d", "1.000000000000000000de20", "n.0e308", "ne400", "-ne400", "ne-400"}
	c := sym.Choose("shape", len(sh))
	s, n := boundSchema(sym.Choose("k", 6), num("b", sh[c]))
	agree(s, num("v", sh[c]), n+" with many digits")
}

// H_C02_int64: fully symbolic 19-digit integers against a fully symbolic 19-digit bound.
func H_C02_int64() {
	s, n := boundSchema(sym.Choose("k", 6), num("b", "ndddddddddddddddddd"))
	agree(s, num("v", "ndddddddddddddddddd"), n+" of 19 digits")
}

// H_C02_pair: two or three bound keywords in one schema, all bounds and the value free digits.
func H_C02_pair() {
	b1, b2, b3 := num("b1", "d"), num("b2", "d"), num("b3", "d")
	v := oneNum("v", "d", "d.d")
	var s M
	switch sym.Choose("k", 6) {
	case 0:
		s = M{"minimum": b1, "maximum": b2}
	case 1:
		s = M{"exclusiveMinimum": b1, "exclusiveMaximum": b2}
	case 2:
		s = M{"minimum": b1, "exclusiveMinimum": b2}
	case 3:
		s = M{"maximum": b1, "exclusiveMaximum": b2}
	case 4:
		s = M{"minimum": b1, "exclusiveMinimum": true, "maximum": b2, "exclusiveMaximum": sym.Bool("x")}
	default:
		s = M{"minimum": b1, "exclusiveMinimum": b2, "maximum": b3}
	}
	agree(s, v, "several bounds")
}

// H_C02_drafts: the numeric exclusive forms in drafts 6 and 7, the boolean ones in draft 4.
func H_C02_drafts() {
	d := []int{4, 6, 7}[sym.Choose("draft", 3)]
	k := sym.Choose("k", 4)
	if d == 4 && k >= 2 {
		k += 2
	}
	s, n := boundSchema(k, oneNum("b", "d", "-d.d"))
	agreeDraft(d, s, oneNum("v", "d", "-d", "d.d"), n)
}

// H_C02_other: bounds say nothing about values that are not numbers; at any depth.
func H_C02_other() {
	s, n := boundSchema(sym.Choose("k", 8), num("b", "d"))
	v := anyVal("v", 1, 1)
	ws, wv := wrap("wrap", s, v)
	agree(ws, wv, n+" below a parent")
}
