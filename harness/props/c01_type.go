package props

import "verifharness/sym"

var typeNames = []string{"array", "boolean", "integer", "null", "number", "object", "string"}

// numVal covers the spellings of numbers that matter to integrality.
func numVal(name string) interface{} {
	return oneNum(name, "d", "-d", "nd", "d.d", "-d.dd", "d.dddd", "de1", "nde-1", "n.de1", "n.dE+1", "n00e-2", "ndddddddddddddddddddd", "n.ddddddddddddddddddddd", "0.0", "-0", "1e400", "1e-400")
}

// H_C01_single: every type name x every instance (any scalar, number shapes up to 21
// digits and exponents, arrays and objects of up to 1 member), at the root.
func H_C01_single() {
	t := typeNames[sym.Choose("t", len(typeNames))]
	var v interface{}
	if sym.Choose("kind", 2) == 0 {
		v = anyVal("v", 1, 1)
	} else {
		v = numVal("v")
	}
	agree(M{"type": t}, v, "type "+t)
}

// H_C01_lists: every pair of type names in every order x every instance kind.
func H_C01_lists() {
	i := sym.Choose("t0", len(typeNames))
	j := sym.Choose("t1", len(typeNames))
	sym.Assume(i != j)
	v := sym.Choose("kind", 2)
	var x interface{}
	if v == 0 {
		x = anyVal("v", 1, 1)
	} else {
		x = oneNum("v", "d", "d.d", "nde-1")
	}
	agree(M{"type": A{typeNames[i], typeNames[j]}}, x, "type list")
}

// H_C01_nested: one type name below every kind of parent schema.
func H_C01_nested() {
	t := typeNames[sym.Choose("t", len(typeNames))]
	v := anyVal("v", 1, 1)
	if sym.Choose("num", 2) == 1 {
		v = oneNum("n", "d", "d.d", "de1")
	}
	s, x := wrap("wrap", M{"type": t}, v)
	agree(s, x, "type below a parent")
}

// H_C01_all: a list of six of the seven names rejects exactly the seventh (up to
// "number" including the integers).
func H_C01_all() {
	k := sym.Choose("skip", len(typeNames))
	l := A{}
	for i, n := range typeNames {
		if i != k {
			l = append(l, n)
		}
	}
	agree(M{"type": l}, anyVal("v", 1, 1), "six types")
}
