package props

import "verifharness/sym"

// H_C08_required: 1..2 required names that are any letters a-c; objects of up to 2 (thorough 3) members.
func H_C08_required() {
	l := A{sym.Str("r0", 1, "a-cA")}
	if sym.Choose("two", 2) == 1 {
		r1 := sym.Str("r1", 1, "a-cA")
		sym.Assume(r1 != l[0].(string))
		l = append(l, r1)
	}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	s := M{"required": l}
	if sym.Choose("props", 2) == 1 {
		s["properties"] = M{"a": M{"type": "null"}}
	}
	agree(s, objKeys("v", n, 1), "required")
}

// H_C08_size: minProperties/maxProperties any digit or pair; objects of up to 3 members.
func H_C08_size() {
	s := M{}
	switch sym.Choose("k", 3) {
	case 0:
		s["minProperties"] = num("min", "d")
	case 1:
		s["maxProperties"] = num("max", "d")
	default:
		s["minProperties"], s["maxProperties"] = N("1"), num("max2", "n")
	}
	o := M{}
	n := sym.Choose("n", 4)
	for k := 0; k < n; k++ {
		o[sym.Str("k"+itoa(k), 1, "a-cA")] = nil
	}
	agree(s, o, "object size")
}

// H_C08_names: propertyNames with length, pattern, enum, format-free and boolean schemas;
// names of 1..2 letters.
func H_C08_names() {
	var pn interface{}
	switch sym.Choose("k", 6) {
	case 0:
		pn = M{"maxLength": num("max", "d")}
	case 1:
		pn = M{"pattern": "^a|b$"}
	case 2:
		pn = M{"enum": A{"a", "bc"}}
	case 3:
		pn = sym.Choose("b", 2) == 1
	case 4:
		pn = M{"not": M{"const": sym.Str("c", 1, "a-cA")}}
	default:
		pn = M{"type": "string", "minLength": N("2")}
	}
	agree(M{"propertyNames": pn}, objKeys("v", 2, 2), "propertyNames")
}

// H_C08_depnames: dependencies on names, any trigger and requirement out of a-c.
func H_C08_depnames() {
	s := M{"dependencies": M{sym.Str("t0", 1, "a-cA"): A{sym.Str("d0", 1, "a-cA")}}}
	if sym.Choose("two", 2) == 1 {
		s["dependencies"] = M{"a": A{"b", "c"}, "b": A{"a"}, "c": A{}}
	}
	agree(s, objKeys("v", 2, 1), "dependencies on names")
}

// H_C08_depschema: dependencies on schemas and booleans.
func H_C08_depschema() {
	var d interface{}
	switch sym.Choose("k", 5) {
	case 0:
		d = M{"required": A{sym.Str("r", 1, "a-cA")}}
	case 1:
		d = M{"properties": M{"b": M{"type": "integer"}}, "minProperties": N("2")}
	case 2:
		d = false
	case 3:
		d = true
	default:
		d = M{"maxProperties": num("m", "d")}
	}
	s := M{"dependencies": M{"a": d, "c": A{"a"}}}
	agree(s, objKeys("v", 2, 1), "dependencies on schemas")
}

// H_C08_many: 40 required names and 40 dependencies, one of them (any position) unmet.
func H_C08_many() {
	const n = 40
	at := pick(sym.Int("at", 0, n-1), n)
	drop := sym.Bool("drop")
	req, dep, v := A{}, M{}, M{"trigger": nil}
	for k := 0; k < n; k++ {
		req = append(req, "p"+itoa(k))
		dep["t"+itoa(k)] = A{"p" + itoa(k)}
		v["p"+itoa(k)] = true
		v["t"+itoa(k)] = true
	}
	if drop {
		delete(v, "p"+itoa(at))
	}
	s := []M{{"required": req}, {"dependencies": dep}, {"dependencies": M{"trigger": req}}, {"minProperties": N(itoa(2*n + 1))}}[sym.Choose("k", 4)]
	sym.Assert(run(compile(s), v).Valid() == !drop, "many required members")
}

// H_C08_other: the keywords ignore everything that is not an object; at any depth.
func H_C08_other() {
	s := []M{{"required": A{"a"}}, {"minProperties": N("1")}, {"maxProperties": N("0")}, {"propertyNames": false}, {"dependencies": M{"a": false}}, {"dependencies": M{"a": A{"b"}}}}[sym.Choose("k", 6)]
	ws, wv := wrap("wrap", s, anyVal("v", 1, 1))
	agree(ws, wv, "object keywords below a parent")
}

// H_C08_mix: all object keywords in one schema.
func H_C08_mix() {
	s := M{"required": A{"a"}, "minProperties": N("1"), "maxProperties": num("mx", "n"), "propertyNames": M{"pattern": "^[ab]"}, "dependencies": M{"b": M{"properties": M{"a": M{"type": "integer"}}}}}
	agree(s, objKeys("v", 2, 1), "object keywords together")
}
