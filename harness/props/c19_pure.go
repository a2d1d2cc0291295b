package props

import (
	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// statefulSchemas exercise every part of validation that could keep state.
func statefulSchema(k int) interface{} {
	switch k {
	case 0:
		return M{"uniqueItems": true, "items": M{"minimum": N("4")}, "contains": M{"maximum": N("6")}}
	case 1:
		return M{"oneOf": A{M{"items": M{"minimum": N("4")}}, M{"maxItems": N("1")}}, "not": M{"items": M{"multipleOf": N("5")}}}
	case 2:
		return M{"definitions": M{"n": M{"items": M{"anyOf": A{M{"maximum": N("5")}, M{"$ref": "#/definitions/n"}}}}}, "$ref": "#/definitions/n"}
	case 3:
		return M{"if": M{"minItems": N("2")}, "then": M{"items": M{"minimum": N("5")}}, "else": M{"items": M{"enum": A{N("1"), N("7")}}}}
	case 4:
		return M{"items": A{M{"const": N("3")}, M{"type": "integer", "exclusiveMinimum": N("2")}}, "additionalItems": M{"maximum": N("3")}, "maxItems": N("2")}
	}
	return M{"items": M{"allOf": A{M{"minimum": N("2")}, M{"maximum": N("7")}}}, "additionalProperties": false}
}

func digits(name string, max int) A {
	a := A{}
	n := sym.Choose(name+".n", max+1)
	for k := 0; k < n; k++ {
		a = append(a, num(name+itoa(k), "d"))
	}
	return a
}

// H_C19_repeat: a compiled schema gives the same errors for an array of up to 2 free digits
// before and after it has been used on another one, and the first result does not change.
func H_C19_repeat() {
	s := statefulSchema(sym.Choose("set", 6))
	sch := compile(s)
	v, w := digits("v", 2), digits("w", 1)
	r1 := run(sch, v)
	k1 := errorKeys(r1)
	run(sch, w)
	k1b := errorKeys(r1)
	r2 := run(sch, v)
	sym.Assert(len(k1) == len(k1b) && sameKeys(k1, k1b), "a result changed after another validation")
	sym.Assert(sameKeys(k1, errorKeys(r2)), "the errors depend on earlier validations")
	sym.Assert(r1.Valid() == ref.Valid(s, v), "the first validation is wrong")
}

// H_C19_history: after any two earlier validations (objects with free names and digits) a
// schema decides an instance like the reference.
func H_C19_history() {
	var s interface{}
	switch sym.Choose("set", 4) {
	case 0:
		s = M{"required": A{"a"}, "properties": M{"a": M{"maximum": N("4")}}, "additionalProperties": false}
	case 1:
		s = M{"patternProperties": M{"^a": M{"minimum": N("3")}}, "additionalProperties": M{"maximum": N("6")}}
	case 2:
		s = M{"dependencies": M{"a": A{"b"}, "b": M{"properties": M{"b": M{"minimum": N("5")}}}}, "propertyNames": M{"maxLength": N("1")}}
	default:
		s = M{"anyOf": A{M{"properties": M{"a": M{"const": N("3")}}, "required": A{"a"}}, M{"properties": M{"b": M{"type": "string"}}, "required": A{"b"}}}}
	}
	sch := compile(s)
	one := func(n string) M { return M{sym.Str(n+".k", 1, "a-bA"): num(n+".v", "d")} }
	for k := 0; k < 2; k++ {
		v := one("h" + itoa(k))
		if k == 1 {
			v["b"] = "x"
		}
		sym.Assert(run(sch, v).Valid() == ref.Valid(s, v), "an earlier validation changed the schema")
	}
	v := one("v")
	sym.Assert(run(sch, v).Valid() == ref.Valid(s, v), "earlier validations changed the schema")
}

// H_C19_instance: validation leaves the instance as it was: any value of nesting 2.
func H_C19_instance() {
	var s interface{}
	switch sym.Choose("set", 4) {
	case 0:
		s = M{"enum": A{N("1.0"), A{N("1e0")}, M{"a": N("10e-1")}}}
	case 1:
		s = M{"uniqueItems": true, "items": M{"uniqueItems": true}, "properties": M{"a": M{"const": M{"a": N("1.0")}}}}
	case 2:
		s = M{"properties": M{"a": M{"default": N("1")}, "b": M{"default": "x", "type": "string"}}, "default": M{}, "required": A{"b"}}
	default:
		s = M{"anyOf": A{M{"const": A{N("1.0")}}, M{"not": M{"enum": A{M{"b": N("0.0")}}}}}, "additionalProperties": M{"type": "integer"}, "items": M{"type": "string"}}
	}
	var v interface{}
	if sym.Choose("nest", 2) == 0 {
		v = A{oneNum("n", "d", "d.d", "de0"), M{sym.Str("k", 1, "a-bA"): oneNum("m", "d.0", "de0")}}
	} else {
		v = M{sym.Str("k", 1, "a-bA"): A{oneNum("n", "d", "d.d", "de0"), oneNum("m", "d.0", "de0")}, "a": M{"a": N("1")}}
	}
	before := ref.Clone(v)
	r := run(compile(s), v)
	sym.Assert(r.Valid() == ref.Valid(s, before), "decided wrongly")
	sym.Assert(sameText(before, v), "validation changed the instance")
}

// sameText is equality of values including the spelling of numbers.
func sameText(a, b interface{}) bool {
	switch x := a.(type) {
	case A:
		y, ok := b.(A)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if !sameText(x[k], y[k]) {
				return false
			}
		}
		return true
	case M:
		y, ok := b.(M)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !sameText(x[k], z) {
				return false
			}
		}
		return true
	}
	return a == b
}

// H_C19_other: compiling and using further schemas (same identifier, same definitions, same
// property names, another draft, through other loaders) does not change a compiled schema.
func H_C19_other() {
	lo := num("lo", "d")
	s := M{"$id": "http://h/s.json", "definitions": M{"d": M{"minimum": lo}}, "properties": M{"a": M{"$ref": "#/definitions/d"}}, "patternProperties": M{"^b": M{"format": "ipv4"}}}
	sch := compile(s)
	o := M{"$id": "http://h/s.json", "definitions": M{"d": M{"maximum": num("hi", "d")}}, "properties": M{"a": M{"$ref": "#/definitions/d"}}}
	switch sym.Choose("what", 5) {
	case 0:
		run(compile(o), M{"a": N("5")})
	case 1:
		o["$schema"] = "http://json-schema.org/draft-04/schema#"
		delete(o, "$id")
		run(compile(o), M{"a": N("5")})
	case 2:
		if _, err := compileDraft(7, o); err != nil {
			sym.Assert(false, err.Error())
		}
	case 3:
		sl := gjs.NewSchemaLoader()
		if err := sl.AddSchemas(gjs.NewRawLoader(ref.Clone(o))); err != nil {
			sym.Assert(false, err.Error())
		}
		sl.AutoDetect, sl.Validate = false, true
		sl.Draft = gjs.Draft7
		if _, err := sl.Compile(gjs.NewRawLoader(M{"$ref": "http://h/s.json"})); err != nil {
			sym.Assert(false, err.Error())
		}
	default:
		if _, err := gjs.NewSchema(gjs.NewRawLoader(M{"$id": "http://h/s.json", "type": "nonsense"})); err == nil {
			sym.Assert(false, "accepted")
		}
	}
	v := M{"a": num("v", "d")}
	sym.Assert(run(sch, v).Valid() == ref.Valid(s, v), "another schema changed a compiled schema")
	// and the other way round: a new compilation is not affected by the old ones
	sym.Assert(run(compile(o2(s)), v).Valid() == ref.Valid(s, v), "an earlier schema changed a new one")
}

func o2(s interface{}) interface{} { return ref.Clone(s) }

// H_C19_loader: two schemas compiled by one loader keep their own meaning.
func H_C19_loader() {
	sl := gjs.NewSchemaLoader()
	lo, hi := num("lo", "d"), num("hi", "d")
	a := M{"$id": "http://h/a.json", "definitions": M{"d": M{"minimum": lo}}, "$ref": "#/definitions/d"}
	b := M{"$id": "http://h/b.json", "definitions": M{"d": M{"maximum": hi}}, "$ref": "#/definitions/d"}
	for k, s := range []M{a, b} {
		if err := sl.AddSchema("http://h/"+[]string{"x", "y"}[k]+".json", gjs.NewRawLoader(ref.Clone(s))); err != nil {
			sym.Assert(false, err.Error())
		}
	}
	v := num("v", "d")
	var sch [2]*gjs.Schema
	first := sym.Choose("first", 2)
	for _, k := range []int{first, 1 - first} {
		var err error
		sch[k], err = sl.Compile(gjs.NewReferenceLoader("http://h/" + []string{"x", "y"}[k] + ".json"))
		if err != nil {
			sym.Assert(false, err.Error())
		}
	}
	sym.Assert(run(sch[0], v).Valid() == ref.Valid(M{"minimum": lo}, v), "first schema of a loader")
	sym.Assert(run(sch[1], v).Valid() == ref.Valid(M{"maximum": hi}, v), "second schema of a loader")
	again, err := sl.Compile(gjs.NewReferenceLoader("http://h/x.json"))
	sym.Assert(err == nil, "a second compilation of an added schema fails")
	sym.Assert(run(again, v).Valid() == ref.Valid(M{"minimum": lo}, v), "a second compilation of an added schema differs")
}

// H_C19_par: two concurrent validations with one schema (each instance any two digits, valid
// or not) are free of data races and decide like the reference.
func H_C19_par() {
	s := statefulSchema(sym.Choose("set", 6))
	sch := compile(s)
	v, w := A{num("v", "d"), N("5")}, A{num("w", "d")}
	var a, b bool
	sym.Par(func() { a = run(sch, v).Valid() }, func() { b = run(sch, w).Valid() })
	sym.Assert(a == ref.Valid(s, v) && b == ref.Valid(s, w), "concurrent validations disturb each other")
}

// H_C19_parobject: concurrent validations of objects: names, patterns, formats, dependencies.
func H_C19_parobject() {
	s := M{"properties": M{"a": M{"minimum": N("4")}, "f": M{"format": "ipv4"}, "p": M{"pattern": "^x"}}, "patternProperties": M{"^q": M{"maximum": N("5")}}, "additionalProperties": false,
		"dependencies": M{"a": A{"q"}}, "propertyNames": M{"maxLength": N("2")}}
	sch := compile(s)
	v := M{"a": num("v", "d"), "f": "1.2.3.4", sym.Str("k", 1, "p-r"): num("x", "d")}
	w := M{"a": num("w", "d"), "q": num("y", "d"), "p": "y"}
	ka, kb := errorKeys(run(compile(s), v)), errorKeys(run(compile(s), w))
	var a, b *gjs.Result
	sym.Par(func() { a = run(sch, v) }, func() { b = run(sch, w) })
	sym.Assert(sameKeys(errorKeys(a), ka) && sameKeys(errorKeys(b), kb), "concurrent validations report other errors")
}

// H_C19_parstring: rendering errors concurrently, with formats and messages used for the
// first time.
func H_C19_parstring() {
	s := M{"format": []string{"date", "uuid", "ipv6", "time", "hostname", "uri", "regex", "json-pointer", "email"}[sym.Choose("f", 9)], "maxLength": N("1")}
	sch := compile(s)
	text := func(v string) string {
		t := ""
		for _, e := range run(sch, v).Errors() {
			t += e.String() + "\n"
		}
		return t
	}
	var a, b string
	sym.Par(func() { a = text("((") }, func() { b = text("((") })
	sym.Assert(a == b && a != "", "concurrent validations report different errors")
}

// H_C19_parcompile: concurrent compilations, of equal or different schemas, with references,
// formats and checks against a metaschema.
func H_C19_parcompile() {
	lo := num("lo", "d")
	s := M{"definitions": M{"d": M{"minimum": lo, "format": "date", "pattern": "^a"}}, "properties": M{"a": M{"$ref": "#/definitions/d"}}, "patternProperties": M{"^b": M{"type": "string"}}}
	o := interface{}(ref.Clone(s))
	switch sym.Choose("other", 3) {
	case 1:
		o = M{"$id": "http://h/o.json", "items": M{"$ref": "#"}, "type": "array"}
	case 2:
		o = M{"minLength": N("-1")}
	}
	c1, c2 := ref.Clone(s), ref.Clone(o)
	bad := mapHas(o, "minLength")
	var x, y *gjs.Schema
	var ex, ey error
	sym.Par(func() { x, ex = gjs.NewSchema(gjs.NewRawLoader(ref.Clone(c1))) }, func() { y, ey = gjs.NewSchema(gjs.NewRawLoader(ref.Clone(c2))) })
	sym.Assert(ex == nil && (ey == nil) != bad, "concurrent compilations disturb each other")
	v := M{"a": num("v", "d")}
	sym.Assert(run(x, v).Valid() == ref.Valid(s, v), "a concurrently compiled schema decides wrongly")
	_ = y
}

func mapHas(v interface{}, k string) bool {
	m, _ := v.(M)
	_, ok := m[k]
	return ok
}

type constChecker bool

func (c constChecker) IsFormat(interface{}) bool { return bool(c) }

// H_C19_parformat: adding, removing and asking for formats while another goroutine validates.
func H_C19_parformat() {
	sch := compile(M{"format": "ipv4"})
	var a bool
	op := sym.Choose("op", 3)
	sym.Par(func() { a = run(sch, "1.2.3.4").Valid() }, func() {
		switch op {
		case 0:
			gjs.FormatCheckers.Add("verif-x", constChecker(true))
		case 1:
			gjs.FormatCheckers.Remove("verif-x")
		default:
			gjs.FormatCheckers.Has("verif-x")
		}
	})
	gjs.FormatCheckers.Remove("verif-x")
	sym.Assert(a, "a valid address is rejected")
}

// H_C19_parmeta: concurrent compilations with a check against the metaschema of each draft.
func H_C19_parmeta() {
	c := func(d gjs.Draft, s interface{}) error {
		sl := gjs.NewSchemaLoader()
		sl.Validate, sl.Draft = true, d
		_, err := sl.Compile(gjs.NewRawLoader(s))
		return err
	}
	d1 := []gjs.Draft{gjs.Draft4, gjs.Draft6, gjs.Draft7}[sym.Choose("d1", 3)]
	d2 := []gjs.Draft{gjs.Draft4, gjs.Draft6, gjs.Draft7}[sym.Choose("d2", 3)]
	var e1, e2 error
	sym.Par(func() { e1 = c(d1, M{"minLength": N("1")}) }, func() { e2 = c(d2, M{"minLength": "x"}) })
	sym.Assert(e1 == nil && e2 != nil, "concurrent compilations disturb each other")
}
