package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// complete asserts that the set of reported constraints is the set of violated ones (and
// otherwise only explanations of a failed alternative).
func complete(s, v interface{}) {
	r := run(compile(s), v)
	c := &ref.Ctx{Root: s, Format: func(f string, v interface{}) bool {
		_, is := v.(string)
		return !is // the strings used here are no addresses
	}}
	want := c.Errors(s, v, "(root)")
	var got []string
	for _, e := range r.Errors() {
		got = append(got, e.Context().String()+"|"+e.Type()+"|"+subjectOf(e))
	}
	for _, k := range want.Must {
		sym.Assert(inList(got, k), "a violated constraint is not reported: "+k)
	}
	for _, k := range got {
		sym.Assert(inList(want.Must, k) || inList(want.May, k), "a reported constraint is not violated: "+k)
	}
	sym.Assert(r.Valid() == !want.Failed(), "valid means nothing is violated")
}

// H_C17_number: all violated number constraints are reported, limits and instance free digits.
func H_C17_number() {
	s, v := errNumber()
	complete(wrap("w", s, v))
}

// H_C17_string: all violated string constraints, strings of up to 3 letters.
func H_C17_string() {
	s, v := errString()
	complete(wrap("w", s, v))
}

// H_C17_array: all violated array constraints, arrays of up to 3 elements.
func H_C17_array() {
	s, v := errArray()
	complete(wrap2("w", s, v))
}

// H_C17_object: all violated object constraints, objects of up to 2 members.
func H_C17_object() {
	s, v := errObject()
	complete(wrap2("w", s, v))
}

// H_C17_combine: all violated combinators.
func H_C17_combine() {
	s, v := errCombine()
	complete(s, v)
}

// H_C17_many: the errors of up to 4 wrong members and items are all reported, each digit free.
func H_C17_many() {
	lo := num("lo", "d")
	if sym.Choose("k", 2) == 0 {
		complete(M{"items": M{"minimum": lo}}, A{num("a", "d"), num("b", "d"), num("c", "d"), num("e", "d")})
		return
	}
	in := M{"minimum": lo}
	complete(M{"properties": M{"a": in, "b": in}, "additionalProperties": M{"allOf": A{in}}}, M{"a": num("a", "d"), "b": num("b", "d"), "c": num("c", "d")})
}
