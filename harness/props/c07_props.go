package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// objKeys has up to n members with keys of 1..klen bytes out of a-c and free scalar values.
func objKeys(name string, n, klen int) M {
	o := M{}
	c := sym.Choose(name+".n", n+1)
	for k := 0; k < c; k++ {
		p := name + "." + itoa(k)
		l := 1 + sym.Choose(p+".kl", klen)
		o[sym.Str(p+".key", l, "a-cA")] = scalar(p)
	}
	return o
}

func addlProps(name string, s M) {
	switch sym.Choose(name, 4) {
	case 1:
		s["additionalProperties"] = true
	case 2:
		s["additionalProperties"] = false
	case 3:
		s["additionalProperties"] = M{"type": "integer"}
	}
}

// H_C07_props: "properties" of 1..2 names x additionalProperties absent, true, false or a
// schema; objects of up to 2 members whose names are any letters a-c (thorough: 3 members).
func H_C07_props() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	s := M{"properties": M{"a": leaf("pa")}}
	if sym.Choose("two", 2) == 1 {
		s["properties"].(M)["b"] = M{"type": "string"}
	}
	addlProps("addl", s)
	agree(s, objKeys("v", n, 1), "properties")
}

// H_C07_patterns: patternProperties with 1..2 overlapping patterns next to "properties"
// and additionalProperties; member names of 1..2 letters.
func H_C07_patterns() {
	pp := M{"^a": M{"type": A{"integer", "null"}}}
	switch sym.Choose("two", 4) {
	case 1:
		pp["b$"] = M{"type": A{"null", "string"}}
	case 2:
		pp["a"] = M{"maximum": num("mx", "d")}
	case 3:
		pp = M{"b|c": false}
	}
	s := M{"patternProperties": pp}
	if sym.Choose("props", 2) == 1 {
		s["properties"] = M{"ab": M{"minimum": num("mn", "d")}, "c": true}
	}
	addlProps("addl", s)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	agree(s, objKeys("v", n, 2), "patternProperties")
}

// H_C07_two: two members, both matching zero, one or two of the patterns.
func H_C07_two() {
	s := M{"patternProperties": M{"a": M{"type": "integer"}, "b": M{"minimum": N("5")}}, "additionalProperties": sym.Choose("addl", 2) == 0}
	o := M{}
	o[sym.Str("k0", 2, "a-cA")] = oneNum("v0", "d", "d.d")
	o[sym.Str("k1", 2, "a-cA")] = oneNum("v1", "d", "d.d")
	agree(s, o, "patternProperties")
}

// H_C07_names: unusual property names ("", "$ref", "properties", with dots, slashes,
// tildes, quotes, upper case and non-ASCII) are ordinary names.
func H_C07_names() {
	names := []string{"", "$ref", "$id", "id", "properties", "a.b", "a/b", "~0", "\"", "(root)", "A", "\u00e9", "0", "const", "enum", "type", "%41", " a"}
	n := names[sym.Choose("n", len(names))]
	other := names[sym.Choose("o", len(names))]
	s := M{"properties": M{n: M{"type": "integer"}}}
	if sym.Choose("addl", 2) == 1 {
		s["additionalProperties"] = false
	}
	sch := compile(s)
	v := scalar("v")
	got := run(sch, M{other: v}).Valid()
	want := true
	if other == n {
		_, isNum := v.(jsonNumber)
		want = isNum && ref.IsInt(v.(jsonNumber))
	} else if _, closed := s["additionalProperties"]; closed {
		want = false
	}
	sym.Assert(got == want, "a property name is taken literally")
}

// H_C07_many: objects of 60 members under "properties" of 60 names, one member (any
// position) free; and 60 additional members.
func H_C07_many() {
	const n = 60
	at := pick(sym.Int("at", 0, n-1), n)
	d := num("d", "d")
	props, v := M{}, M{}
	for k := 0; k < n; k++ {
		props["p"+itoa(k)] = M{"maximum": N("5")}
		v["p"+itoa(k)] = N("3")
	}
	v["p"+itoa(at)] = d
	le5 := ref.Rat(d).Cmp(ref.Rat(N("5"))) <= 0
	var s M
	want := le5
	switch sym.Choose("k", 4) {
	case 0:
		s = M{"properties": props, "additionalProperties": false}
	case 1:
		s = M{"additionalProperties": M{"maximum": N("5")}}
	case 2:
		s = M{"patternProperties": M{"^p": M{"maximum": N("5")}}}
	default:
		delete(props, "p"+itoa(at))
		s = M{"properties": props, "additionalProperties": false}
		want = false
	}
	sym.Assert(run(compile(s), v).Valid() == want, "an object of many members")
}

// H_C07_nested: objects in objects.
func H_C07_nested() {
	s := M{"properties": M{"a": M{"properties": M{"b": leaf("l")}, "additionalProperties": false}}, "additionalProperties": M{"additionalProperties": M{"type": "integer"}}}
	agree(s, obj("v", 2, 1), "nested objects")
}

// H_C07_other: the keywords ignore everything that is not an object; at any depth.
func H_C07_other() {
	s := []M{{"properties": M{"a": false}}, {"additionalProperties": false}, {"patternProperties": M{".": false}}}[sym.Choose("k", 3)]
	ws, wv := wrap("wrap", s, anyVal("v", 1, 1))
	agree(ws, wv, "object keywords below a parent")
}
