package props

import (
	"strings"

	"verifharness/sym"
)

// uni is a string of n code points, each of 1 to 4 bytes with free bytes.
func uni(name string, n int) string {
	s := ""
	for k := 0; k < n; k++ {
		p := name + ".u" + itoa(k)
		switch sym.Choose(p+".w", 4) {
		case 0:
			s += sym.Str(p, 1, "\x00-\x7f")
		case 1:
			s += sym.Str(p+"a", 1, "\xc2-\xdf") + sym.Str(p+"b", 1, "\x80-\xbf")
		case 2:
			s += sym.Str(p+"a", 1, "\xe1-\xec") + sym.Str(p+"b", 2, "\x80-\xbf")
		default:
			s += sym.Str(p+"a", 1, "\xf1-\xf3") + sym.Str(p+"b", 3, "\x80-\xbf")
		}
	}
	return s
}

// H_C04_length: minLength and/or maxLength any digit; strings of 0..3 code points of
// 1..4 bytes each with free bytes (thorough: 0..4).
func H_C04_length() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	s := M{}
	k := sym.Choose("k", 3)
	switch k {
	case 0:
		s["minLength"] = num("min", "d")
	case 1:
		s["maxLength"] = num("max", "d")
	default:
		lo, hi := sym.Choose("lo", 4), sym.Choose("hi", 4)
		sym.Assume(lo <= hi)
		s["minLength"], s["maxLength"] = N(itoa(lo)), N(itoa(hi))
	}
	n := sym.Choose("n", max+1)
	v := uni("v", n)
	got := agree(s, v, "string length")
	if k == 0 {
		sym.Assert(got == (n >= int(s["minLength"].(jsonNumber)[0]-'0')), "minLength counts code points")
	} else if k == 1 {
		sym.Assert(got == (n <= int(s["maxLength"].(jsonNumber)[0]-'0')), "maxLength counts code points")
	}
}

// H_C04_long: strings of 100, 127..129, 255..257, 1000 and 65535..65537 characters (ASCII
// or three-byte) against equal and neighbouring limits.
func H_C04_long() {
	n := []int{100, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537}[sym.Choose("n", 11)]
	d := sym.Choose("d", 3) - 1
	c := []string{"x", "\u20ac"}[sym.Choose("c", 2)]
	key := []string{"minLength", "maxLength"}[sym.Choose("k", 2)]
	v := strings.Repeat(c, n)
	got := run(compile(M{key: N(itoa(n + d))}), v).Valid()
	sym.Observe("valid", got)
	if key == "minLength" {
		sym.Assert(got == (d <= 0), "minLength of a long string")
	} else {
		sym.Assert(got == (d >= 0), "maxLength of a long string")
	}
}

var patterns = []string{"^a", "b$", "a", "a|bc", "^[ab]{2}$", "a.c", "^(ab)*$", "", "[^a]", "^a?b+c*$", "\\bab", "(?i)^A", "^.$", "c{2,3}", "a\\.b", "^$"}

// H_C04_pattern: 16 patterns (anchored or not, classes, repetition, alternation) over all
// strings of 0..3 bytes out of a-c . (thorough 4): an unanchored pattern matches anywhere.
func H_C04_pattern() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	p := patterns[sym.Choose("p", len(patterns))]
	agree(M{"pattern": p}, strOf("v", max, "a-c.\n"), "pattern "+p)
}

// H_C04_find: a literal pattern is found at any position of a 30-byte text.
func H_C04_find() {
	at := sym.Int("at", 0, 28)
	b := []byte(strings.Repeat("x", 30))
	at = pick(at, 29)
	b[at] = sym.Byte("c0", "wxy")
	b[at+1] = sym.Byte("c1", "xyz")
	v := string(b)
	want := b[at] == 'y' && b[at+1] == 'z'
	got := run(compile(M{"pattern": "yz"}), v).Valid()
	sym.Assert(got == want, "an unanchored pattern matches at any position")
}

// H_C04_other: length and pattern ignore values that are not strings; at any depth.
func H_C04_other() {
	s := []M{{"minLength": N("1")}, {"maxLength": N("0")}, {"pattern": "^b"}, {"minLength": N("1"), "maxLength": N("1"), "pattern": "c"}}[sym.Choose("k", 4)]
	ws, wv := wrap("wrap", s, anyVal("v", 1, 1))
	agree(ws, wv, "string keywords below a parent")
}
