package props

import (
	"verifharness/sym"
)

// formatted asserts that a format accepts v exactly when want.
func formatted(f, v string, want bool) {
	got := run(compile(M{"format": f}), v).Valid()
	sym.Observe("valid", got)
	if sym.Fork(got) {
		sym.Cover("valid")
		sym.Assert(want, "format "+f+" accepts an ill-formed string")
	} else {
		sym.Cover("invalid")
		sym.Assert(!want, "format "+f+" rejects a well-formed string")
	}
}

func in(c byte, lo, hi byte) bool { return sym.And(c >= lo, c <= hi) }

func isDigit(c byte) bool { return in(c, '0', '9') }
func isHex(c byte) bool {
	return sym.Or(isDigit(c), sym.Or(in(c, 'a', 'f'), in(c, 'A', 'F')))
}
func isAlnum(c byte) bool {
	return sym.Or(isDigit(c), sym.Or(in(c, 'a', 'z'), in(c, 'A', 'Z')))
}

// H_C21_uuid: every string of 36 ASCII characters: exactly 8-4-4-4-12 hexadecimal digits.
func H_C21_uuid() {
	s := sym.Str("s", 36, "\x00-\x7f")
	want := true
	for k := 0; k < 36; k++ {
		if k == 8 || k == 13 || k == 18 || k == 23 {
			want = sym.And(want, s[k] == '-')
		} else {
			want = sym.And(want, isHex(s[k]))
		}
	}
	formatted("uuid", s, want)
}

// H_C21_uuidlen: any other length of up to 40 characters is refused, also with a well-formed
// UUID inside.
func H_C21_uuidlen() {
	u := "0aF3d567-89ab-cDef-0123-456789abcdef"
	switch sym.Choose("form", 5) {
	case 0:
		formatted("uuid", u[:sym.Choose("n", 36)], false)
	case 1:
		formatted("uuid", u+sym.Str("x", 1, "\x00-\x7f"), false)
	case 2:
		formatted("uuid", sym.Str("x", 1, "\x00-\x7f")+u, false)
	case 3:
		formatted("uuid", "{"+u+"}", false)
	default:
		formatted("uuid", u, true)
	}
}

// pointerOK: a JSON pointer is empty or starts with '/', and '~' is followed by 0 or 1.
func pointerOK(s string) bool {
	want := true
	for k := 0; k < len(s); k++ {
		if k == 0 {
			want = sym.And(want, s[k] == '/')
		}
		if k+1 < len(s) {
			want = sym.And(want, sym.Or(s[k] != '~', sym.Or(s[k+1] == '0', s[k+1] == '1')))
		} else {
			want = sym.And(want, s[k] != '~')
		}
	}
	return want
}

// H_C21_pointer: every string of up to 8 (thorough 12) ASCII characters, or with a two-byte character.
func H_C21_pointer() {
	max := 8
	if sym.Thorough() {
		max = 12
	}
	s := strOf("s", max, "\x00-\x7f")
	if sym.Choose("wide", 2) == 1 {
		s = "/" + string([]byte{sym.Byte("w0", "\xc2-\xdf"), sym.Byte("w1", "\x80-\xbf")}) + sym.Str("t", 2, "\x00-\x7f")
	}
	formatted("json-pointer", s, pointerOK(s))
}

// H_C21_relpointer: every string of up to 8 (thorough 12) ASCII characters: an integer
// without leading zeros followed by '#' or a JSON pointer.
func H_C21_relpointer() {
	max := 8
	if sym.Thorough() {
		max = 12
	}
	s := strOf("s", max, "\x00-\x7f")
	want := false
	for n := 1; n <= len(s); n++ {
		// the integer is s[:n]
		head := true
		for k := 0; k < n; k++ {
			head = sym.And(head, isDigit(s[k]))
		}
		if n > 1 {
			head = sym.And(head, s[0] != '0')
		}
		tail := pointerOK(s[n:])
		if n+1 == len(s) {
			tail = sym.Or(tail, s[n] == '#')
		}
		want = sym.Or(want, sym.And(head, tail))
	}
	formatted("relative-json-pointer", s, want)
}

// hostOK: labels of 1..63 letters, digits and inner hyphens, separated by dots, in all fewer
// than 256 characters.
func hostOK(s string) bool {
	want := len(s) > 0 && len(s) < 256
	for k := 0; k < len(s); k++ {
		c := s[k]
		edge := k == 0 || k == len(s)-1
		ok := isAlnum(c)
		if !edge {
			ok = sym.Or(ok, sym.Or(
				sym.And(c == '-', sym.And(s[k-1] != '.', s[k+1] != '.')),
				sym.And(c == '.', sym.And(s[k-1] != '.', s[k+1] != '.'))))
		}
		want = sym.And(want, ok)
	}
	return want
}

// H_C21_host: every string of up to 8 (thorough 12) ASCII characters.
func H_C21_host() {
	max := 8
	if sym.Thorough() {
		max = 12
	}
	s := strOf("s", max, "\x00-\x7f")
	formatted("hostname", s, hostOK(s))
}

func rep(c string, n int) string {
	s := ""
	for k := 0; k < n; k++ {
		s += c
	}
	return s
}

// H_C21_hostlen: labels of 60..66 characters with a free last character, at the front, in
// the middle or at the end; names of 250..258 characters.
func H_C21_hostlen() {
	if sym.Choose("what", 2) == 0 {
		n := 59 + sym.Choose("n", 7)
		x := sym.Str("x", 1, "\x00-\x7f")
		label := rep("a", n) + x
		s, mid := label, false
		switch sym.Choose("where", 3) {
		case 1:
			s, mid = label+".b", true
		case 2:
			s = "b." + label
		}
		ok := isAlnum(x[0])
		long := sym.And(ok, n+1 <= 63)
		if mid {
			// a dot there would make an empty label: refused
			formatted("hostname", s, long)
			return
		}
		formatted("hostname", s, long)
		return
	}
	total := 250 + sym.Choose("total", 9)
	s := ""
	for len(s) < total-50 {
		s += rep("a", 49) + "."
	}
	s += rep("b", total-len(s)-1) + sym.Str("x", 1, "a-zA-Z0-9")
	formatted("hostname", s, total < 256)
}

// H_C21_regex: expressions over every construct, with one free letter, and malformed ones.
func H_C21_regex() {
	x := sym.Str("x", 1, "a-z")
	good := []string{"", "a", "^a$", "a*b+c?", "a|b", "(a)", "(?:a)", "[a-z]", "[^a]", "a{2}", "a{2,}", "a{2,3}", `\d`, `\.`, `\\`, "(a(b))", ".", "a||b", "[]a]", "x*?", `[\]]`, "a{", "a{,2}", `\x41`, `\p{L}`}
	bad := []string{"(", ")", "[", "*", "+", "?", "a**", "(a", "a)", "[z-a]", `\`, "a{2,1}", "(?<a", "[a", `\8`, "a(", "(?P<n", "a{1001}", `[\d-z`, "(*a)"}
	k := sym.Choose("k", len(good)+len(bad))
	var s string
	ok := k < len(good)
	if ok {
		s = good[k]
	} else {
		s = bad[k-len(good)]
	}
	switch sym.Choose("where", 3) {
	case 1:
		if ok {
			s = x + s
		} else {
			s = "z|" + s
		}
	case 2:
		if ok || s[len(s)-1] != '\\' {
			s = s + "|z"
		}
	}
	if (k == 0 || s == "") && ok {
		sym.Cover("empty")
	}
	formatted("regex", s, ok)
}
