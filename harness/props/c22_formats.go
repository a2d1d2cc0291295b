package props

import (
	"verifharness/sym"
)

func two(s string, k int) int { return int(s[k]-'0')*10 + int(s[k+1]-'0') }

// dateOK: YYYY-MM-DD at position k of s with a day the month has.
func dateOK(s string, k int) bool {
	ok := true
	for _, p := range []int{0, 1, 2, 3, 5, 6, 8, 9} {
		ok = sym.And(ok, isDigit(s[k+p]))
	}
	ok = sym.And(ok, sym.And(s[k+4] == '-', s[k+7] == '-'))
	y := two(s, k)*100 + two(s, k+2)
	m, d := two(s, k+5), two(s, k+8)
	leap := sym.And(y%4 == 0, sym.Or(y%100 != 0, y%400 == 0))
	days := sym.Or(d <= 28, sym.Or(sym.And(d == 29, sym.Or(m != 2, leap)), sym.Or(sym.And(d == 30, m != 2),
		sym.And(d == 31, sym.And(m != 2, sym.And(m != 4, sym.And(m != 6, sym.And(m != 9, m != 11))))))))
	return sym.And(ok, sym.And(sym.And(m >= 1, m <= 12), sym.And(d >= 1, days)))
}

// clockOK: HH:MM:SS at position k.
func clockOK(s string, k int) bool {
	ok := true
	for _, p := range []int{0, 1, 3, 4, 6, 7} {
		ok = sym.And(ok, isDigit(s[k+p]))
	}
	ok = sym.And(ok, sym.And(s[k+2] == ':', s[k+5] == ':'))
	return sym.And(ok, sym.And(two(s, k) <= 23, sym.And(two(s, k+3) <= 59, two(s, k+6) <= 59)))
}

// offsetOK: +HH:MM or -HH:MM at position k.
func offsetOK(s string, k int) bool {
	ok := sym.Or(s[k] == '+', s[k] == '-')
	for _, p := range []int{1, 2, 4, 5} {
		ok = sym.And(ok, isDigit(s[k+p]))
	}
	return sym.And(ok, sym.And(s[k+3] == ':', sym.And(two(s, k+1) <= 23, two(s, k+4) <= 59)))
}

// H_C22_date: every date of 8 free digits.
func H_C22_date() {
	s := string(num("y", "dddd")) + "-" + string(num("m", "dd")) + "-" + string(num("d", "dd"))
	formatted("date", s, dateOK(s, 0))
}

// H_C22_datechar: a date with one or two characters replaced by any ASCII characters, or with
// one added or removed.
func H_C22_datechar() {
	b := []byte("2024-02-29")
	switch sym.Choose("how", 4) {
	case 0:
		k := sym.Choose("k", 10)
		b[k] = sym.Byte("x", "\x00-\x7f")
		formatted("date", string(b), dateOK(string(b), 0))
	case 1:
		k := sym.Choose("k", 9)
		b[k] = sym.Byte("x", "\x00-\x7f")
		b[k+1] = sym.Byte("y", "\x00-\x7f")
		formatted("date", string(b), dateOK(string(b), 0))
	case 2:
		k := sym.Choose("k", 11)
		s := string(b[:k]) + sym.Str("x", 1, "\x00-\x7f") + string(b[k:])
		formatted("date", s, false)
	default:
		k := sym.Choose("k", 10)
		formatted("date", string(b[:k])+string(b[k+1:]), false)
	}
}

// H_C22_time: every time of 6 free digits with nothing, Z, a fraction or an offset behind it,
// and a fixed time with 4 free offset digits or a free fraction of 1..9 digits.
func H_C22_time() {
	c, tail, ok := "10:20:30", "", true
	switch sym.Choose("free", 3) {
	case 0:
		c = string(num("h", "dd")) + ":" + string(num("m", "dd")) + ":" + string(num("s", "dd"))
		sym.Assume(c[6:] != "60") // leap seconds are not decided here
		ok = clockOK(c, 0)
		tail = []string{"", "Z", ".5", ".123Z", "+00:00", "-23:59", ".5+12:30"}[sym.Choose("tail", 7)]
	case 1:
		tail = []string{"+", "-", ".25+"}[sym.Choose("sign", 3)] + string(num("oh", "dd")) + ":" + string(num("om", "dd"))
		ok = offsetOK(tail, len(tail)-6)
	default:
		tail = "." + string(num("f", "ddddddddd"))[:1+sym.Choose("digits", 9)] + []string{"", "Z", "+01:00"}[sym.Choose("zone", 3)]
	}
	formatted("time", c+tail, ok)
}

// H_C22_timechar: a time with one character replaced, added or removed.
func H_C22_timechar() {
	b := []byte("10:20:30Z")
	switch sym.Choose("how", 3) {
	case 0:
		k := sym.Choose("k", 9)
		b[k] = sym.Byte("x", "\x00-\x7f")
		s := string(b)
		ok := sym.And(clockOK(s, 0), s[8] == 'Z')
		formatted("time", s, ok)
	case 1:
		k := sym.Choose("k", 8)
		formatted("time", string(b[:k])+string(b[k+1:]), false)
	default:
		k := sym.Choose("k", 8)
		formatted("time", string(b[:k])+sym.Str("x", 1, "\x00-\x7f")+string(b[k:]), false)
	}
}

// H_C22_datetime: a fixed date-time with month and day, year and day, hour and minute, minute
// and second, fraction (1, 6 digits) or offset free, with Z or a fixed offset behind.
func H_C22_datetime() {
	d := "2023-05-17"
	c := "10:20:30"
	frac := ""
	zone := "Z"
	zoneOK := true
	free := sym.Choose("free", 7)
	switch free {
	case 0:
		d = "2023-" + string(num("m", "dd")) + "-" + string(num("d", "dd"))
	case 1:
		d = "20" + string(num("y", "dd")) + "-02-" + string(num("d", "dd"))
	case 2:
		c = string(num("h", "dd")) + ":" + string(num("i", "dd")) + ":30"
	case 3:
		c = "23:" + string(num("i", "dd")) + ":" + string(num("s", "dd"))
	case 4:
		frac = "." + string(num("f", "d"))
	case 5:
		frac = "." + string(num("f", "dddddd"))
	default:
		zone = []string{"+", "-"}[sym.Choose("sign", 2)] + string(num("oh", "dd")) + ":" + string(num("om", "dd"))
		zoneOK = offsetOK(zone, 0)
	}
	if free < 6 {
		zone = []string{"Z", "+00:00", "-08:30"}[sym.Choose("zone", 3)]
	}
	sym.Assume(c[6:] != "60")
	ok := sym.And(sym.And(dateOK(d, 0), clockOK(c, 0)), zoneOK)
	formatted("date-time", d+"T"+c+frac+zone, ok)
}

// H_C22_datetimechar: a date-time with one character replaced or removed (the zone aside).
func H_C22_datetimechar() {
	b := []byte("2023-05-17T10:20:30Z")
	if sym.Choose("how", 2) == 0 {
		k := sym.Choose("k", 19)
		x := sym.Byte("x", "\x00-\x7f")
		if k == 10 {
			sym.Assume(x != 't')
		}
		b[k] = x
		s := string(b)
		ok := sym.And(dateOK(s, 0), sym.And(s[10] == 'T', clockOK(s, 11)))
		formatted("date-time", s, ok)
		return
	}
	k := sym.Choose("k", 19)
	formatted("date-time", string(b[:k])+string(b[k+1:]), false)
}

// octet is 1..3 free digits.
func octet(name string) (string, bool) {
	switch sym.Choose(name+".len", 3) {
	case 0:
		return string(num(name, "d")), true
	case 1:
		s := string(num(name, "dd"))
		return s, s[0] != '0'
	}
	s := string(num(name, "ddd"))
	v := int(s[0]-'0')*100 + two(s, 1)
	return s, sym.And(s[0] != '0', v <= 255)
}

// H_C22_ipv4: four octets of 1..3 free digits (two free at a time): 0..255 without leading zeros.
func H_C22_ipv4() {
	a, okA := octet("a")
	b, okB := octet("b")
	ok := sym.And(okA, okB)
	switch sym.Choose("where", 3) {
	case 0:
		formatted("ipv4", a+"."+b+".0.255", ok)
	case 1:
		formatted("ipv4", "1."+a+"."+b+".10", ok)
	default:
		formatted("ipv4", a+".0.200."+b, ok)
	}
}

// H_C22_ipv4char: every string of up to 3 ASCII characters is no IPv4 address; an address with
// one character replaced, added or removed.
func H_C22_ipv4char() {
	b := []byte("1.22.33.4")
	switch sym.Choose("how", 4) {
	case 0:
		k := sym.Choose("k", 9)
		b[k] = sym.Byte("x", "\x00-\x7f")
		ok := isDigit(b[k])
		switch k {
		case 1, 4, 7:
			ok = b[k] == '.'
			if k == 4 {
				ok = b[k] == '.' // 1.22x33.4 has three parts
			}
		case 2, 5:
			ok = sym.And(ok, b[k] != '0')
		}
		formatted("ipv4", string(b), ok)
	case 1:
		x := sym.Byte("x", "\x00-\x7f")
		// 1.22.33.4x
		formatted("ipv4", string(b)+string([]byte{x}), isDigit(x))
	case 2:
		x := sym.Byte("x", "\x00-\x7f")
		formatted("ipv4", string([]byte{x})+string(b), in(x, '1', '9'))
	default:
		formatted("ipv4", strOf("s", 3, "\x00-\x7f"), false)
	}
}

// H_C22_ipv4forms: other notations are refused.
func H_C22_ipv4forms() {
	bad := []string{"", "1.2.3", "1.2.3.4.5", "1.2.3.4/8", "0x1.2.3.4", "1..2.3", ".1.2.3", "1.2.3.", "256.1.1.1", "1.2.3.4 ", " 1.2.3.4", "::ffff:1.2.3.4", "::1.2.3.4", "::1", "1.2.3.4%eth0", "01.2.3.4", "16909060", "localhost",
		"1.2.3.4\n", "-1.2.3.4", "+1.2.3.4", "1.2.3.1e1", "١.2.3.4"}
	formatted("ipv4", bad[sym.Choose("bad", len(bad))], false)
}

// H_C22_ipv6: groups of 1..5 free characters in full and compressed addresses.
func H_C22_ipv6() {
	n := 1 + sym.Choose("n", 5)
	g := sym.Str("g", n, "0-9a-gA-G")
	hex := n <= 4
	for k := 0; k < n; k++ {
		hex = sym.And(hex, isHex(g[k]))
	}
	forms := [][2]string{{"", ":2:3:4:5:6:7:8"}, {"1:2:3:4:5:6:7:", ""}, {"::", ""}, {"", "::"}, {"1::", ":8"}, {"1:2:", "::8"}, {"::ffff:", ":1"}, {"fe80::", ""}, {"::", ":1.2.3.4"}}
	f := forms[sym.Choose("form", len(forms))]
	formatted("ipv6", f[0]+g+f[1], hex)
}

// H_C22_ipv6forms: well-formed and ill-formed addresses as a whole, and an address with one
// character replaced.
func H_C22_ipv6forms() {
	good := []string{"::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::8", "abcd:EF01:2345:6789:abcd:ef01:2345:6789", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "::1.2.3.4"}
	bad := []string{"", ":", ":::", "1", "1:2", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2::3", ":1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:", "12345::", "::g", "1.2.3.4", "::1.2.3", "::1.2.3.256", "1:2:3:4:5:6:7:1.2.3.4", "[::1]", "::1/64", " ::1", "::1 ", "1:2:3:4::5:6:7:8:9", "::1.2.3.4:5", "laptop", "-1::", "::-1", "1:+2::"}
	switch sym.Choose("how", 3) {
	case 0:
		formatted("ipv6", good[sym.Choose("k", len(good))], true)
	case 1:
		formatted("ipv6", bad[sym.Choose("k", len(bad))], false)
	default:
		b := []byte("1a2b:3::4:5")
		k := sym.Choose("k", 4)
		b[k] = sym.Byte("x", "\x00-\x7f")
		ok := isHex(b[k])
		if k > 0 && k < 4 {
			ok = sym.Or(ok, b[k] == ':')
		}
		if k == 0 || k == 3 {
			ok = isHex(b[k])
		}
		formatted("ipv6", string(b), ok)
	}
}

// H_C22_email: letters around one '@'; strings without '@' or with an empty side are refused.
func H_C22_email() {
	l := strOf("l", 2, "a-z0-9")
	d := strOf("d", 2, "a-z0-9")
	f := []string{"email", "idn-email"}[sym.Choose("f", 2)]
	switch sym.Choose("form", 7) {
	case 0:
		formatted(f, l+"@"+d, len(l) > 0 && len(d) > 0)
	case 1:
		formatted(f, l+d, false)
	case 2:
		formatted(f, l+"."+l+"@"+d+".com", len(l) > 0 && len(d) > 0)
	case 3:
		formatted(f, l+"@"+d+"@x", false)
	case 4:
		formatted(f, l+"+t_-@"+d+".x", len(d) > 0)
	case 5:
		formatted(f, l+" "+l+"@"+d, false)
	default:
		formatted(f, l+"..x@"+d, false)
	}
}

// H_C22_uri: schemes, relative references, percent escapes and characters that no URI has.
func H_C22_uri() {
	f := []string{"uri", "iri", "uri-reference", "iri-reference"}[sym.Choose("f", 4)]
	abs := f == "uri" || f == "iri"
	switch sym.Choose("form", 8) {
	case 0: // scheme
		s := sym.Str("s", 1, "a-zA-Z") + strOf("t", 2, "a-zA-Z0-9+.-")
		formatted(f, s+"://h/p?q=1#f", true)
	case 1: // relative reference
		s := strOf("s", 3, "a-z0-9/.")
		formatted(f, s, !abs)
	case 2: // percent escape
		h := sym.Str("h", 2, "0-9a-gA-G")
		formatted(f, "http://h/%"+h, sym.And(isHex(h[0]), isHex(h[1])))
	case 3:
		formatted(f, "http://h/a"+`\`+strOf("s", 1, "a-z"), false)
	case 4: // control characters
		x := sym.Byte("x", "\x00-\x1f\x7f")
		formatted(f, "http://h/"+string([]byte{x}), false)
	case 5:
		formatted(f, []string{"//h/p", "/p/q", "p/q", "?q", "#f", "", "../p", "p?x=http://h"}[sym.Choose("k", 8)], !abs)
	case 6:
		formatted(f, []string{"http://h", "https://h:80/p;a=b?q=%20#f", "ftp://h/p", "mailto:a@b.c", "urn:a:b", "tel:+1-2", "news:a.b", "ldap://[2001:db8::7]/c=GB?o?o", "http://u:p@h/", "x:", "file:///p"}[sym.Choose("k", 11)], true)
	default:
		formatted(f, []string{"http://h/%", "http://h/%z1", "http://[::1/", "http://h:port/", ":foo", "1http://h", "http://h/a\nb", "http:// h/"}[sym.Choose("k", 8)], false)
	}
}

// H_C22_template: every opened brace in the path of a URI template is closed; other characters
// of the template are those of a URI reference.
func H_C22_template() {
	s := []string{"/a", "http://h/x", "a"}[sym.Choose("prefix", 3)] + strOf("s", 5, "a{}/")
	open := false
	for k := 0; k < len(s); k++ {
		if s[k] == '{' {
			open = true
		} else if s[k] == '}' {
			open = false
		}
	}
	formatted("uri-template", s, !open)
}

// H_C22_templateforms: templates as a whole.
func H_C22_templateforms() {
	if sym.Bool("good") {
		good := []string{"http://h/d/{term:1}/{term}", "http://h/d", "/d/{a}/{b}", "{a}", "/{+x,y}/z", "", "/{a}{b}", "/%20{a}"}
		formatted("uri-template", good[sym.Choose("k", len(good))], true)
		return
	}
	bad := []string{"http://h/d/{term", "{", "/{a", "/{a}{", `/\{a}`, "/{a}/{b", "/%zz", "http://h/\n"}
	formatted("uri-template", bad[sym.Choose("k", len(bad))], false)
}
