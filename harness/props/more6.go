package props

import (
	"regexp"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"

	"verifharness/ref"
	"verifharness/sym"
)

// regex: texts that are an expression only when put between something else, and none alone; flags, anchors and line ends; oracle: the regular expression engine.
func H_C21_regexalone() {
	good := []string{"(?i)a", "(?m)^a$", "(?i:a)b", "a\nb", "^$", "$^", `\bx\b`, "[(]", "[)]", `\(\)`, "(a)(b)", "[^)]", "()", "(|a)", "a+?", "[[:alpha:]]", `\Qa(b\E`, "(?P<n>a)", "(?s).", "é+", "[é-ü]", "a{0}", "a{1000}"}
	bad := []string{"a)(b", ")(", "a)|(b", "a)b(?:c", ")?(", "](", `a\)|(`, "[)", "(]", "(?P<n>a)(?P<n>b)", "(?z)a", "[[:nope:]]", `\pX{`, "x{2}{3}", "++", "|*", "(?=a)", "(?!a)", `(a)\1`, "(?<=a)b", "^*", `\c`, "a{1000}{1000}", "(((", `\Q(\E)`}
	s := append(good, bad...)[sym.Choose("k", len(good)+len(bad))]
	_, err := regexp.Compile(s)
	formatted("regex", s, err == nil)
}

// e-mail addresses with parts of 1 to 70 characters, and up to 8 labels.
func H_C22_longmail() {
	n := []int{1, 30, 63, 64, 65, 66, 70, 100, 254, 300}[sym.Choose("n", 10)]
	l := sym.Str("l", 1, "a-z0-9")
	switch sym.Choose("form", 5) {
	case 0:
		formatted("email", l+strings.Repeat("x", n)+"@a.com", true)
	case 1:
		formatted("email", l+"@"+strings.Repeat("x", n)+".com", true)
	case 2:
		formatted("email", l+"@a"+strings.Repeat(".b", n), true)
	case 3:
		formatted("email", l+strings.Repeat(".y", n)+"@b", true)
	default:
		formatted("email", l+strings.Repeat("x", n), false)
	}
}

// dates and times with long fractions, and the ends of every month of years that are leap years or not.
func H_C22_monthends() {
	y := []string{"1900", "2000", "2023", "2024", "0004", "2100", "9999", "0000"}[sym.Choose("y", 8)]
	m := 1 + sym.Choose("m", 12)
	d := 28 + sym.Choose("d", 5)
	last := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y == "2000" || y == "2024" || y == "0004" || y == "0000") {
		last = 29
	}
	mm := itoa(m)
	if m < 10 {
		mm = "0" + mm
	}
	s := y + "-" + mm + "-" + itoa(d)
	if sym.Choose("time", 2) == 1 {
		formatted("date-time", s+"T10:00:00."+strings.Repeat("7", 1+sym.Choose("f", 3)*20)+"Z", d <= last)
		return
	}
	formatted("date", s, d <= last)
}

// a taken URL or identifier is refused whatever drafts the first and the second schema name, also when they are equal, empty or boolean.
func H_C23_takendraft() {
	sym.SetHTTP(nil)
	doc := func(n string, key string, u string, min string) interface{} {
		d := allDrafts[sym.Choose(n, 4)]
		s := M{"minimum": N(min)}
		if d != 0 {
			s["$schema"] = draftURL[d] + "#"
		}
		if key != "" {
			if d == 4 {
				key = "id"
			}
			s[key] = u
		}
		return s
	}
	u := "http://x.test/a.json"
	add := func(sl *gjs.SchemaLoader, n, min string) error {
		if sym.Choose(n+".how", 2) == 0 {
			return sl.AddSchema(u, gjs.NewRawLoader(doc(n, "", "", min)))
		}
		return sl.AddSchemas(gjs.NewRawLoader(doc(n, "$id", u, min)))
	}
	sl := gjs.NewSchemaLoader()
	sym.Assert(add(sl, "first", "3") == nil, "the first schema is added")
	second := "5"
	if sym.Choose("same", 2) == 1 {
		second = "3"
	}
	sym.Assert(add(sl, "second", second) != nil, "a taken URL is refused")
	sch, err := sl.Compile(gjs.NewRawLoader(M{"$ref": u}))
	if err != nil {
		sym.Assert(false, "Compile: "+err.Error())
	}
	v := A{N("2"), N("4"), N("6")}[sym.Choose("v", 3)]
	sym.Assert(run(sch, v).Valid() == ref.Valid(M{"minimum": N("3")}, v), "the first schema stays")
}
