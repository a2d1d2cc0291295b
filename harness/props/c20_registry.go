package props

import (
	"encoding/json"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// eqChecker accepts exactly one string, and everything that is not a string.
type eqChecker string

func (c eqChecker) IsFormat(v interface{}) bool {
	s, ok := v.(string)
	return !ok || s == string(c)
}

// kindChecker records what it was given and accepts numbers only.
type kindChecker struct {
	seen  *[]interface{}
	calls *int
}

func (c kindChecker) IsFormat(v interface{}) bool {
	*c.seen = append(*c.seen, v)
	*c.calls++
	_, ok := v.(json.Number)
	return ok
}

// H_C20_custom: a checker added under any two-letter name decides exactly the values of
// that format, below every parent, whatever letters the instance has.
func H_C20_custom() {
	name := sym.Str("name", 2, "x-zX")
	used := sym.Str("used", 2, "x-zX")
	want := sym.Str("want", 2, "a-cA")
	gjs.FormatCheckers.Add(name, eqChecker(want))
	s, v := M{"format": used}, sym.Str("v", 2, "a-cA")
	ws, wv := wrap("parent", s, v)
	r := run(compile(ws), wv)
	gjs.FormatCheckers.Remove(name)
	sym.Assert(r.Valid() == (name != used || v == want), "a custom format decides wrongly")
}

// H_C20_kinds: a checker is called once with the very value, of any type, and its verdict counts.
func H_C20_kinds() {
	var seen []interface{}
	calls := 0
	gjs.FormatCheckers.Add("verif-kind", kindChecker{&seen, &calls})
	v := anyVal("v", 1, 1)
	r := run(compile(M{"format": "verif-kind"}), v)
	gjs.FormatCheckers.Remove("verif-kind")
	sym.Assert(calls >= 1 && len(seen) == calls, "the checker is not called")
	for _, x := range seen {
		sym.Assert(sameText(x, v), "the checker is given another value")
	}
	_, isNum := v.(json.Number)
	sym.Assert(r.Valid() == isNum, "the verdict of the checker does not count")
	if !r.Valid() {
		e := r.Errors()
		sym.Assert(len(e) == 1 && e[0].Type() == "format" && e[0].Details()["format"] == "verif-kind", "the failing format is not reported")
	}
}

// H_C20_history: any sequence of 3 operations (add one of two checkers, remove) on two names:
// the registry and validation follow the last one.
func H_C20_history() {
	names := []string{"verif-a", "verif-b"}
	accept := map[string]string{}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for k := 0; k < n; k++ {
		name := names[sym.Choose("name", 2)]
		switch sym.Choose("op", 3) {
		case 0:
			gjs.FormatCheckers.Add(name, eqChecker("x"))
			accept[name] = "x"
		case 1:
			gjs.FormatCheckers.Add(name, eqChecker("y"))
			accept[name] = "y"
		default:
			gjs.FormatCheckers.Remove(name)
			delete(accept, name)
		}
	}
	sch := compile(M{"items": A{M{"format": "verif-a"}, M{"format": "verif-b"}}})
	v := A{sym.Str("v", 1, "x-z"), sym.Str("w", 1, "x-z")}
	r := run(sch, v)
	ok := true
	has := true
	for k, name := range names {
		want, is := accept[name]
		has = has && gjs.FormatCheckers.Has(name) == is
		ok = sym.And(ok, sym.Or(!is, v[k].(string) == want))
	}
	for _, name := range names {
		gjs.FormatCheckers.Remove(name)
	}
	sym.Assert(has, "Has does not tell which formats are registered")
	sym.Assert(r.Valid() == ok, "validation does not follow the registry")
}

// H_C20_after: a format registered or removed after a schema was compiled counts from then on.
func H_C20_after() {
	sch := compile(M{"format": "verif-late"})
	v := sym.Str("v", 1, "x-z")
	before := run(sch, v).Valid()
	gjs.FormatCheckers.Add("verif-late", eqChecker("x"))
	during := run(sch, v).Valid()
	gjs.FormatCheckers.Remove("verif-late")
	after := run(sch, v).Valid()
	sym.Assert(before && after, "an unregistered format rejects")
	sym.Assert(during == (v == "x"), "a format registered after compilation is ignored")
}

// H_C20_unknown: a format nobody registered (any text of up to 3 letters, also names that
// resemble a known one) accepts every value.
func H_C20_unknown() {
	f := strOf("f", 3, "a-zA-Z0-9")
	if sym.Choose("like", 2) == 1 {
		f = []string{"IPv4", "ipv4 ", "Date", "date-Time", "ip-address", "color", "URI", "host-name", "phone", "idn-hostname", "uuid4", ""}[sym.Choose("name", 12)]
	} else {
		sym.Assume(f != "uri" && f != "iri")
	}
	sym.Assert(run(compile(M{"format": f}), anyVal("v", 1, 1)).Valid(), "an unknown format rejects a value")
}

var builtin = []string{"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex",
	"json-pointer", "relative-json-pointer"}

// H_C20_nonstring: every built-in format accepts every value that is not a string, also
// next to a string that fails it.
func H_C20_nonstring() {
	f := builtin[sym.Choose("f", len(builtin))]
	sym.Assert(gjs.FormatCheckers.Has(f), "a documented format is not registered: "+f)
	var v interface{}
	switch sym.Choose("kind", 5) {
	case 0:
		v = nil
	case 1:
		v = sym.Bool("b")
	case 2:
		v = oneNum("n", "d", "-n", "d.d", "nd")
	case 3:
		v = A{"not a " + f, "((", " "}
	default:
		v = M{"((": "((", "x": sym.Str("s", 1, "a-cA")}
	}
	sym.Assert(run(compile(M{"format": f}), v).Valid(), "format "+f+" rejects a value that is not a string")
}

// H_C20_replace: a built-in format can be replaced and removed, and restored.
func H_C20_replace() {
	f := builtin[sym.Choose("f", len(builtin))]
	sch := compile(M{"format": f})
	v := sym.Str("v", 1, "(*")
	var old gjs.FormatChecker
	switch f {
	case "date":
		old = gjs.DateFormatChecker{}
	case "time":
		old = gjs.TimeFormatChecker{}
	case "date-time":
		old = gjs.DateTimeFormatChecker{}
	case "hostname":
		old = gjs.HostnameFormatChecker{}
	case "email", "idn-email":
		old = gjs.EmailFormatChecker{}
	case "ipv4":
		old = gjs.IPV4FormatChecker{}
	case "ipv6":
		old = gjs.IPV6FormatChecker{}
	case "uri", "iri":
		old = gjs.URIFormatChecker{}
	case "uri-reference", "iri-reference":
		old = gjs.URIReferenceFormatChecker{}
	case "uri-template":
		old = gjs.URITemplateFormatChecker{}
	case "uuid":
		old = gjs.UUIDFormatChecker{}
	case "regex":
		old = gjs.RegexFormatChecker{}
	case "json-pointer":
		old = gjs.JSONPointerFormatChecker{}
	default:
		old = gjs.RelativeJSONPointerFormatChecker{}
	}
	gjs.FormatCheckers.Add(f, eqChecker("("))
	replaced := run(sch, v).Valid()
	gjs.FormatCheckers.Remove(f)
	removed := run(sch, v).Valid()
	has := gjs.FormatCheckers.Has(f)
	gjs.FormatCheckers.Add(f, old)
	sym.Assert(replaced == (v == "("), "a replaced format decides wrongly")
	sym.Assert(removed && !has, "a removed format still decides")
	if f != "uri-reference" && f != "iri-reference" && f != "uri-template" && f != "email" {
		sym.Assert(!run(sch, "((").Valid(), "a restored format does not decide")
	}
}

// H_C20_malformed: "format" must be a string, at any place.
func H_C20_malformed() {
	f := anyVal("f", 1, 1)
	_, is := f.(string)
	s, _ := wrap("parent", M{"format": f}, nil)
	_, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(s)))
	sym.Assert((err == nil) == is, "a format that is no string compiles, or one that is does not")
}
