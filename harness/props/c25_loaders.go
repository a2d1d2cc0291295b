package props

import (
	"bytes"
	"io"
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// source gives the JSON text (of the value v) through one of the loaders.
func source(kind int, text string, v interface{}) gjs.JSONLoader {
	switch kind {
	case 0:
		return gjs.NewStringLoader(text)
	case 1:
		return gjs.NewBytesLoader([]byte(text))
	case 2:
		l, r := gjs.NewReaderLoader(strings.NewReader(text))
		got, err := io.ReadAll(r)
		sym.Assert(err == nil && string(got) == text, "the reader of a loader passes the text on")
		return l
	case 3:
		var out bytes.Buffer
		l, w := gjs.NewWriterLoader(&out)
		half := len(text) / 2
		_, _ = io.WriteString(w, text[:half])
		_, _ = io.WriteString(w, text[half:])
		sym.Assert(out.String() == text, "the writer of a loader passes the text on")
		return l
	case 4:
		return gjs.NewGoLoader(v)
	}
	return gjs.NewRawLoader(v)
}

// loaded asserts that a loader gives exactly the value v.
func loaded(l gjs.JSONLoader, v interface{}, msg string) {
	got, err := l.LoadJSON()
	sym.Assert(err == nil, msg+": a JSON text is refused")
	sym.Assert(ref.Equal(got, v), msg+": the loaded value differs from the text")
}

// H_C25_value: any value of nesting 1 (width 2) through every loader is loaded as that value.
func H_C25_value() {
	v := anyVal("v", 1, 2)
	loaded(source(sym.Choose("kind", 6), ref.Text(v), v), v, "value")
}

// H_C25_numbers: numbers of any notation and length keep their exact value through every loader.
func H_C25_numbers() {
	n := oneNum("n", "d", "-n", "nd.dd", "-0.0d", "nde1", "nE-2", "ne+d", "900719925474099n", "n23456789012345678901234567890.d", "1e40d", "-0", "0.1000000000000000000d")
	kind := sym.Choose("kind", 6)
	var v interface{} = n
	if sym.Choose("in", 2) == 1 {
		v = A{M{"a": n}}
	}
	got, err := source(kind, ref.Text(v), v).LoadJSON()
	sym.Assert(err == nil, "a number is refused")
	if a, ok := got.(A); ok {
		got = a[0].(map[string]interface{})["a"]
	}
	x, ok := got.(jsonNumber)
	sym.Assert(ok, "a number is loaded as a number with its text")
	sym.Assert(ref.Rat(x).Cmp(ref.Rat(n)) == 0, "a loaded number has the value written")
}

// H_C25_decide: the same schema and instance give the same verdict through every pair of loaders.
func H_C25_decide() {
	lo, v := num("lo", "d"), num("v", "d")
	s := M{"properties": M{"a": M{"minimum": lo, "type": "integer"}}, "required": A{"a"}}
	i := M{"a": v}
	want := ref.Valid(s, i)
	sl, vl := source(sym.Choose("schema", 6), ref.Text(s), ref.Clone(s)), source(sym.Choose("instance", 6), ref.Text(i), i)
	var r *gjs.Result
	var err error
	if sym.Choose("call", 2) == 0 {
		r, err = gjs.Validate(sl, vl)
	} else {
		var sch *gjs.Schema
		sch, err = gjs.NewSchema(sl)
		sym.Assert(err == nil, "a schema is refused")
		r, err = sch.Validate(vl)
	}
	sym.Assert(err == nil, "an instance is refused")
	sym.Assert(r.Valid() == want, "the verdict depends on the loaders")
}

// H_C25_text: every text of up to 4 characters (thorough 6) out of JSON's own is loaded as the value it
// denotes, or refused if it denotes none, as a string, bytes, and content of a file or response.
func H_C25_text() {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	t := strOf("t", n, "{}[]\",: 10-.e")
	want, ok := ref.ParseJSON(t)
	var got interface{}
	var err error
	switch sym.Choose("kind", 2) {
	case 0:
		got, err = gjs.NewStringLoader(t).LoadJSON()
	default:
		got, err = gjs.NewBytesLoader([]byte(t)).LoadJSON()
	}
	sym.Observe("ok", ok)
	if !ok {
		sym.Cover("no JSON")
		sym.Assert(err != nil, "a text that is no JSON is accepted")
		return
	}
	sym.Cover("JSON")
	sym.Assert(err == nil, "a JSON text is refused")
	sym.Assert(ref.Equal(got, want), "a JSON text is loaded as another value")
}

// H_C25_broken: a JSON text with one character removed, replaced by any ASCII character, or added.
func H_C25_broken() {
	t := `{"a":[1,{"b":null}],"c":"x"}`
	k := sym.Choose("k", len(t))
	switch sym.Choose("how", 3) {
	case 0:
		t = t[:k] + t[k+1:]
	case 1:
		t = t[:k] + sym.Str("x", 1, " -[]-~") + t[k+1:]
	default:
		t = t[:k] + sym.Str("x", 1, " -[]-~") + t[k:]
	}
	want, ok := ref.ParseJSON(t)
	got, err := gjs.NewStringLoader(t).LoadJSON()
	sym.Observe("ok", ok)
	if !ok {
		sym.Cover("no JSON")
		sym.Assert(err != nil, "a text that is no JSON is accepted")
		return
	}
	sym.Cover("JSON")
	sym.Assert(err == nil, "a JSON text is refused")
	sym.Assert(ref.Equal(got, want), "a JSON text is loaded as another value")
}

// H_C25_trailing: anything but white space behind a document makes it no JSON text, for strings,
// bytes, files and responses.
func H_C25_trailing() {
	doc := []string{`{}`, `{"minimum":1}`, `true`, `1`, `"a"`, `[]`, `null`}[sym.Choose("doc", 7)]
	tail := strOf("tail", 2, " \n\t\r{}]1,x\x00\"")
	t := doc + tail
	_, ok := ref.ParseJSON(t)
	var err error
	switch sym.Choose("kind", 4) {
	case 0:
		_, err = gjs.NewStringLoader(t).LoadJSON()
	case 1:
		_, err = gjs.NewBytesLoader([]byte(t)).LoadJSON()
	case 2:
		serve(map[string]string{"http://x.test/d": t})
		_, err = gjs.NewReferenceLoader("http://x.test/d").LoadJSON()
	default:
		_, err = gjs.NewReferenceLoaderFileSystem("file:///d", &memFS{files: map[string]string{"/d": t}}).LoadJSON()
	}
	if ok {
		sym.Cover("JSON")
	} else {
		sym.Cover("no JSON")
	}
	sym.Assert((err == nil) == ok, "a source is accepted exactly if it is one JSON text")
}

// H_C25_space: white space between the tokens changes nothing.
func H_C25_space() {
	n, lo := num("n", "d"), num("lo", "d")
	w := func(name string) string { return strOf(name, 1, " \n\t\r") }
	t := w("a") + "{" + w("b") + `"a"` + w("c") + ":" + w("d") + string(n) + w("e") + "}" + w("f")
	r, err := gjs.Validate(gjs.NewStringLoader(`{"properties":{"a":{"minimum":`+string(lo)+`}}}`), gjs.NewStringLoader(t))
	sym.Assert(err == nil, "white space")
	sym.Assert(r.Valid() == ref.Valid(M{"minimum": lo}, n), "white space")
}

// H_C25_escapes: escaped and literal characters in texts denote the same string.
func H_C25_escapes() {
	type c struct{ text, want string }
	cs := []c{{`A`, "A"}, {`\u0041`, "A"}, {`\u00e9`, "é"}, {`é`, "é"}, {`\ud83d\ude00`, "😀"}, {`😀`, "😀"}, {`\n`, "\n"}, {`\/`, "/"}, {`\"`, `"`}, {`\\`, `\`}, {`\t`, "\t"}, {`\u0000`, "\x00"}, {`<`, "<"}, {`&`, "&"}, {`\u2028`, "\u2028"}}
	x := cs[sym.Choose("c", len(cs))]
	text := `{"k` + x.text + `":"` + x.text + `"}`
	v := M{"k" + x.want: x.want}
	kind := sym.Choose("kind", 6)
	loaded(source(kind, text, v), v, "escapes")
	sch, err := gjs.NewSchema(source(kind, `{"enum":["`+x.text+`"],"minLength":1,"maxLength":1}`, M{"enum": A{x.want}, "minLength": N("1"), "maxLength": N("1")}))
	sym.Assert(err == nil, "a schema is refused")
	sym.Assert(run(sch, x.want).Valid(), "escapes: the equal string is accepted")
	sym.Assert(!run(sch, x.want+"x").Valid(), "escapes: another string is refused")
}

type goPart struct {
	N    int     `json:"n"`
	F    float64 `json:"f"`
	Skip string  `json:"-"`
	Omit string  `json:"o,omitempty"`
	List []uint8 `json:"-"`
}

type goDoc struct {
	N     int              `json:"n"`
	F     float64          `json:"f"`
	Skip  string           `json:"-"`
	Omit  string           `json:"o,omitempty"`
	P     *goPart          `json:"p"`
	Names []string         `json:"names"`
	M     map[string]int64 `json:"m"`
	Any   interface{}      `json:"any"`
}

// H_C25_go: Go values (structs with tags, pointers, maps, slices, integers of any size, floats) are
// decided like the JSON they marshal to.
func H_C25_go() {
	n := sym.Int("n", 0, 18) - 9
	o := []string{"", "x"}[sym.Choose("o", 2)]
	d := goDoc{N: n, F: 2.5, Skip: "s", Omit: o, M: map[string]int64{"k": 9007199254740993}}
	want := M{"n": N(itoa(pick2(n))), "f": N("2.5"), "p": nil, "names": nil, "m": M{"k": N("9007199254740993")}, "any": nil}
	if o != "" {
		want["o"] = o
	}
	if sym.Choose("p", 2) == 1 {
		d.P = &goPart{N: 7}
		want["p"] = M{"n": N("7"), "f": N("0")}
	}
	if sym.Choose("names", 2) == 1 {
		d.Names = []string{"a", "b"}
		want["names"] = A{"a", "b"}
	}
	switch sym.Choose("any", 3) {
	case 1:
		d.Any = []interface{}{1, "x", nil, true}
		want["any"] = A{N("1"), "x", nil, true}
	case 2:
		d.Any = map[string]interface{}{"z": 1.0}
		want["any"] = M{"z": N("1")}
	}
	var l gjs.JSONLoader
	if sym.Choose("ptr", 2) == 1 {
		l = gjs.NewGoLoader(&d)
	} else {
		l = gjs.NewGoLoader(d)
	}
	loaded(l, want, "Go value")
}

func pick2(n int) int {
	for k := -9; k < 9; k++ {
		if n == k {
			return k
		}
	}
	return 9
}

// H_C25_gobad: a Go value that has no JSON form is refused, as schema and as instance.
func H_C25_gobad() {
	var v interface{}
	switch sym.Choose("v", 4) {
	case 0:
		v = make(chan int)
	case 1:
		v = func() {}
	case 2:
		v = map[string]interface{}{"a": make(chan int)}
	default:
		v = []interface{}{complex(1, 2)}
	}
	if sym.Choose("schema", 2) == 1 {
		_, err := gjs.NewSchema(gjs.NewGoLoader(v))
		sym.Assert(err != nil, "a Go value without a JSON form is refused")
		return
	}
	_, err := compile(M{}).Validate(gjs.NewGoLoader(v))
	sym.Assert(err != nil, "a Go value without a JSON form is refused")
}

// H_C25_twice: a loader for a string, bytes, a Go value or a raw value can be used again and again,
// and does not change what it was given.
func H_C25_twice() {
	v := num("v", "d")
	text := `{"a":` + string(v) + `}`
	b := []byte(text)
	var l gjs.JSONLoader
	switch sym.Choose("kind", 4) {
	case 0:
		l = gjs.NewStringLoader(text)
	case 1:
		l = gjs.NewBytesLoader(b)
	case 2:
		l = gjs.NewGoLoader(M{"a": v})
	default:
		l = gjs.NewRawLoader(M{"a": v})
	}
	lo := num("lo", "d")
	sch := compile(M{"properties": M{"a": M{"minimum": lo}}})
	for k := 0; k < 2; k++ {
		r, err := sch.Validate(l)
		sym.Assert(err == nil, "a loader is used again")
		sym.Assert(r.Valid() == ref.Valid(M{"minimum": lo}, v), "a loader is used again")
	}
	sym.Assert(string(b) == text, "the bytes given are left alone")
}
