package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- encoding/json ----

// fromJSON converts a natively decoded tree into interpreter values.
func (i *Interp) fromJSON(x interface{}) iface {
	switch x := x.(type) {
	case nil:
		return iface{}
	case bool:
		return iface{i.P.tBool, x}
	case string:
		return iface{i.P.tString, x}
	case json.Number:
		return iface{i.P.jsonNum, string(x)}
	case float64:
		return iface{i.P.tF64, x}
	case []interface{}:
		s := make([]value, len(x))
		for k, e := range x {
			s[k] = i.fromJSON(e)
		}
		return iface{i.P.sliceI, s}
	case map[string]interface{}:
		m := i.newMap(i.P.tString)
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			i.mapSet(m, k, i.fromJSON(x[k]))
		}
		return iface{i.P.mapSI, m}
	}
	panic(unsupported("fromJSON %T", x))
}

type jsonErr struct{ msg string }

// symbolic JSON parser
type jparser struct {
	i      *Interp
	b      []*Term
	p      int
	num    bool // UseNumber
	err    string
	ndepth int
}

func (j *jparser) fail(msg string) { panic(jsonErr{msg}) }

func (j *jparser) is(k int, c byte) bool {
	return k < len(j.b) && j.i.decide(j.i.bank.Eq(j.b[k], j.i.bank.Const(8, uint64(c))))
}

func (j *jparser) in(k int, set string) bool {
	if k >= len(j.b) {
		return false
	}
	B := j.i.bank
	r := B.False
	for n := 0; n < len(set); n++ {
		r = B.Or(r, B.Eq(j.b[k], B.Const(8, uint64(set[n]))))
	}
	return j.i.decide(r)
}

func (j *jparser) rng(k int, lo, hi byte) bool {
	if k >= len(j.b) {
		return false
	}
	B := j.i.bank
	return j.i.decide(B.And(B.ULe(B.Const(8, uint64(lo)), j.b[k]), B.ULe(j.b[k], B.Const(8, uint64(hi)))))
}

func (j *jparser) ws() {
	for j.in(j.p, " \t\r\n") {
		j.p++
	}
}

func (j *jparser) lit(s string) {
	for n := 0; n < len(s); n++ {
		if j.p >= len(j.b) {
			j.fail("unexpected EOF")
		}
		if !j.is(j.p, s[n]) {
			j.fail("invalid character in literal " + s)
		}
		j.p++
	}
}

func (j *jparser) value() iface {
	j.ndepth++
	if j.ndepth > 10000 {
		j.fail("exceeded max depth")
	}
	defer func() { j.ndepth-- }()
	j.ws()
	if j.p >= len(j.b) {
		j.fail("unexpected EOF")
	}
	i := j.i
	switch {
	case j.is(j.p, '{'):
		j.p++
		m := i.newMap(i.P.tString)
		j.ws()
		if j.is(j.p, '}') {
			j.p++
			return iface{i.P.mapSI, m}
		}
		for {
			j.ws()
			if !j.is(j.p, '"') {
				if j.p >= len(j.b) {
					j.fail("unexpected EOF")
				}
				j.fail("invalid character looking for beginning of object key string")
			}
			k := j.str()
			j.ws()
			if j.p >= len(j.b) {
				j.fail("unexpected EOF")
			}
			if !j.is(j.p, ':') {
				j.fail("invalid character after object key")
			}
			j.p++
			v := j.value()
			i.mapSet(m, k, v)
			j.ws()
			if j.is(j.p, ',') {
				j.p++
				continue
			}
			if j.is(j.p, '}') {
				j.p++
				return iface{i.P.mapSI, m}
			}
			if j.p >= len(j.b) {
				j.fail("unexpected EOF")
			}
			j.fail("invalid character after object key:value pair")
		}
	case j.is(j.p, '['):
		j.p++
		s := []value{}
		j.ws()
		if j.is(j.p, ']') {
			j.p++
			return iface{i.P.sliceI, s}
		}
		for {
			s = append(s, j.value())
			j.ws()
			if j.is(j.p, ',') {
				j.p++
				continue
			}
			if j.is(j.p, ']') {
				j.p++
				return iface{i.P.sliceI, s}
			}
			if j.p >= len(j.b) {
				j.fail("unexpected EOF")
			}
			j.fail("invalid character after array element")
		}
	case j.is(j.p, '"'):
		return iface{i.P.tString, j.str()}
	case j.is(j.p, 't'):
		j.lit("true")
		return iface{i.P.tBool, true}
	case j.is(j.p, 'f'):
		j.lit("false")
		return iface{i.P.tBool, false}
	case j.is(j.p, 'n'):
		j.lit("null")
		return iface{}
	}
	st := j.p
	if j.is(j.p, '-') {
		j.p++
	}
	if j.p >= len(j.b) {
		j.fail("unexpected EOF")
	}
	switch {
	case j.is(j.p, '0'):
		j.p++
	case j.rng(j.p, '1', '9'):
		for j.rng(j.p, '0', '9') {
			j.p++
		}
	default:
		j.fail("invalid character looking for beginning of value")
	}
	if j.is(j.p, '.') {
		j.p++
		if !j.rng(j.p, '0', '9') {
			j.fail("invalid number")
		}
		for j.rng(j.p, '0', '9') {
			j.p++
		}
	}
	if j.in(j.p, "eE") {
		j.p++
		if j.in(j.p, "+-") {
			j.p++
		}
		if !j.rng(j.p, '0', '9') {
			j.fail("invalid number")
		}
		for j.rng(j.p, '0', '9') {
			j.p++
		}
	}
	txt := i.mkStr(append([]*Term{}, j.b[st:j.p]...))
	if j.num {
		return iface{i.P.jsonNum, txt}
	}
	f, err := strconv.ParseFloat(i.concStr(txt), 64)
	if err != nil {
		j.fail("json: cannot unmarshal number into Go value of type float64")
	}
	return iface{i.P.tF64, f}
}

func (j *jparser) hex4(k int) int {
	r := 0
	for n := 0; n < 4; n++ {
		if k+n >= len(j.b) {
			j.fail("unexpected EOF")
		}
		c := byte(j.i.concretize(j.b[k+n]))
		v, err := strconv.ParseUint(string(rune(c)), 16, 8)
		if err != nil {
			j.fail("invalid character in \\u hexadecimal character escape")
		}
		r = r*16 + int(v)
	}
	return r
}

func (j *jparser) str() value {
	i := j.i
	B := i.bank
	j.p++
	var out []*Term
	for {
		if j.p >= len(j.b) {
			j.fail("unexpected EOF")
		}
		t := j.b[j.p]
		if j.is(j.p, '"') {
			j.p++
			return i.mkStr(out)
		}
		if j.is(j.p, '\\') {
			j.p++
			if j.p >= len(j.b) {
				j.fail("unexpected EOF")
			}
			c := byte(i.concretize(j.b[j.p]))
			j.p++
			switch c {
			case '"', '\\', '/':
				out = append(out, B.bytes[c])
			case 'b':
				out = append(out, B.bytes['\b'])
			case 'f':
				out = append(out, B.bytes['\f'])
			case 'n':
				out = append(out, B.bytes['\n'])
			case 'r':
				out = append(out, B.bytes['\r'])
			case 't':
				out = append(out, B.bytes['\t'])
			case 'u':
				r := rune(j.hex4(j.p))
				j.p += 4
				if r >= 0xD800 && r < 0xE000 {
					ok := false
					if r < 0xDC00 && j.is(j.p, '\\') && j.is(j.p+1, 'u') {
						r2 := rune(j.hex4(j.p + 2))
						if r2 >= 0xDC00 && r2 < 0xE000 {
							r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
							j.p += 6
							ok = true
						}
					}
					if !ok {
						r = 0xFFFD
					}
				}
				out = append(out, i.strTerms(string(r))...)
			default:
				j.fail("invalid character in string escape code")
			}
			continue
		}
		if i.decide(B.ULt(t, B.Const(8, 0x20))) {
			j.fail("invalid character in string literal")
		}
		if i.decide(B.ULt(t, B.Const(8, 0x80))) {
			out = append(out, t)
			j.p++
			continue
		}
		r, n := i.decodeRune(j.b[j.p:])
		if u, ok := r.(uint64); ok && u == 0xFFFD && n == 1 {
			out = append(out, i.strTerms("\uFFFD")...)
		} else {
			out = append(out, j.b[j.p:j.p+n]...)
		}
		j.p += n
	}
}

// jsonParse parses one JSON value from b; rest is the position after it.
func (i *Interp) jsonParse(b []*Term, useNumber bool) (v iface, rest int, err string) {
	conc := true
	for _, t := range b {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc {
		buf := make([]byte, len(b))
		for k, t := range b {
			buf[k] = byte(t.u)
		}
		d := json.NewDecoder(bytes.NewReader(buf))
		if useNumber {
			d.UseNumber()
		}
		var x interface{}
		if e := d.Decode(&x); e != nil {
			if e == io.EOF {
				return iface{}, 0, "EOF"
			}
			return iface{}, 0, e.Error()
		}
		return i.fromJSON(x), int(d.InputOffset()), ""
	}
	j := &jparser{i: i, b: b, num: useNumber}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				v, rest, err = iface{}, 0, e.msg
				return
			}
			panic(r)
		}
	}()
	j.ws()
	if j.p >= len(j.b) {
		return iface{}, 0, "EOF"
	}
	v = j.value()
	return v, j.p, ""
}

// jsonStore stores a parsed tree into the pointer target.
func (i *Interp) jsonStore(target iface, v iface) string {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		return "json: Unmarshal(non-pointer)"
	}
	p, _ := target.v.(*value)
	if p == nil {
		return "json: Unmarshal(nil)"
	}
	r, msg := i.jsonConv(pt.Elem(), v)
	if msg != "" {
		return msg
	}
	if i.mon != nil {
		i.mon.write(i, p)
	}
	storeInto(p, r)
	return ""
}

func (i *Interp) jsonConv(t types.Type, v iface) (value, string) {
	bad := func() (value, string) {
		have := "null"
		if v.t != nil {
			switch v.t {
			case i.P.mapSI:
				have = "object"
			case i.P.sliceI:
				have = "array"
			case i.P.tString:
				have = "string"
			case i.P.tBool:
				have = "bool"
			default:
				have = "number"
			}
		}
		return nil, "json: cannot unmarshal " + have + " into Go value of type " + typeStr(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return v, ""
	case *types.Map:
		if v.t == nil {
			return (*mapV)(nil), ""
		}
		m, ok := v.v.(*mapV)
		if !ok || v.t != i.P.mapSI {
			return bad()
		}
		r := i.newMap(u.Key())
		for _, e := range m.ents {
			x, msg := i.jsonConv(u.Elem(), i.asIface(e.v))
			if msg != "" {
				return nil, msg
			}
			i.mapSet(r, e.k, x)
		}
		return r, ""
	case *types.Slice:
		if v.t == nil {
			return []value(nil), ""
		}
		s, ok := v.v.([]value)
		if !ok || v.t != i.P.sliceI {
			return bad()
		}
		r := make([]value, len(s))
		for k := range s {
			x, msg := i.jsonConv(u.Elem(), i.asIface(s[k]))
			if msg != "" {
				return nil, msg
			}
			r[k] = x
		}
		return r, ""
	case *types.Basic:
		if v.t == nil {
			return zero(t), ""
		}
		if u.Info()&types.IsString != 0 && (v.t == i.P.tString || (canon(t) == i.P.jsonNum && v.t == i.P.jsonNum)) {
			return v.v, ""
		}
		if u.Info()&types.IsBoolean != 0 && v.t == i.P.tBool {
			return v.v, ""
		}
		if u.Info()&types.IsNumeric != 0 {
			var f float64
			switch x := v.v.(type) {
			case float64:
				f = x
			case string:
				if v.t != i.P.jsonNum {
					return bad()
				}
				f, _ = strconv.ParseFloat(x, 64)
			case *SymStr:
				if v.t != i.P.jsonNum {
					return bad()
				}
				f, _ = strconv.ParseFloat(i.concStr(x), 64)
			default:
				return bad()
			}
			if u.Info()&types.IsFloat != 0 {
				return f, ""
			}
			if f != math.Trunc(f) {
				return bad()
			}
			return uint64(int64(f)), ""
		}
		return bad()
	case *types.Pointer:
		if v.t == nil {
			return (*value)(nil), ""
		}
		x, msg := i.jsonConv(u.Elem(), v)
		if msg != "" {
			return nil, msg
		}
		return newCell(x), ""
	}
	panic(unsupported("json decode into %s", t))
}

// jsonEnc appends the encoding of v.
func (i *Interp) jsonEnc(out []*Term, v iface, escHTML bool, depth int) ([]*Term, string) {
	S := func(s string) []*Term { return append(out, i.strTerms(s)...) }
	if depth > 1000 {
		panic(pathAbort{"depth", "json encoding depth"})
	}
	if v.t == nil {
		return S("null"), ""
	}
	if v.t == i.P.jsonNum {
		if s, ok := v.v.(string); ok {
			if s == "" {
				return S("0"), ""
			}
			if !json.Valid([]byte(s)) || !(s[0] == '-' || (s[0] >= '0' && s[0] <= '9')) {
				return nil, "json: invalid number literal " + strconv.Quote(s)
			}
			return S(s), ""
		}
		j := &jparser{i: i, b: i.strTerms(v.v), num: true}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(jsonErr); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			r := j.value()
			return j.p == len(j.b) && r.t == i.P.jsonNum
		}()
		if !ok {
			return nil, "json: invalid number literal"
		}
		return append(out, i.strTerms(v.v)...), ""
	}
	if fn := i.findMethod(v.t, "MarshalJSON"); fn != nil {
		if p, ok := v.v.(*value); ok && p == nil {
			return S("null"), ""
		}
		r := i.callFn(nil, fn, []value{v.v}, nil).(tuple)
		if e := i.asIface(r[1]); e.t != nil {
			return nil, "json: error calling MarshalJSON"
		}
		b := i.bytesOf(r[0])
		_, p, e := i.jsonParse(b, true)
		if e != "" {
			return nil, "json: error calling MarshalJSON: " + e
		}
		j := &jparser{i: i, b: b, p: p}
		if j.ws(); j.p != len(b) {
			return nil, "json: error calling MarshalJSON: invalid character after top-level value"
		}
		return append(out, b...), ""
	}
	if s, ok := i.bigText(v, 's', ""); ok {
		// math/big types marshal through MarshalJSON/MarshalText
		return append(out, i.strTerms(s)...), ""
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return i.jsonEncStr(out, v.v, escHTML), ""
		case u.Info()&types.IsBoolean != 0:
			if i.truth(v.v) {
				return S("true"), ""
			}
			return S("false"), ""
		case u.Info()&types.IsInteger != 0:
			_, sg, _ := intInfo(u)
			n := i.concIntS(v.v, sg)
			if sg {
				return S(strconv.FormatInt(int64(n), 10)), ""
			}
			return S(strconv.FormatUint(n, 10)), ""
		case u.Info()&types.IsFloat != 0:
			b, e := json.Marshal(i.float(v.v))
			if e != nil {
				return nil, e.Error()
			}
			return S(string(b)), ""
		}
	case *types.Interface:
		return i.jsonEnc(out, i.asIface(v.v), escHTML, depth+1)
	case *types.Pointer:
		p, _ := v.v.(*value)
		if p == nil {
			return S("null"), ""
		}
		return i.jsonEnc(out, i.mkIface(u.Elem(), *p), escHTML, depth+1)
	case *types.Slice:
		s := v.v.([]value)
		if s == nil {
			return S("null"), ""
		}
		if w, _, _ := intInfo(u.Elem()); w == 8 {
			return S("\"" + base64.StdEncoding.EncodeToString([]byte(i.concStr(i.bytesToStr(s)))) + "\""), ""
		}
		out = S("[")
		var e string
		for k := range s {
			if k > 0 {
				out = append(out, i.bank.bytes[','])
			}
			out, e = i.jsonEnc(out, i.mkIface(u.Elem(), s[k]), escHTML, depth+1)
			if e != "" {
				return nil, e
			}
		}
		return append(out, i.bank.bytes[']']), ""
	case *types.Array:
		s := v.v.(arrayV)
		out = S("[")
		var e string
		for k := range s {
			if k > 0 {
				out = append(out, i.bank.bytes[','])
			}
			out, e = i.jsonEnc(out, i.mkIface(u.Elem(), s[k]), escHTML, depth+1)
			if e != "" {
				return nil, e
			}
		}
		return append(out, i.bank.bytes[']']), ""
	case *types.Map:
		m := v.v.(*mapV)
		if m == nil {
			return S("null"), ""
		}
		kb := basicClass(u.Key())
		if kb != 3 && kb != 1 {
			return nil, "json: unsupported type: " + typeStr(v.t)
		}
		type kv struct {
			k value
			v value
		}
		var l []kv
		if i.mon != nil {
			i.mon.read(i, &m.cell)
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			k := e.k
			if kb == 1 {
				k = strconv.FormatInt(int64(i.concIntS(k, true)), 10)
			}
			l = append(l, kv{k, e.v})
		}
		for a := 1; a < len(l); a++ {
			for b := a; b > 0 && i.truth(i.strLess(l[b].k, l[b-1].k)); b-- {
				l[b], l[b-1] = l[b-1], l[b]
			}
		}
		out = S("{")
		var e string
		for k, x := range l {
			if k > 0 {
				out = append(out, i.bank.bytes[','])
			}
			out = i.jsonEncStr(out, x.k, escHTML)
			out = append(out, i.bank.bytes[':'])
			out, e = i.jsonEnc(out, i.mkIface(u.Elem(), x.v), escHTML, depth+1)
			if e != "" {
				return nil, e
			}
		}
		return append(out, i.bank.bytes['}']), ""
	case *types.Struct:
		s, ok := v.v.(structV)
		if !ok {
			break
		}
		out = S("{")
		first := true
		var e string
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			if f.Embedded() {
				panic(unsupported("json of embedded field"))
			}
			if !f.Exported() {
				continue
			}
			name, omit := f.Name(), false
			tag := reflectTag(u.Tag(k), "json")
			if tag == "-" {
				continue
			}
			if tag != "" {
				parts := strings.Split(tag, ",")
				if parts[0] != "" {
					name = parts[0]
				}
				for _, o := range parts[1:] {
					if o == "omitempty" {
						omit = true
					}
				}
			}
			if omit && i.jsonEmpty(s[k]) {
				continue
			}
			if !first {
				out = append(out, i.bank.bytes[','])
			}
			first = false
			out = i.jsonEncStr(out, name, escHTML)
			out = append(out, i.bank.bytes[':'])
			out, e = i.jsonEnc(out, i.mkIface(f.Type(), s[k]), escHTML, depth+1)
			if e != "" {
				return nil, e
			}
		}
		return append(out, i.bank.bytes['}']), ""
	case *types.Signature, *types.Chan:
		return nil, "json: unsupported type: " + typeStr(v.t)
	}
	if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return nil, "json: unsupported type: " + typeStr(v.t)
	}
	panic(unsupported("json encode %s (%T)", v.t, v.v))
}

func reflectTag(tag, key string) string {
	for tag != "" {
		tag = strings.TrimLeft(tag, " ")
		k := strings.Index(tag, ":\"")
		if k < 0 {
			return ""
		}
		name := tag[:k]
		e := strings.IndexByte(tag[k+2:], '"')
		if e < 0 {
			return ""
		}
		val := tag[k+2 : k+2+e]
		if name == key {
			return val
		}
		tag = tag[k+3+e:]
	}
	return ""
}

func (i *Interp) jsonEmpty(v value) bool {
	switch v := v.(type) {
	case bool:
		return !v
	case uint64:
		return v == 0
	case float64:
		return v == 0
	case string:
		return v == ""
	case []value:
		return len(v) == 0
	case *mapV:
		return v == nil || v.n == 0
	case *value:
		return v == nil
	case iface:
		return v.t == nil
	case *lazyIface:
		return i.force(v).t == nil
	case *Term:
		if v.w == 0 {
			return !i.decide(v)
		}
		return i.decide(i.bank.Eq(v, i.bank.Const(v.w, 0)))
	}
	return false
}

func (i *Interp) jsonEncStr(out []*Term, s value, escHTML bool) []*Term {
	if c, ok := s.(string); ok {
		var bb bytes.Buffer
		e := json.NewEncoder(&bb)
		e.SetEscapeHTML(escHTML)
		e.Encode(c)
		return append(out, i.strTerms(strings.TrimSuffix(bb.String(), "\n"))...)
	}
	B := i.bank
	b := s.(*SymStr).b
	c := func(v byte) *Term { return B.bytes[v] }
	plain := func(t *Term) *Term {
		r := B.And(B.ULe(c(0x20), t), B.ULt(t, c(0x80)), B.Not(B.Eq(t, c('"'))), B.Not(B.Eq(t, c('\\'))))
		if escHTML {
			r = B.And(r, B.Not(B.Eq(t, c('<'))), B.Not(B.Eq(t, c('>'))), B.Not(B.Eq(t, c('&'))))
		}
		return r
	}
	all := B.True
	for _, t := range b {
		all = B.And(all, plain(t))
	}
	out = append(out, c('"'))
	if i.decide(all) {
		out = append(out, b...)
		return append(out, c('"'))
	}
	for len(b) > 0 {
		if i.decide(plain(b[0])) {
			out = append(out, b[0])
			b = b[1:]
			continue
		}
		if i.decide(B.ULt(b[0], c(0x80))) {
			ch := byte(i.concretize(b[0]))
			q, _ := json.Marshal(string(rune(ch)))
			if !escHTML {
				var bb bytes.Buffer
				e := json.NewEncoder(&bb)
				e.SetEscapeHTML(false)
				e.Encode(string(rune(ch)))
				q = bytes.TrimSpace(bb.Bytes())
			}
			out = append(out, i.strTerms(string(q[1:len(q)-1]))...)
			b = b[1:]
			continue
		}
		r, n := i.decodeRune(b)
		if u, ok := r.(uint64); ok && u == 0xFFFD && n == 1 {
			out = append(out, i.strTerms("\uFFFD")...)
			b = b[1:]
			continue
		}
		if i.truth(i.equals(nil, r, uint64(0x2028))) {
			out = append(out, i.strTerms("\\u2028")...)
		} else if i.truth(i.equals(nil, r, uint64(0x2029))) {
			out = append(out, i.strTerms("\\u2029")...)
		} else {
			out = append(out, b[:n]...)
		}
		b = b[n:]
	}
	return append(out, c('"'))
}

type decState struct {
	r         value
	useNumber bool
	buf       []*Term
	read      bool
	pos       int
	err       value
}

func (i *Interp) decFill(d *decState) {
	if d.read {
		return
	}
	d.read = true
	f := i.asIface(d.r)
	if f.t == nil {
		i.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := i.findMethod(f.t, "Read")
	if fn == nil {
		panic(unsupported("Read on %s", f.t))
	}
	eof := *i.global(i.P.pkgs["io"].Var("EOF"))
	for n := 0; n < 10000; n++ {
		buf := make([]value, 512)
		for k := range buf {
			buf[k] = uint64(0)
		}
		r := i.callFn(nil, fn, []value{f.v, buf}, nil).(tuple)
		cnt := int(i.concInt(r[0]))
		for _, x := range buf[:cnt] {
			d.buf = append(d.buf, i.byteTerm(x))
		}
		if e := i.asIface(r[1]); e.t != nil {
			if i.truth(i.equals(nil, e, eof)) {
				return
			}
			d.err = e
			return
		}
	}
	panic(pathAbort{"steps", "reader without end"})
}

func (i *Interp) ioErr(name string) value { return *i.global(i.P.pkgs["io"].Var(name)) }

func init() {
	reg("encoding/json.Marshal", func(i *Interp, fr *frame, a []value) value {
		out, e := i.jsonEnc(nil, i.asIface(a[0]), true, 0)
		if e != "" {
			return tuple{[]value(nil), i.newError(e)}
		}
		return tuple{i.strToBytes(i.mkStr(out)), iface{}}
	})
	reg("encoding/json.MarshalIndent", func(i *Interp, fr *frame, a []value) value {
		out, e := i.jsonEnc(nil, i.asIface(a[0]), true, 0)
		if e != "" {
			return tuple{[]value(nil), i.newError(e)}
		}
		s := i.concStr(i.mkStr(out))
		var bb bytes.Buffer
		json.Indent(&bb, []byte(s), i.concStr(a[1]), i.concStr(a[2]))
		return tuple{i.strToBytes(bb.String()), iface{}}
	})
	reg("encoding/json.Valid", func(i *Interp, fr *frame, a []value) value {
		b := i.bytesOf(a[0])
		_, p, e := i.jsonParse(b, true)
		if e != "" {
			return false
		}
		j := &jparser{i: i, b: b, p: p}
		j.ws()
		return j.p == len(b)
	})
	reg("encoding/json.Unmarshal", func(i *Interp, fr *frame, a []value) value {
		b := i.bytesOf(a[0])
		v, p, e := i.jsonParse(b, false)
		if e == "EOF" {
			e = "unexpected end of JSON input"
		}
		if e == "" {
			j := &jparser{i: i, b: b, p: p}
			j.ws()
			if j.p != len(b) {
				e = "invalid character after top-level value"
			}
		}
		if e == "" {
			e = i.jsonStore(i.asIface(a[1]), v)
		}
		if e != "" {
			return i.newError(e)
		}
		return iface{}
	})
	D := "(*encoding/json.Decoder)."
	reg("encoding/json.NewDecoder", func(i *Interp, fr *frame, a []value) value {
		return newCell(nativeV{&decState{r: a[0]}})
	})
	ds := func(i *Interp, v value) *decState { return (*i.ptr(v)).(nativeV).x.(*decState) }
	reg(D+"UseNumber", func(i *Interp, fr *frame, a []value) value { ds(i, a[0]).useNumber = true; return nil })
	reg(D+"DisallowUnknownFields", func(i *Interp, fr *frame, a []value) value { return nil })
	reg(D+"Decode", func(i *Interp, fr *frame, a []value) value {
		d := ds(i, a[0])
		i.decFill(d)
		v, p, e := i.jsonParse(d.buf[d.pos:], d.useNumber)
		if e != "" {
			if d.err != nil && (e == "EOF" || strings.HasPrefix(e, "unexpected EOF")) {
				return d.err
			}
			if e == "EOF" {
				return i.ioErr("EOF")
			}
			if e == "unexpected EOF" {
				return i.ioErr("ErrUnexpectedEOF")
			}
			return i.newError(e)
		}
		d.pos += p
		if e := i.jsonStore(i.asIface(a[1]), v); e != "" {
			return i.newError(e)
		}
		return iface{}
	})
	reg(D+"More", func(i *Interp, fr *frame, a []value) value {
		d := ds(i, a[0])
		i.decFill(d)
		j := &jparser{i: i, b: d.buf, p: d.pos}
		j.ws()
		return j.p < len(j.b) && !j.in(j.p, "]}")
	})
	reg(D+"Token", func(i *Interp, fr *frame, a []value) value {
		// only used to detect the end of the input after a complete value
		d := ds(i, a[0])
		i.decFill(d)
		j := &jparser{i: i, b: d.buf, p: d.pos}
		j.ws()
		d.pos = j.p
		if j.p >= len(j.b) {
			if d.err != nil {
				return tuple{iface{}, d.err}
			}
			return tuple{iface{}, i.ioErr("EOF")}
		}
		if j.in(j.p, "{[") {
			c := byte(i.concretize(d.buf[j.p]))
			d.pos++
			return tuple{iface{i.named("encoding/json", "Delim"), uint64(c)}, iface{}}
		}
		v, p, e := i.jsonParse(d.buf[d.pos:], d.useNumber)
		if e != "" {
			return tuple{iface{}, i.newError(e)}
		}
		d.pos += p
		return tuple{v, iface{}}
	})
	reg(D+"Buffered", func(i *Interp, fr *frame, a []value) value {
		d := ds(i, a[0])
		i.decFill(d)
		return i.callNamedIface("bytes", "NewReader", i.strToBytes(i.mkStr(d.buf[d.pos:])))
	})
	reg(D+"InputOffset", func(i *Interp, fr *frame, a []value) value { return uint64(ds(i, a[0]).pos) })
	reg("(encoding/json.Number).String", func(i *Interp, fr *frame, a []value) value { return a[0] })
	E := "(*encoding/json.Encoder)."
	reg("encoding/json.NewEncoder", func(i *Interp, fr *frame, a []value) value {
		return newCell(nativeV{&encState{w: a[0], esc: true}})
	})
	es := func(i *Interp, v value) *encState { return (*i.ptr(v)).(nativeV).x.(*encState) }
	reg(E+"SetEscapeHTML", func(i *Interp, fr *frame, a []value) value { es(i, a[0]).esc = i.truth(a[1]); return nil })
	reg(E+"Encode", func(i *Interp, fr *frame, a []value) value {
		e := es(i, a[0])
		out, msg := i.jsonEnc(nil, i.asIface(a[1]), e.esc, 0)
		if msg != "" {
			return i.newError(msg)
		}
		out = append(out, i.bank.bytes['\n'])
		r := i.writeTo(e.w, i.mkStr(out)).(tuple)
		return r[1]
	})
}

type encState struct {
	w   value
	esc bool
}

func (i *Interp) callNamedIface(pkg, fn string, args ...value) value {
	p := i.P.pkgs[pkg]
	f := p.Func(fn)
	r := i.callFn(nil, f, args, nil)
	return iface{canon(f.Signature.Results().At(0).Type()), r}
}

var _ = fmt.Sprint
var _ = big.NewInt
