package main

import (
	"unicode/utf8"
)

func (i *Interp) mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b}
		}
	}
	buf := make([]byte, len(b))
	for k, t := range b {
		buf[k] = byte(t.u)
	}
	return string(buf)
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported("strLen"))
}

// strTerms returns the bytes of a string value as terms.
func (i *Interp) strTerms(v value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for k := 0; k < len(v); k++ {
			r[k] = i.bank.bytes[v[k]]
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(unsupported("strTerms of %T", v))
}

func (i *Interp) strAt(v value, k int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[k])
	case *SymStr:
		return termVal(v.b[k], 8, false)
	}
	panic(unsupported("strAt"))
}

func (i *Interp) strSlice(v value, lo, hi int) value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return i.mkStr(v.b[lo:hi:hi])
	}
	panic(unsupported("strSlice"))
}

func (i *Interp) strCat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
	}
	a, b := i.strTerms(x), i.strTerms(y)
	r := make([]*Term, 0, len(a)+len(b))
	r = append(r, a...)
	r = append(r, b...)
	return i.mkStr(r)
}

// strEq as a boolean value.
func (i *Interp) strEq(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := i.strTerms(x), i.strTerms(y)
	r := i.bank.True
	for k := range a {
		r = i.bank.And(r, i.bank.Eq(a[k], b[k]))
	}
	return boolVal(r)
}

// strLess: x < y lexicographically.
func (i *Interp) strLess(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := i.strTerms(x), i.strTerms(y)
	n := min(len(a), len(b))
	r := i.bank.Bool(len(a) < len(b))
	for k := n - 1; k >= 0; k-- {
		r = i.bank.Or(i.bank.ULt(a[k], b[k]), i.bank.And(i.bank.Eq(a[k], b[k]), r))
	}
	return boolVal(r)
}

func boolVal(t *Term) value {
	if t.isConst() {
		return t.u != 0
	}
	return t
}

// termVal converts a term of width w to a value (concrete when constant).
func termVal(t *Term, w int, signed bool) value {
	if t.isConst() {
		return canonInt(t.u, w, signed)
	}
	return t
}

// decodeRune decodes the rune at the start of b, deciding on byte classes.
func (i *Interp) decodeRune(b []*Term) (value, int) {
	allConst := true
	n := min(len(b), 4)
	for k := 0; k < n; k++ {
		if !b[k].isConst() {
			allConst = false
		}
	}
	if allConst {
		var buf [4]byte
		for k := 0; k < n; k++ {
			buf[k] = byte(b[k].u)
		}
		r, s := utf8.DecodeRune(buf[:n])
		return uint64(int64(r)), s
	}
	B := i.bank
	c := func(v uint64) *Term { return B.Const(8, v) }
	b0 := b[0]
	if i.decide(B.ULt(b0, c(0x80))) {
		return termVal(B.ZExt(b0, 32), 32, true), 1
	}
	bad := uint64(int64(utf8.RuneError))
	inr := func(t *Term, lo, hi uint64) bool {
		return i.decide(B.And(B.ULe(c(lo), t), B.ULe(t, c(hi))))
	}
	cont := func(t *Term, sh uint64) *Term {
		return B.Bin(OpShl, B.ZExt(B.Bin(OpBAnd, t, c(0x3f)), 32), B.Const(32, sh))
	}
	if !inr(b0, 0xC2, 0xF4) || len(b) < 2 {
		return bad, 1
	}
	if i.decide(B.ULt(b0, c(0xE0))) {
		if !inr(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		r := B.Bin(OpBOr, B.Bin(OpShl, B.ZExt(B.Bin(OpBAnd, b0, c(0x1f)), 32), B.Const(32, 6)), cont(b[1], 0))
		return termVal(r, 32, true), 2
	}
	if i.decide(B.ULt(b0, c(0xF0))) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if i.decide(B.Eq(b0, c(0xE0))) {
			lo = 0xA0
		} else if i.decide(B.Eq(b0, c(0xED))) {
			hi = 0x9F
		}
		if !inr(b[1], lo, hi) || len(b) < 3 || !inr(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		r := B.Bin(OpBOr, B.Bin(OpShl, B.ZExt(B.Bin(OpBAnd, b0, c(0x0f)), 32), B.Const(32, 12)), B.Bin(OpBOr, cont(b[1], 6), cont(b[2], 0)))
		return termVal(r, 32, true), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if i.decide(B.Eq(b0, c(0xF0))) {
		lo = 0x90
	} else if i.decide(B.Eq(b0, c(0xF4))) {
		hi = 0x8F
	}
	if !inr(b[1], lo, hi) || len(b) < 4 || !inr(b[2], 0x80, 0xBF) || !inr(b[3], 0x80, 0xBF) {
		return bad, 1
	}
	r := B.Bin(OpBOr, B.Bin(OpShl, B.ZExt(B.Bin(OpBAnd, b0, c(0x07)), 32), B.Const(32, 18)),
		B.Bin(OpBOr, cont(b[1], 12), B.Bin(OpBOr, cont(b[2], 6), cont(b[3], 0))))
	return termVal(r, 32, true), 4
}

// encodeRune converts a rune value to UTF-8 bytes.
func (i *Interp) encodeRune(r value) []*Term {
	if u, ok := r.(uint64); ok {
		s := string(rune(int32(u)))
		if int64(u) > 0x10FFFF || int64(u) < 0 {
			s = string(utf8.RuneError)
		}
		return i.strTerms(s)
	}
	B := i.bank
	t := r.(*Term)
	if t.w != 32 {
		t = B.SExt(t, 32)
	}
	c := func(v uint64) *Term { return B.Const(32, v) }
	ext := func(sh uint64, msk, or uint64) *Term {
		x := B.Extract(B.Bin(OpLShr, t, c(sh)), 7, 0)
		return B.Bin(OpBOr, B.Bin(OpBAnd, x, B.Const(8, msk)), B.Const(8, or))
	}
	if i.decide(B.ULt(t, c(0x80))) {
		return []*Term{B.Extract(t, 7, 0)}
	}
	if i.decide(B.ULt(t, c(0x800))) {
		return []*Term{ext(6, 0x1f, 0xC0), ext(0, 0x3f, 0x80)}
	}
	if i.decide(B.Or(B.ULt(c(0x10FFFF), t), B.And(B.ULe(c(0xD800), t), B.ULe(t, c(0xDFFF))))) {
		return i.strTerms(string(utf8.RuneError))
	}
	if i.decide(B.ULt(t, c(0x10000))) {
		return []*Term{ext(12, 0x0f, 0xE0), ext(6, 0x3f, 0x80), ext(0, 0x3f, 0x80)}
	}
	return []*Term{ext(18, 0x07, 0xF0), ext(12, 0x3f, 0x80), ext(6, 0x3f, 0x80), ext(0, 0x3f, 0x80)}
}

func (i *Interp) bytesToStr(s []value) value {
	sym := false
	for _, x := range s {
		if _, ok := x.(*Term); ok {
			sym = true
			break
		}
	}
	if !sym {
		buf := make([]byte, len(s))
		for k, x := range s {
			buf[k] = byte(x.(uint64))
		}
		return string(buf)
	}
	b := make([]*Term, len(s))
	for k, x := range s {
		b[k] = i.byteTerm(x)
	}
	return i.mkStr(b)
}

func (i *Interp) byteTerm(x value) *Term {
	switch x := x.(type) {
	case uint64:
		return i.bank.bytes[x&255]
	case *Term:
		return x
	}
	panic(unsupported("byteTerm %T", x))
}

func (i *Interp) strToBytes(v value) []value {
	switch v := v.(type) {
	case string:
		r := make([]value, len(v))
		for k := 0; k < len(v); k++ {
			r[k] = uint64(v[k])
		}
		return r
	case *SymStr:
		r := make([]value, len(v.b))
		for k, t := range v.b {
			r[k] = termVal(t, 8, false)
		}
		return r
	}
	panic(unsupported("strToBytes %T", v))
}

// concStr forces a string to be concrete by enumerating its bytes.
func (i *Interp) concStr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		buf := make([]byte, len(v.b))
		for k, t := range v.b {
			buf[k] = byte(i.concretize(t))
		}
		return string(buf)
	}
	panic(unsupported("concStr %T", v))
}
