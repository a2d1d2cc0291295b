package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- math/big: exact rationals with symbolic numerators/denominators ----

func (i *Interp) ratOf(v value) ratV {
	switch v := v.(type) {
	case ratV:
		return v
	case structV:
		return ratV{con: new(big.Rat)}
	case nativeV:
		if r, ok := v.x.(*big.Rat); ok {
			return ratV{con: r}
		}
	}
	panic(unsupported("rat of %T", v))
}

func (i *Interp) ratArg(v value) ratV { return i.ratOf(*i.ptr(v)) }

// ratTerms returns num, den and their bit bounds.
func (i *Interp) ratTerms(r ratV) (n, d *Term, nb, db int) {
	if r.con == nil {
		return r.num, r.den, r.nb, r.db
	}
	nb = r.con.Num().BitLen()
	db = r.con.Denom().BitLen()
	return i.bank.BigConst(nb+1, r.con.Num()), i.bank.BigConst(db+1, r.con.Denom()), nb, db
}

func (i *Interp) fit(t *Term, w int) *Term {
	if t.w < w {
		return i.bank.SExt(t, w)
	}
	if t.w > w {
		return i.bank.Extract(t, w-1, 0)
	}
	return t
}

func (i *Interp) mulW(a, b *Term, w int) *Term { return i.bank.Bin(OpMul, i.fit(a, w), i.fit(b, w)) }

func (i *Interp) mkRat(n, d *Term, nb, db int) ratV {
	if nb > 6000 || db > 6000 {
		panic(unsupported("rational too wide"))
	}
	if n.isConst() && d.isConst() {
		nn := bigSigned(i.bank.bigOf(n), n.w)
		dd := bigSigned(i.bank.bigOf(d), d.w)
		if dd.Sign() != 0 {
			return ratV{con: new(big.Rat).SetFrac(nn, dd)}
		}
	}
	return ratV{num: i.fit(n, nb+1), den: i.fit(d, db+1), nb: nb, db: db}
}

func (i *Interp) ratPair(a, b ratV) (l, r *Term) {
	an, ad, anb, adb := i.ratTerms(a)
	bn, bd, bnb, bdb := i.ratTerms(b)
	w := max(anb+bdb, bnb+adb) + 1
	return i.mulW(an, bd, w), i.mulW(bn, ad, w)
}

// decOf gives the decimal digits of a rational, nil when unknown.
func (i *Interp) decOf(r ratV) *decV {
	if r.con == nil {
		return r.dec
	}
	d := new(big.Int).Set(r.con.Denom())
	k := 0
	for _, p := range []int64{2, 5} {
		n := 0
		bp := big.NewInt(p)
		for {
			q, m := new(big.Int).QuoRem(d, bp, new(big.Int))
			if m.Sign() != 0 {
				break
			}
			d = q
			if n++; n > 1500 {
				return nil
			}
		}
		k = max(k, n)
	}
	if d.Cmp(big.NewInt(1)) != 0 || r.con.Num().BitLen() > 5000 {
		return nil
	}
	m := new(big.Rat).Mul(r.con, new(big.Rat).SetInt(pow10(k)))
	txt := new(big.Int).Abs(m.Num()).String()
	v := &decV{neg: m.Sign() < 0, exp: -k}
	for n := 0; n < len(txt); n++ {
		v.digits = append(v.digits, i.bank.Const(8, uint64(txt[n])))
	}
	return v
}

// decCmp compares two decimals digit by digit: lt and eq.
func (i *Interp) decCmp(a, b *decV) (lt, eq *Term, ok bool) {
	B := i.bank
	lo := min(a.exp, b.exp)
	hi := max(a.exp+len(a.digits), b.exp+len(b.digits))
	if hi-lo > 2000 {
		return nil, nil, false
	}
	zero := B.Const(8, '0')
	at := func(d *decV, e int) *Term { // digit of weight 10^e
		k := len(d.digits) - 1 - (e - d.exp)
		if k < 0 || k >= len(d.digits) {
			return zero
		}
		return d.digits[k]
	}
	ltm, gtm, eqm := B.False, B.False, B.True // of the magnitudes
	za, zb := B.True, B.True
	for e := lo; e < hi; e++ {
		x, y := at(a, e), at(b, e)
		q := B.Eq(x, y)
		ltm = B.Or(B.ULt(x, y), B.And(q, ltm))
		gtm = B.Or(B.ULt(y, x), B.And(q, gtm))
		eqm = B.And(q, eqm)
		za = B.And(za, B.Eq(x, zero))
		zb = B.And(zb, B.Eq(y, zero))
	}
	switch {
	case !a.neg && !b.neg:
		return ltm, eqm, true
	case a.neg && b.neg:
		return gtm, eqm, true
	}
	eq = B.And(za, zb)
	if a.neg {
		return B.Not(eq), eq, true
	}
	return B.False, eq, true
}

func (i *Interp) ratDec(a, b ratV) (lt, eq *Term, ok bool) {
	x, y := i.decOf(a), i.decOf(b)
	if x == nil || y == nil {
		return nil, nil, false
	}
	return i.decCmp(x, y)
}

func (i *Interp) ratCmpEq(a, b ratV) *Term {
	if a.con != nil && b.con != nil {
		return i.bank.Bool(a.con.Cmp(b.con) == 0)
	}
	if _, eq, ok := i.ratDec(a, b); ok {
		return eq
	}
	if c, ok := i.ratFar(a, b); ok {
		return i.bank.Eq(c, i.bank.Const(64, 0))
	}
	l, r := i.ratPair(a, b)
	return i.bank.Eq(l, r)
}

// ratFar compares a symbolic number with a constant of a wholly different magnitude.
func (i *Interp) ratFar(a, b ratV) (*Term, bool) {
	B := i.bank
	minus, one := B.Const(64, ^uint64(0)), B.Const(64, 1)
	if a.con != nil && b.con == nil {
		c, ok := i.ratFar(b, a)
		if !ok {
			return nil, false
		}
		return B.Neg(c), true
	}
	if a.con != nil || b.con == nil || b.con.Sign() == 0 {
		return nil, false
	}
	nbits, dbits := b.con.Num().BitLen(), b.con.Denom().BitLen()
	if max(nbits, dbits) < 1500 {
		return nil, false
	}
	sg := one // of -b
	if b.con.Sign() > 0 {
		sg = minus
	}
	if nbits-dbits-1 >= a.nb { // |b| >= 2^(nbits-dbits-1) > |a|
		return sg, true
	}
	if dbits-nbits-1 >= a.db { // |b| < 2^(nbits-dbits+1) <= 2^-db < |a| unless a is 0
		z := B.Const(a.num.w, 0)
		return B.Ite(B.Eq(a.num, z), sg, B.Ite(B.SLt(a.num, z), minus, one)), true
	}
	return nil, false
}

func (i *Interp) ratCmp(a, b ratV) value {
	if a.con != nil && b.con != nil {
		return num(a.con.Cmp(b.con))
	}
	if a.dif != nil && b.con != nil && b.con.Sign() == 0 {
		return i.ratCmp(a.dif[0], a.dif[1])
	}
	B := i.bank
	if lt, eq, ok := i.ratDec(a, b); ok {
		return termVal(B.Ite(lt, B.Const(64, ^uint64(0)), B.Ite(eq, B.Const(64, 0), B.Const(64, 1))), 64, true)
	}
	if c, ok := i.ratFar(a, b); ok {
		return termVal(c, 64, true)
	}
	l, r := i.ratPair(a, b)
	return termVal(B.Ite(B.SLt(l, r), B.Const(64, ^uint64(0)), B.Ite(B.Eq(l, r), B.Const(64, 0), B.Const(64, 1))), 64, true)
}

func (i *Interp) ratSign(a ratV) value {
	if a.con != nil {
		return num(a.con.Sign())
	}
	if a.dif != nil {
		return i.ratCmp(a.dif[0], a.dif[1])
	}
	if a.dec != nil {
		return i.ratCmp(a, ratV{con: new(big.Rat)})
	}
	B := i.bank
	z := B.Const(a.num.w, 0)
	return termVal(B.Ite(B.SLt(a.num, z), B.Const(64, ^uint64(0)), B.Ite(B.Eq(a.num, z), B.Const(64, 0), B.Const(64, 1))), 64, true)
}

// concVars concretises every variable a term depends on.
func (i *Interp) concVars(t *Term) {
	seen := map[*Term]bool{}
	var vs []*Term
	var walk func(*Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OpConst {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			vs = append(vs, t)
			return
		}
		for k := 0; k < t.n; k++ {
			walk(t.a[k])
		}
	}
	walk(t)
	for _, v := range vs {
		i.concretize(v)
	}
}

func (i *Interp) ratConc(r ratV) *big.Rat {
	if r.con != nil {
		return r.con
	}
	i.concVars(r.num)
	i.concVars(r.den)
	n := bigSigned(i.bank.EvalBig(r.num, i.model), r.num.w)
	d := bigSigned(i.bank.EvalBig(r.den, i.model), r.den.w)
	return new(big.Rat).SetFrac(n, d)
}

type numShape struct {
	neg     bool
	digits  []*Term
	frac    int
	exp     int
	ok      bool
	special bool // not a plain decimal: use the native parser
}

// isDigitTerm decides whether a byte is a digit.
func (i *Interp) isDigitTerm(t *Term) bool {
	B := i.bank
	if t.lo >= '0' && t.hi <= '9' && t.dom == nil {
		return true
	}
	return i.decide(B.And(B.ULe(B.Const(8, '0'), t), B.ULe(t, B.Const(8, '9'))))
}

func (i *Interp) numShape(b []*Term) numShape {
	var s numShape
	p := 0
	ch := func() byte {
		if b[p].isConst() {
			return byte(b[p].u)
		}
		return byte(i.concretize(b[p]))
	}
	if p < len(b) && !i.isDigitTerm(b[p]) {
		switch ch() {
		case '-':
			s.neg = true
			p++
		case '+':
			p++
		}
	}
	nd := 0
	dot := false
	for p < len(b) {
		if i.isDigitTerm(b[p]) {
			s.digits = append(s.digits, b[p])
			nd++
			if dot {
				s.frac++
			}
			p++
			continue
		}
		c := ch()
		if c == '.' && !dot {
			dot = true
			p++
			continue
		}
		if (c == 'e' || c == 'E') && nd > 0 {
			p++
			neg := false
			if p < len(b) && !i.isDigitTerm(b[p]) {
				switch ch() {
				case '-':
					neg = true
					p++
				case '+':
					p++
				}
			}
			n, k := 0, 0
			for p < len(b) {
				if !i.isDigitTerm(b[p]) {
					s.special = true
					return s
				}
				if n < 100000000 {
					n = n*10 + int(ch()-'0')
				}
				k++
				p++
			}
			if k == 0 {
				return s
			}
			if neg {
				n = -n
			}
			s.exp = n
			s.ok = true
			return s
		}
		s.special = true
		return s
	}
	s.ok = nd > 0
	return s
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// ratFromShape builds the exact value, ok=false when out of modelled range.
func (i *Interp) ratFromShape(s numShape) (ratV, bool) {
	k := s.exp - s.frac
	dec := &decV{neg: s.neg, digits: s.digits, exp: k}
	if k > 700 || k < -700 || len(s.digits) > 400 {
		return ratV{}, false
	}
	B := i.bank
	n := len(s.digits)
	nb := pow10(n).BitLen()
	w := nb + 1
	acc := B.Const(w, 0)
	ten := B.Const(w, 10)
	for _, d := range s.digits {
		v := B.ZExt(B.Bin(OpSub, d, B.Const(8, '0')), w)
		if w < 8 {
			v = B.Extract(B.Bin(OpSub, d, B.Const(8, '0')), w-1, 0)
		}
		acc = B.Bin(OpAdd, B.Bin(OpMul, acc, ten), v)
	}
	if s.neg {
		acc = B.Neg(acc)
	}
	if k >= 0 {
		p := pow10(k)
		nb2 := nb + p.BitLen()
		r := i.mkRat(i.mulW(acc, B.BigConst(p.BitLen()+1, p), nb2+1), B.Const(2, 1), nb2, 1)
		r.dec = dec
		return r, true
	}
	p := pow10(-k)
	r := i.mkRat(acc, B.BigConst(p.BitLen()+1, p), nb, p.BitLen())
	r.dec = dec
	return r, true
}

// nativeBig calls a method of a math/big value natively on concrete data.
func (i *Interp) nativeBig(fn *ssa.Function, a []value) value {
	ptrs := map[interface{}]*value{}
	conv := func(v value, t types.Type) reflect.Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			p, _ := v.(*value)
			name := u.Elem().String()
			if p == nil {
				switch name {
				case "math/big.Int":
					return reflect.ValueOf((*big.Int)(nil))
				case "math/big.Rat":
					return reflect.ValueOf((*big.Rat)(nil))
				case "math/big.Float":
					return reflect.ValueOf((*big.Float)(nil))
				}
			}
			for x, q := range ptrs {
				if q == p {
					return reflect.ValueOf(x)
				}
			}
			var x interface{}
			switch name {
			case "math/big.Int":
				x = new(big.Int).Set(i.bigInt(*p))
			case "math/big.Rat":
				x = new(big.Rat).Set(i.ratConc(i.ratOf(*p)))
			case "math/big.Float":
				x = i.bigFloat(*p)
			default:
				panic(unsupported("native big arg %s", t))
			}
			ptrs[x] = p
			return reflect.ValueOf(x)
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				return reflect.ValueOf(i.concStr(v))
			case u.Info()&types.IsBoolean != 0:
				return reflect.ValueOf(i.truth(v))
			case u.Kind() == types.Int:
				return reflect.ValueOf(int(int64(i.concIntS(v, true))))
			case u.Kind() == types.Int64:
				return reflect.ValueOf(int64(i.concIntS(v, true)))
			case u.Kind() == types.Uint:
				return reflect.ValueOf(uint(i.concIntS(v, false)))
			case u.Kind() == types.Uint64:
				return reflect.ValueOf(i.concIntS(v, false))
			case u.Kind() == types.Uint8:
				if strings.HasSuffix(t.String(), "RoundingMode") {
					return reflect.ValueOf(big.RoundingMode(i.concIntS(v, false)))
				}
				return reflect.ValueOf(byte(i.concIntS(v, false)))
			case u.Info()&types.IsFloat != 0:
				return reflect.ValueOf(i.float(v))
			}
		}
		panic(unsupported("native big arg %s", t))
	}
	sig := fn.Signature
	recv := conv(a[0], sig.Recv().Type())
	m := recv.MethodByName(fn.Name())
	if !m.IsValid() {
		panic(unsupported("math/big method %s", fn))
	}
	var in []reflect.Value
	for k := 0; k < sig.Params().Len(); k++ {
		v := conv(a[k+1], sig.Params().At(k).Type())
		in = append(in, v.Convert(m.Type().In(k)))
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				panic(targetPanic{iface{i.P.rtErr, fmt.Sprint(r)}})
			}
		}()
		out = m.Call(in)
	}()
	// write back
	for x, p := range ptrs {
		switch x := x.(type) {
		case *big.Int:
			*p = intV{con: x}
		case *big.Rat:
			*p = ratV{con: x}
		case *big.Float:
			*p = nativeV{x}
		}
	}
	back := func(v reflect.Value, t types.Type) value {
		switch x := v.Interface().(type) {
		case *big.Int:
			if x == nil {
				return (*value)(nil)
			}
			if p, ok := ptrs[x]; ok {
				return p
			}
			return newCell(intV{con: x})
		case *big.Rat:
			if x == nil {
				return (*value)(nil)
			}
			if p, ok := ptrs[x]; ok {
				return p
			}
			return newCell(ratV{con: x})
		case *big.Float:
			if x == nil {
				return (*value)(nil)
			}
			if p, ok := ptrs[x]; ok {
				return p
			}
			return newCell(nativeV{x})
		case error:
			return i.newError(x.Error())
		case nil:
			return iface{}
		}
		switch v.Kind() {
		case reflect.Bool:
			return v.Bool()
		case reflect.String:
			return v.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return uint64(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return v.Uint()
		case reflect.Float64, reflect.Float32:
			return v.Float()
		case reflect.Slice:
			if b, ok := v.Interface().([]byte); ok {
				return i.strToBytes(string(b))
			}
		case reflect.Interface:
			if v.IsNil() {
				return iface{}
			}
		}
		panic(unsupported("native big result %s", t))
	}
	switch len(out) {
	case 0:
		return nil
	case 1:
		return back(out[0], sig.Results().At(0).Type())
	}
	var t tuple
	for k := range out {
		t = append(t, back(out[k], sig.Results().At(k).Type()))
	}
	return t
}

func (i *Interp) bigInt(v value) *big.Int {
	switch v := v.(type) {
	case intV:
		if v.con != nil {
			return v.con
		}
		i.concVars(v.t)
		return new(big.Int).Set(bigSigned(i.bank.EvalBig(v.t, i.model), v.t.w))
	case structV:
		return new(big.Int)
	}
	panic(unsupported("bigInt of %T", v))
}

func (i *Interp) bigFloat(v value) *big.Float {
	switch v := v.(type) {
	case nativeV:
		switch x := v.x.(type) {
		case *big.Float:
			return x
		case ratV:
			return new(big.Float).SetRat(i.ratConc(x))
		}
	case structV:
		return new(big.Float)
	}
	panic(unsupported("bigFloat of %T", v))
}

// bigText prints math/big values for fmt.
func (i *Interp) bigText(v iface, verb rune, flags string) (value, bool) {
	pt, ok := v.t.(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "math/big" {
		return nil, false
	}
	p, _ := v.v.(*value)
	if p == nil {
		return "<nil>", true
	}
	f := "%" + flags + string(verb)
	switch n.Obj().Name() {
	case "Rat":
		r := i.ratOf(*p)
		if r.con == nil {
			return opaqueMark, true
		}
		return fmt.Sprintf(f, r.con), true
	case "Int":
		if x, ok := (*p).(intV); ok && x.con == nil {
			return opaqueMark, true
		}
		return fmt.Sprintf(f, i.bigInt(*p)), true
	case "Float":
		if x, ok := (*p).(nativeV); ok {
			if _, ok := x.x.(ratV); ok {
				return opaqueMark, true
			}
		}
		return fmt.Sprintf(f, i.bigFloat(*p)), true
	}
	return nil, false
}

func init() {
	R := "(*math/big.Rat)."
	setr := func(i *Interp, z value, r ratV) value {
		p := i.ptr(z)
		if i.mon != nil {
			i.mon.add(p, true)
		}
		*p = r
		return z
	}
	rd := func(i *Interp, v value) ratV {
		p := i.ptr(v)
		if i.mon != nil {
			i.mon.add(p, false)
		}
		return i.ratOf(*p)
	}
	reg(R+"SetString", func(i *Interp, fr *frame, a []value) value {
		if s, ok := a[1].(string); ok {
			r, ok := new(big.Rat).SetString(s)
			if !ok {
				return tuple{(*value)(nil), false}
			}
			return tuple{setr(i, a[0], ratV{con: r}), true}
		}
		sh := i.numShape(i.strTerms(a[1]))
		if sh.ok && !sh.special {
			if r, ok := i.ratFromShape(sh); ok {
				return tuple{setr(i, a[0], r), true}
			}
		}
		r, ok := new(big.Rat).SetString(i.concStr(a[1]))
		if !ok {
			return tuple{(*value)(nil), false}
		}
		return tuple{setr(i, a[0], ratV{con: r}), true}
	})
	reg(R+"Cmp", func(i *Interp, fr *frame, a []value) value { return i.ratCmp(rd(i, a[0]), rd(i, a[1])) })
	reg(R+"Sign", func(i *Interp, fr *frame, a []value) value { return i.ratSign(rd(i, a[0])) })
	reg(R+"Set", func(i *Interp, fr *frame, a []value) value { return setr(i, a[0], rd(i, a[1])) })
	reg(R+"IsInt", func(i *Interp, fr *frame, a []value) value {
		r := rd(i, a[0])
		if r.con != nil {
			return r.con.IsInt()
		}
		B := i.bank
		if d := r.dec; d != nil {
			z := B.True
			for k, t := range d.digits {
				if len(d.digits)-1-k+d.exp < 0 {
					z = B.And(z, B.Eq(t, B.Const(8, '0')))
				}
			}
			return boolVal(z)
		}
		if r.den.isConst() && i.bank.bigOf(r.den).Cmp(big.NewInt(1)) == 0 {
			return true
		}
		w := max(r.nb, r.db) + 2
		n := i.fit(r.num, w)
		n = B.Ite(B.SLt(n, B.Const(w, 0)), B.Neg(n), n)
		return boolVal(B.Eq(B.Bin(OpURem, n, i.fit(r.den, w)), B.Const(w, 0)))
	})
	addsub := func(op Op) func(i *Interp, fr *frame, a []value) value {
		return func(i *Interp, fr *frame, a []value) value {
			x, y := rd(i, a[1]), rd(i, a[2])
			if x.con != nil && y.con != nil {
				if op == OpAdd {
					return setr(i, a[0], ratV{con: new(big.Rat).Add(x.con, y.con)})
				}
				return setr(i, a[0], ratV{con: new(big.Rat).Sub(x.con, y.con)})
			}
			xn, xd, xnb, xdb := i.ratTerms(x)
			yn, yd, ynb, ydb := i.ratTerms(y)
			nb := max(xnb+ydb, ynb+xdb) + 1
			n := i.bank.Bin(op, i.mulW(xn, yd, nb+1), i.mulW(yn, xd, nb+1))
			r := i.mkRat(n, i.mulW(xd, yd, xdb+ydb+1), nb, xdb+ydb)
			if op == OpSub && r.con == nil {
				r.dif = &[2]ratV{x, y}
			}
			return setr(i, a[0], r)
		}
	}
	reg(R+"Add", addsub(OpAdd))
	reg(R+"Sub", addsub(OpSub))
	reg(R+"Mul", func(i *Interp, fr *frame, a []value) value {
		x, y := rd(i, a[1]), rd(i, a[2])
		if x.con != nil && y.con != nil {
			return setr(i, a[0], ratV{con: new(big.Rat).Mul(x.con, y.con)})
		}
		xn, xd, xnb, xdb := i.ratTerms(x)
		yn, yd, ynb, ydb := i.ratTerms(y)
		return setr(i, a[0], i.mkRat(i.mulW(xn, yn, xnb+ynb+1), i.mulW(xd, yd, xdb+ydb+1), xnb+ynb, xdb+ydb))
	})
	quo := func(i *Interp, x, y ratV) ratV {
		yn, yd, ynb, ydb := i.ratTerms(y)
		xn, xd, xnb, xdb := i.ratTerms(x)
		B := i.bank
		if i.decide(B.Eq(yn, B.Const(yn.w, 0))) {
			panic(targetPanic{iface{i.P.rtErr, "division by zero"}})
		}
		n := i.mulW(xn, yd, xnb+ydb+1)
		d := i.mulW(xd, yn, xdb+ynb+1)
		if i.decide(B.SLt(yn, B.Const(yn.w, 0))) {
			n, d = B.Neg(n), B.Neg(d)
		}
		return i.mkRat(n, d, xnb+ydb, xdb+ynb)
	}
	reg(R+"Quo", func(i *Interp, fr *frame, a []value) value {
		x, y := rd(i, a[1]), rd(i, a[2])
		if x.con != nil && y.con != nil {
			if y.con.Sign() == 0 {
				panic(targetPanic{iface{i.P.rtErr, "division by zero"}})
			}
			return setr(i, a[0], ratV{con: new(big.Rat).Quo(x.con, y.con)})
		}
		return setr(i, a[0], quo(i, x, y))
	})
	reg(R+"Inv", func(i *Interp, fr *frame, a []value) value {
		x := rd(i, a[1])
		if x.con != nil {
			if x.con.Sign() == 0 {
				panic(targetPanic{iface{i.P.rtErr, "division by zero"}})
			}
			return setr(i, a[0], ratV{con: new(big.Rat).Inv(x.con)})
		}
		return setr(i, a[0], quo(i, ratV{con: big.NewRat(1, 1)}, x))
	})
	neg := func(i *Interp, x ratV) ratV {
		if x.con != nil {
			return ratV{con: new(big.Rat).Neg(x.con)}
		}
		r := ratV{num: i.bank.Neg(x.num), den: x.den, nb: x.nb, db: x.db}
		if x.dec != nil {
			r.dec = &decV{!x.dec.neg, x.dec.digits, x.dec.exp}
		}
		return r
	}
	reg(R+"Neg", func(i *Interp, fr *frame, a []value) value { return setr(i, a[0], neg(i, rd(i, a[1]))) })
	reg(R+"Abs", func(i *Interp, fr *frame, a []value) value {
		x := rd(i, a[1])
		if x.con != nil {
			return setr(i, a[0], ratV{con: new(big.Rat).Abs(x.con)})
		}
		B := i.bank
		n := B.Ite(B.SLt(x.num, B.Const(x.num.w, 0)), B.Neg(x.num), x.num)
		return setr(i, a[0], ratV{num: n, den: x.den, nb: x.nb, db: x.db})
	})
	reg("math/big.NewRat", func(i *Interp, fr *frame, a []value) value {
		return newCell(ratV{con: big.NewRat(int64(i.concIntS(a[0], true)), int64(i.concIntS(a[1], true)))})
	})
	reg(R+"SetInt64", func(i *Interp, fr *frame, a []value) value {
		switch x := a[1].(type) {
		case *Term:
			return setr(i, a[0], i.mkRat(x, i.bank.Const(2, 1), 64, 1))
		}
		return setr(i, a[0], ratV{con: new(big.Rat).SetInt64(int64(a[1].(uint64)))})
	})
	reg(R+"Num", func(i *Interp, fr *frame, a []value) value {
		r := rd(i, a[0])
		if r.con == nil && r.den.isConst() && i.bank.bigOf(r.den).Cmp(big.NewInt(1)) == 0 {
			return newCell(intV{t: r.num, nb: r.nb})
		}
		return newCell(intV{con: new(big.Int).Set(i.ratConc(r).Num())})
	})
	reg(R+"Denom", func(i *Interp, fr *frame, a []value) value {
		r := rd(i, a[0])
		if r.con == nil && r.den.isConst() && i.bank.bigOf(r.den).Cmp(big.NewInt(1)) == 0 {
			return newCell(intV{con: big.NewInt(1)})
		}
		return newCell(intV{con: new(big.Int).Set(i.ratConc(r).Denom())})
	})
	reg("math/big.NewInt", func(i *Interp, fr *frame, a []value) value {
		return newCell(intV{con: big.NewInt(int64(i.concIntS(a[0], true)))})
	})
	I := "(*math/big.Int)."
	reg(I+"Cmp", func(i *Interp, fr *frame, a []value) value {
		x, xs := (*i.ptr(a[0])).(intV)
		y, ys := (*i.ptr(a[1])).(intV)
		if (xs && x.con == nil) || (ys && y.con == nil) {
			return i.ratCmp(i.intRat(*i.ptr(a[0])), i.intRat(*i.ptr(a[1])))
		}
		return num(i.bigInt(*i.ptr(a[0])).Cmp(i.bigInt(*i.ptr(a[1]))))
	})
	isInt64 := func(i *Interp, v value) value {
		x, ok := v.(intV)
		if !ok || x.con != nil {
			return i.bigInt(v).IsInt64()
		}
		if x.nb <= 63 {
			return true
		}
		B := i.bank
		w := max(x.t.w, 65)
		t := i.fit(x.t, w)
		lo := B.BigConst(w, big.NewInt(-1<<63))
		hi := B.BigConst(w, new(big.Int).SetUint64(1<<63-1))
		return boolVal(B.And(B.SLe(lo, t), B.SLe(t, hi)))
	}
	reg(I+"IsInt64", func(i *Interp, fr *frame, a []value) value { return isInt64(i, *i.ptr(a[0])) })
	reg(I+"Int64", func(i *Interp, fr *frame, a []value) value {
		v := *i.ptr(a[0])
		x, ok := v.(intV)
		if !ok || x.con != nil {
			return uint64(i.bigInt(v).Int64())
		}
		return termVal(i.fit(x.t, 64), 64, true)
	})
	reg(I+"Sign", func(i *Interp, fr *frame, a []value) value { return i.ratSign(i.intRat(*i.ptr(a[0]))) })
	reg("(*math/big.Float).SetRat", func(i *Interp, fr *frame, a []value) value {
		r := rd(i, a[1])
		p := i.ptr(a[0])
		if r.con != nil {
			*p = nativeV{new(big.Float).SetRat(r.con)}
		} else {
			*p = nativeV{r}
		}
		return a[0]
	})
	for _, m := range []string{"String", "Text"} {
		m := m
		regF("(*math/big.Float)."+m, func(i *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if x, ok := (*i.ptr(a[0])).(nativeV); ok {
				if _, ok := x.x.(ratV); ok {
					return opaqueMark
				}
			}
			return i.nativeBig(fn, a)
		})
	}
	for _, m := range []string{"String", "RatString", "FloatString"} {
		m := m
		regF(R+m, func(i *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return i.nativeBig(fn, a)
		})
	}
}

func (i *Interp) intRat(v value) ratV {
	x, ok := v.(intV)
	if !ok || x.con != nil {
		return ratV{con: new(big.Rat).SetInt(i.bigInt(v))}
	}
	return i.mkRat(x.t, i.bank.Const(2, 1), x.nb, 1)
}

// isBigMethod reports math/big methods handled by native execution.
func isBigMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || fn.Synthetic != "" {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().String() {
	case "math/big.Int", "math/big.Rat", "math/big.Float":
		return true
	}
	return false
}
