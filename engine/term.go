package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors, with constant
// folding, interval reasoning and evaluation under a model.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool, n-ary (binary here)
	OpOr
	OpIte
	OpEq
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpExtract // p1=hi p2=lo
	OpZExt
	OpSExt
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
}

// Term: w==0 means Bool.
type Term struct {
	op     Op
	w      int
	p1, p2 int
	a      [3]*Term
	n      int
	u      uint64   // constant value (w<=64); for Bool 0/1
	big    *big.Int // constant value when w>64
	name   string
	id     int
	// unsigned interval (only valid when w in 1..64)
	lo, hi uint64
	dom    *[4]uint64 // domain bitmap for byte-sized vars (nil: full interval)
	neg    *Term      // memoised negation
	mark   int        // eval memo stamp
	ev     uint64
	evb    *big.Int
	smt    int // definition stamp for the solver
}

func (t *Term) isConst() bool { return t.op == OpConst }

type termKey struct {
	op         Op
	w, p1, p2  int
	a0, a1, a2 int
	u          uint64
	s          string
}

// TermBank owns terms of a worker (not shared between goroutines).
type TermBank struct {
	tab   map[termKey]*Term
	next  int
	True  *Term
	False *Term
	stamp int
	vars  []*Term
	bytes [256]*Term
}

func NewTermBank() *TermBank {
	b := &TermBank{tab: map[termKey]*Term{}}
	b.True = b.mk(&Term{op: OpConst, w: 0, u: 1})
	b.False = b.mk(&Term{op: OpConst, w: 0, u: 0})
	for i := range b.bytes {
		b.bytes[i] = b.Const(8, uint64(i))
	}
	return b
}

func (b *TermBank) mk(t *Term) *Term {
	k := termKey{op: t.op, w: t.w, p1: t.p1, p2: t.p2, u: t.u, a0: -1, a1: -1, a2: -1}
	if t.a[0] != nil {
		k.a0 = t.a[0].id
	}
	if t.a[1] != nil {
		k.a1 = t.a[1].id
	}
	if t.a[2] != nil {
		k.a2 = t.a[2].id
	}
	if t.op == OpVar {
		k.s = t.name
	} else if t.big != nil {
		k.s = t.big.String()
	}
	if e, ok := b.tab[k]; ok {
		return e
	}
	t.id = b.next
	b.next++
	b.tab[k] = t
	if t.w > 0 && t.w <= 64 {
		b.interval(t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func bigMask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (b *TermBank) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *TermBank) Const(w int, v uint64) *Term {
	if w > 64 {
		return b.BigConst(w, new(big.Int).SetUint64(v))
	}
	return b.mk(&Term{op: OpConst, w: w, u: v & mask(w)})
}

// BigConst makes a constant of width w from an integer (taken modulo 2^w).
func (b *TermBank) BigConst(w int, v *big.Int) *Term {
	m := new(big.Int).And(v, bigMask(w)) // two's complement And works for negatives
	if w <= 64 {
		return b.mk(&Term{op: OpConst, w: w, u: m.Uint64()})
	}
	return b.mk(&Term{op: OpConst, w: w, big: m})
}

// Var declares (or finds) a variable of width w (0: Bool) with unsigned range
// [lo,hi] and optional explicit domain bitmap (w==8 only).
func (b *TermBank) Var(name string, w int, lo, hi uint64, dom *[4]uint64) *Term {
	full := name + "#" + strconv.FormatUint(lo, 10) + "-" + strconv.FormatUint(hi, 10)
	if dom != nil {
		full += fmt.Sprintf("%x", *dom)
	}
	k := termKey{op: OpVar, w: w, a0: -1, a1: -1, a2: -1, s: full}
	if e, ok := b.tab[k]; ok {
		return e
	}
	t := &Term{op: OpVar, w: w, name: name, lo: lo, hi: hi, dom: dom, id: b.next}
	b.next++
	b.tab[k] = t
	b.vars = append(b.vars, t)
	return t
}

func (b *TermBank) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.u, t.u
	case OpZExt:
		t.lo, t.hi = t.a[0].lo, t.a[0].hi
	case OpSExt:
		x := t.a[0]
		if x.w <= 64 && x.hi < 1<<uint(x.w-1) {
			t.lo, t.hi = x.lo, x.hi
		}
	case OpExtract:
		x := t.a[0]
		if x.w <= 64 && t.p2 == 0 && x.hi <= m {
			t.lo, t.hi = x.lo, x.hi
		}
	case OpAdd:
		x, y := t.a[0], t.a[1]
		s, c := bits.Add64(x.hi, y.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = x.lo+y.lo, s
		} else if y.isConst() {
			// x + c where c acts as a small negative
			nc := (-y.u) & m
			if x.lo >= nc {
				t.lo, t.hi = x.lo-nc, x.hi-nc
			}
		}
	case OpSub:
		x, y := t.a[0], t.a[1]
		if x.lo >= y.hi {
			t.lo, t.hi = x.lo-y.hi, x.hi-y.lo
		}
	case OpMul:
		x, y := t.a[0], t.a[1]
		h, l := bits.Mul64(x.hi, y.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = x.lo*y.lo, l
		}
	case OpUDiv:
		x, y := t.a[0], t.a[1]
		if y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OpURem:
		x, y := t.a[0], t.a[1]
		if y.lo > 0 {
			t.lo, t.hi = 0, y.hi-1
			if x.hi < y.lo {
				t.lo, t.hi = x.lo, x.hi
			} else if x.hi < t.hi {
				t.hi = x.hi
			}
		}
	case OpIte:
		x, y := t.a[1], t.a[2]
		t.lo, t.hi = min(x.lo, y.lo), max(x.hi, y.hi)
	case OpBAnd:
		t.lo, t.hi = 0, min(t.a[0].hi, t.a[1].hi)
	case OpBOr, OpBXor:
		h := t.a[0].hi | t.a[1].hi
		if h != 0 {
			h = mask(bits.Len64(h))
		}
		t.hi = min(m, h)
		if t.op == OpBOr {
			t.lo = max(t.a[0].lo, t.a[1].lo)
		}
	case OpLShr:
		if t.a[1].isConst() {
			if t.a[1].u >= 64 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.a[0].lo>>t.a[1].u, t.a[0].hi>>t.a[1].u
			}
		} else {
			t.lo, t.hi = 0, t.a[0].hi
		}
	case OpShl:
		if t.a[1].isConst() && t.a[1].u < 64 {
			h := t.a[0].hi << t.a[1].u
			if h>>t.a[1].u == t.a[0].hi && h <= m {
				t.lo, t.hi = t.a[0].lo<<t.a[1].u, h
			}
		}
	}
}

func domHas(d *[4]uint64, v uint64) bool {
	if v > 255 {
		return false
	}
	return d[v>>6]&(1<<(v&63)) != 0
}

// signed interval of a term, ok only when it does not straddle
func (t *Term) srange() (int64, int64, bool) {
	if t.w == 0 || t.w > 64 {
		return 0, 0, false
	}
	sh := uint(64 - t.w)
	half := uint64(1) << uint(t.w-1)
	if t.hi < half || t.lo >= half {
		return int64(t.lo<<sh) >> sh, int64(t.hi<<sh) >> sh, true
	}
	return 0, 0, false
}

func sext64(u uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func (b *TermBank) Not(x *Term) *Term {
	if x.neg != nil {
		return x.neg
	}
	var r *Term
	switch {
	case x.isConst():
		r = b.Bool(x.u == 0)
	case x.op == OpNot:
		r = x.a[0]
	case x.op == OpULt:
		r = b.ULe(x.a[1], x.a[0])
	case x.op == OpULe:
		r = b.ULt(x.a[1], x.a[0])
	case x.op == OpSLt:
		r = b.SLe(x.a[1], x.a[0])
	case x.op == OpSLe:
		r = b.SLt(x.a[1], x.a[0])
	default:
		r = b.mk(&Term{op: OpNot, a: [3]*Term{x}, n: 1})
	}
	x.neg = r
	if r.neg == nil {
		r.neg = x
	}
	return r
}

func (b *TermBank) And(xs ...*Term) *Term {
	r := b.True
	for _, x := range xs {
		r = b.and2(r, x)
	}
	return r
}

func (b *TermBank) and2(x, y *Term) *Term {
	if x == b.False || y == b.False {
		return b.False
	}
	if x == b.True {
		return y
	}
	if y == b.True || x == y {
		return x
	}
	if x.neg == y && y != nil {
		return b.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OpAnd, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) Or(xs ...*Term) *Term {
	r := b.False
	for _, x := range xs {
		r = b.or2(r, x)
	}
	return r
}

func (b *TermBank) or2(x, y *Term) *Term {
	if x == b.True || y == b.True {
		return b.True
	}
	if x == b.False {
		return y
	}
	if y == b.False || x == y {
		return x
	}
	if x.neg == y && y != nil {
		return b.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OpOr, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.u != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x == b.True && y == b.False {
			return c
		}
		if x == b.False && y == b.True {
			return b.Not(c)
		}
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	return b.mk(&Term{op: OpIte, w: x.w, a: [3]*Term{c, x, y}, n: 3})
}

func (b *TermBank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y == b.True {
			return x
		}
		if y == b.False {
			return b.Not(x)
		}
	}
	if x.isConst() && y.isConst() {
		if x.w > 64 {
			return b.Bool(x.big.Cmp(y.big) == 0)
		}
		return b.Bool(x.u == y.u)
	}
	if x.w > 0 && x.w <= 64 {
		if x.hi < y.lo || y.hi < x.lo {
			return b.False
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			c := y.u
			switch x.op {
			case OpVar:
				if x.dom != nil && !domHas(x.dom, c) {
					return b.False
				}
			case OpZExt:
				if c > mask(x.a[0].w) {
					return b.False
				}
				return b.Eq(x.a[0], b.Const(x.a[0].w, c))
			case OpSExt:
				s := x.a[0]
				if s.w <= 64 {
					v := c & mask(s.w)
					if uint64(sext64(v, s.w))&mask(x.w) != c {
						return b.False
					}
					return b.Eq(s, b.Const(s.w, v))
				}
			case OpAdd:
				if x.a[1].isConst() {
					return b.Eq(x.a[0], b.Const(x.w, c-x.a[1].u))
				}
			case OpIte:
				if x.a[1].isConst() && x.a[2].isConst() {
					e1, e2 := x.a[1].u == c, x.a[2].u == c
					switch {
					case e1 && e2:
						return b.True
					case e1:
						return x.a[0]
					case e2:
						return b.Not(x.a[0])
					default:
						return b.False
					}
				}
				if x.a[1].isConst() {
					if x.a[1].u == c {
						return b.Or(x.a[0], b.Eq(x.a[2], y))
					}
					return b.And(b.Not(x.a[0]), b.Eq(x.a[2], y))
				}
				if x.a[2].isConst() {
					if x.a[2].u == c {
						return b.Or(b.Not(x.a[0]), b.Eq(x.a[1], y))
					}
					return b.And(x.a[0], b.Eq(x.a[1], y))
				}
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OpEq, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) ULt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.isConst() && y.isConst() && x.w > 64 {
		return b.Bool(x.big.Cmp(y.big) < 0)
	}
	if x.w <= 64 {
		if x.hi < y.lo {
			return b.True
		}
		if x.lo >= y.hi {
			return b.False
		}
		if x.op == OpZExt && y.isConst() && y.u <= mask(x.a[0].w) {
			return b.ULt(x.a[0], b.Const(x.a[0].w, y.u))
		}
		if y.op == OpZExt && x.isConst() && x.u <= mask(y.a[0].w) {
			return b.ULt(b.Const(y.a[0].w, x.u), y.a[0])
		}
	}
	return b.mk(&Term{op: OpULt, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) ULe(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.isConst() && y.isConst() && x.w > 64 {
		return b.Bool(x.big.Cmp(y.big) <= 0)
	}
	if x.w <= 64 {
		if x.hi <= y.lo {
			return b.True
		}
		if x.lo > y.hi {
			return b.False
		}
		if x.op == OpZExt && y.isConst() && y.u <= mask(x.a[0].w) {
			return b.ULe(x.a[0], b.Const(x.a[0].w, y.u))
		}
		if y.op == OpZExt && x.isConst() && x.u <= mask(y.a[0].w) {
			return b.ULe(b.Const(y.a[0].w, x.u), y.a[0])
		}
	}
	return b.mk(&Term{op: OpULe, a: [3]*Term{x, y}, n: 2})
}

func bigSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func (b *TermBank) SLt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.isConst() && y.isConst() && x.w > 64 {
		return b.Bool(bigSigned(x.big, x.w).Cmp(bigSigned(y.big, y.w)) < 0)
	}
	xl, xh, ok1 := x.srange()
	yl, yh, ok2 := y.srange()
	if ok1 && ok2 {
		if xh < yl {
			return b.True
		}
		if xl >= yh {
			return b.False
		}
		if xl >= 0 && yl >= 0 {
			return b.ULt(x, y)
		}
	}
	return b.mk(&Term{op: OpSLt, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) SLe(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.isConst() && y.isConst() && x.w > 64 {
		return b.Bool(bigSigned(x.big, x.w).Cmp(bigSigned(y.big, y.w)) <= 0)
	}
	xl, xh, ok1 := x.srange()
	yl, yh, ok2 := y.srange()
	if ok1 && ok2 {
		if xh <= yl {
			return b.True
		}
		if xl > yh {
			return b.False
		}
		if xl >= 0 && yl >= 0 {
			return b.ULe(x, y)
		}
	}
	return b.mk(&Term{op: OpSLe, a: [3]*Term{x, y}, n: 2})
}

func (b *TermBank) bigOf(t *Term) *big.Int {
	if t.w > 64 {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}

func evalBin(op Op, w int, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func evalBinBig(op Op, w int, x, y *big.Int) *big.Int {
	r := new(big.Int)
	switch op {
	case OpAdd:
		r.Add(x, y)
	case OpSub:
		r.Sub(x, y)
	case OpMul:
		r.Mul(x, y)
	case OpUDiv:
		if y.Sign() == 0 {
			return bigMask(w)
		}
		r.Quo(x, y)
	case OpURem:
		if y.Sign() == 0 {
			return x
		}
		r.Rem(x, y)
	case OpSDiv, OpSRem:
		sx, sy := bigSigned(x, w), bigSigned(y, w)
		if sy.Sign() == 0 {
			if op == OpSRem {
				return x
			}
			if sx.Sign() < 0 {
				return big.NewInt(1)
			}
			return bigMask(w)
		}
		if op == OpSDiv {
			r.Quo(sx, sy)
		} else {
			r.Rem(sx, sy)
		}
	case OpBAnd:
		r.And(x, y)
	case OpBOr:
		r.Or(x, y)
	case OpBXor:
		r.Xor(x, y)
	case OpShl:
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Lsh(x, uint(y.Uint64()))
	case OpLShr:
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Rsh(x, uint(y.Uint64()))
	default:
		panic("evalBinBig")
	}
	return r.And(r, bigMask(w))
}

func (b *TermBank) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], x.w, y.w))
	}
	w := x.w
	if x.isConst() && y.isConst() {
		if w <= 64 {
			return b.Const(w, evalBin(op, w, x.u, y.u))
		}
		return b.BigConst(w, evalBinBig(op, w, x.big, y.big))
	}
	zero := func(t *Term) bool {
		return t.isConst() && ((w <= 64 && t.u == 0) || (w > 64 && t.big.Sign() == 0))
	}
	one := func(t *Term) bool {
		return t.isConst() && ((w <= 64 && t.u == 1) || (w > 64 && t.big.Cmp(big.NewInt(1)) == 0))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if x.isConst() {
			x, y = y, x
		} else if !y.isConst() && x.id > y.id {
			x, y = y, x
		}
	}
	switch op {
	case OpAdd:
		if zero(y) {
			return x
		}
		if y.isConst() && x.op == OpAdd && x.a[1].isConst() && w <= 64 {
			return b.Bin(OpAdd, x.a[0], b.Const(w, x.a[1].u+y.u))
		}
	case OpSub:
		if zero(y) {
			return x
		}
		if x == y {
			return b.Const(w, 0)
		}
		if y.isConst() && w <= 64 {
			return b.Bin(OpAdd, x, b.Const(w, -y.u))
		}
	case OpMul:
		if zero(y) {
			return y
		}
		if one(y) {
			return x
		}
	case OpUDiv, OpSDiv:
		if one(y) {
			return x
		}
		if op == OpSDiv {
			if xl, _, ok := x.srange(); ok && xl >= 0 {
				if yl, _, ok := y.srange(); ok && yl > 0 {
					return b.Bin(OpUDiv, x, y)
				}
			}
		}
	case OpSRem:
		if xl, _, ok := x.srange(); ok && xl >= 0 {
			if yl, _, ok := y.srange(); ok && yl > 0 {
				return b.Bin(OpURem, x, y)
			}
		}
	case OpURem:
		if w <= 64 && y.isConst() && x.hi < y.u {
			return x
		}
	case OpBAnd:
		if zero(y) {
			return y
		}
		if y.isConst() && w <= 64 && y.u == mask(w) {
			return x
		}
		if y.isConst() && w <= 64 && y.u&(y.u+1) == 0 && x.hi <= y.u {
			return x
		}
	case OpBOr, OpBXor:
		if zero(y) {
			return x
		}
	case OpShl, OpLShr, OpAShr:
		if zero(y) {
			return x
		}
	}
	t := b.mk(&Term{op: op, w: w, a: [3]*Term{x, y}, n: 2})
	if w <= 64 && t.lo == t.hi {
		return b.Const(w, t.lo)
	}
	return t
}

func (b *TermBank) BNot(x *Term) *Term {
	if x.isConst() {
		if x.w <= 64 {
			return b.Const(x.w, ^x.u)
		}
		return b.BigConst(x.w, new(big.Int).Xor(x.big, bigMask(x.w)))
	}
	return b.mk(&Term{op: OpBNot, w: x.w, a: [3]*Term{x}, n: 1})
}

func (b *TermBank) Neg(x *Term) *Term {
	if x.isConst() {
		if x.w <= 64 {
			return b.Const(x.w, -x.u)
		}
		return b.BigConst(x.w, new(big.Int).Neg(x.big))
	}
	return b.mk(&Term{op: OpNeg, w: x.w, a: [3]*Term{x}, n: 1})
}

func (b *TermBank) Extract(x *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return b.BigConst(w, new(big.Int).Rsh(b.bigOf(x), uint(lo)))
	}
	if lo == 0 {
		if (x.op == OpZExt || x.op == OpSExt) && w <= x.a[0].w {
			return b.Extract(x.a[0], hi, 0)
		}
		if x.op == OpZExt && w > x.a[0].w {
			return b.ZExt(x.a[0], w)
		}
		if x.op == OpSExt && w > x.a[0].w {
			return b.SExt(x.a[0], w)
		}
	}
	return b.mk(&Term{op: OpExtract, w: w, p1: hi, p2: lo, a: [3]*Term{x}, n: 1})
}

func (b *TermBank) ZExt(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return b.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return b.BigConst(w, b.bigOf(x))
	}
	if x.op == OpZExt {
		return b.ZExt(x.a[0], w)
	}
	return b.mk(&Term{op: OpZExt, w: w, p1: w - x.w, a: [3]*Term{x}, n: 1})
}

func (b *TermBank) SExt(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return b.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return b.BigConst(w, bigSigned(b.bigOf(x), x.w))
	}
	if lo, _, ok := x.srange(); ok && lo >= 0 {
		return b.ZExt(x, w)
	}
	if x.op == OpZExt {
		return b.ZExt(x.a[0], w)
	}
	return b.mk(&Term{op: OpSExt, w: w, p1: w - x.w, a: [3]*Term{x}, n: 1})
}

// ---- evaluation ----

// Model maps variable names to values (booleans as 0/1).
type Model map[string]uint64

func (b *TermBank) BeginEval() { b.stamp++ }

// Eval evaluates t under m using the current stamp's memo (call BeginEval
// whenever the model changes).
func (b *TermBank) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.u
	}
	if t.mark == b.stamp {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OpVar:
		v, ok := m[t.name]
		if !ok {
			v = t.defaultVal()
		}
		r = v
	case OpNot:
		r = 1 - b.Eval(t.a[0], m)
	case OpAnd:
		r = b.Eval(t.a[0], m)
		if r != 0 {
			r = b.Eval(t.a[1], m)
		}
	case OpOr:
		r = b.Eval(t.a[0], m)
		if r == 0 {
			r = b.Eval(t.a[1], m)
		}
	case OpIte:
		if t.w > 64 {
			t.evb = b.EvalBig(t.a[2], m)
			if b.Eval(t.a[0], m) != 0 {
				t.evb = b.EvalBig(t.a[1], m)
			}
			break
		}
		if b.Eval(t.a[0], m) != 0 {
			r = b.Eval(t.a[1], m)
		} else {
			r = b.Eval(t.a[2], m)
		}
	case OpEq, OpULt, OpULe, OpSLt, OpSLe:
		x, y := t.a[0], t.a[1]
		var c bool
		if x.w > 64 {
			p, q := b.EvalBig(x, m), b.EvalBig(y, m)
			if t.op == OpSLt || t.op == OpSLe {
				p, q = bigSigned(p, x.w), bigSigned(q, y.w)
			}
			k := p.Cmp(q)
			switch t.op {
			case OpEq:
				c = k == 0
			case OpULt, OpSLt:
				c = k < 0
			default:
				c = k <= 0
			}
		} else {
			p, q := b.Eval(x, m), b.Eval(y, m)
			switch t.op {
			case OpEq:
				c = p == q
			case OpULt:
				c = p < q
			case OpULe:
				c = p <= q
			case OpSLt:
				c = sext64(p, x.w) < sext64(q, y.w)
			case OpSLe:
				c = sext64(p, x.w) <= sext64(q, y.w)
			}
		}
		if c {
			r = 1
		}
	default:
		wide := t.w > 64 || (t.n > 0 && t.a[0].w > 64)
		if wide {
			v := b.evalWide(t, m)
			if t.w > 64 {
				t.evb = v
			} else {
				r = v.Uint64()
			}
			break
		}
		x := b.Eval(t.a[0], m)
		switch t.op {
		case OpBNot:
			r = ^x & mask(t.w)
		case OpNeg:
			r = -x & mask(t.w)
		case OpExtract:
			r = (x >> uint(t.p2)) & mask(t.w)
		case OpZExt:
			r = x
		case OpSExt:
			r = uint64(sext64(x, t.a[0].w)) & mask(t.w)
		default:
			r = evalBin(t.op, t.w, x, b.Eval(t.a[1], m))
		}
	}
	t.mark = b.stamp
	t.ev = r
	return r
}

func (b *TermBank) EvalBig(t *Term, m Model) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(b.Eval(t, m))
	}
	if t.op == OpConst {
		return t.big
	}
	b.Eval(t, m)
	return t.evb
}

func (b *TermBank) evalWide(t *Term, m Model) *big.Int {
	x := b.EvalBig(t.a[0], m)
	switch t.op {
	case OpBNot:
		return new(big.Int).Xor(x, bigMask(t.w))
	case OpNeg:
		r := new(big.Int).Neg(x)
		return r.And(r, bigMask(t.w))
	case OpExtract:
		r := new(big.Int).Rsh(x, uint(t.p2))
		return r.And(r, bigMask(t.w))
	case OpZExt:
		return x
	case OpSExt:
		r := new(big.Int).Set(bigSigned(x, t.a[0].w))
		return r.And(r, bigMask(t.w))
	}
	return evalBinBig(t.op, t.w, x, b.EvalBig(t.a[1], m))
}

func (t *Term) defaultVal() uint64 {
	if t.dom != nil {
		for v := uint64(0); v < 256; v++ {
			if domHas(t.dom, v) && v >= t.lo && v <= t.hi {
				return v
			}
		}
	}
	return t.lo
}

// ---- SMT-LIB ----

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func (t *Term) constSMT() string {
	if t.w == 0 {
		if t.u != 0 {
			return "true"
		}
		return "false"
	}
	if t.w > 64 {
		return "(_ bv" + t.big.String() + " " + strconv.Itoa(t.w) + ")"
	}
	return "(_ bv" + strconv.FormatUint(t.u, 10) + " " + strconv.Itoa(t.w) + ")"
}

func (t *Term) refSMT() string {
	switch t.op {
	case OpConst:
		return t.constSMT()
	case OpVar:
		return "|[" + t.name + "]" + strconv.Itoa(t.id) + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) bodySMT() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.p1, t.p2)
	case OpZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.p1)
	case OpSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.p1)
	default:
		sb.WriteString(opNames[t.op])
	}
	for i := 0; i < t.n; i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].refSMT())
	}
	sb.WriteByte(')')
	return sb.String()
}

// domain constraint of a variable, "" if none
func (t *Term) domSMT() string {
	if t.op != OpVar || t.w == 0 {
		return ""
	}
	n := t.refSMT()
	c := func(v uint64) string { return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(t.w) + ")" }
	if t.dom != nil {
		var parts []string
		for v := uint64(0); v < 256; {
			if !domHas(t.dom, v) {
				v++
				continue
			}
			e := v
			for e+1 < 256 && domHas(t.dom, e+1) {
				e++
			}
			if e == v {
				parts = append(parts, "(= "+n+" "+c(v)+")")
			} else {
				parts = append(parts, "(and (bvule "+c(v)+" "+n+") (bvule "+n+" "+c(e)+"))")
			}
			v = e + 1
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(or " + strings.Join(parts, " ") + ")"
	}
	if t.lo == 0 && t.hi == mask(t.w) {
		return ""
	}
	return "(and (bvule " + c(t.lo) + " " + n + ") (bvule " + n + " " + c(t.hi) + "))"
}
