package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---- conversion between values and terms ----

// intTerm returns v as a term of width w.
func (i *Interp) intTerm(v value, w int) *Term {
	switch v := v.(type) {
	case uint64:
		return i.bank.Const(w, v)
	case *Term:
		if v.w != w {
			panic(unsupported("intTerm width %d vs %d", v.w, w))
		}
		return v
	}
	panic(unsupported("intTerm of %T", v))
}

func (i *Interp) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return i.bank.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported("boolTerm of %T", v))
}

// truth decides a boolean value.
func (i *Interp) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return i.decide(v)
	}
	panic(unsupported("truth of %T", v))
}

// ---- operators ----

func (i *Interp) unop(fr *frame, ci *cinstr, in *ssa.UnOp) value {
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		p := i.ptr(x)
		if i.mon != nil {
			i.mon.read(i, p)
		}
		return copyVal(*p)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return boolVal(i.bank.Not(x))
		}
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			return canonInt(-x, ci.w, ci.sg)
		case *Term:
			return termVal(i.bank.Neg(x), ci.w, ci.sg)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			return canonInt(^x, ci.w, ci.sg)
		case *Term:
			return termVal(i.bank.BNot(x), ci.w, ci.sg)
		}
	case token.ARROW:
		ch := x.(*chanV)
		var v value
		ok := false
		if len(ch.buf) > 0 {
			v, ok = ch.buf[0], true
			ch.buf = ch.buf[1:]
		} else if ch.closed {
			v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		} else {
			panic(unsupported("blocking channel receive"))
		}
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(unsupported("unop %s on %T", in.Op, x))
}

var binOpU = map[token.Token][2]Op{ // unsigned, signed
	token.ADD: {OpAdd, OpAdd}, token.SUB: {OpSub, OpSub}, token.MUL: {OpMul, OpMul}, token.QUO: {OpUDiv, OpSDiv}, token.REM: {OpURem, OpSRem},
	token.AND: {OpBAnd, OpBAnd}, token.OR: {OpBOr, OpBOr}, token.XOR: {OpBXor, OpBXor},
}

func (i *Interp) binop(ci *cinstr, op token.Token, t types.Type, x, y value, in *ssa.BinOp) value {
	switch op {
	case token.EQL:
		return i.equals(t, x, y)
	case token.NEQ:
		switch r := i.equals(t, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return boolVal(i.bank.Not(r))
		}
	}
	switch ci.k {
	case 1:
		return i.intBin(op, ci.w, ci.sg, x, y, in)
	case 2:
		a, b := i.float(x), i.float(y)
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		default:
			panic(unsupported("float op %s", op))
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	case 3:
		switch op {
		case token.ADD:
			return i.strCat(x, y)
		case token.LSS:
			return i.strLess(x, y)
		case token.GTR:
			return i.strLess(y, x)
		case token.LEQ:
			return i.notVal(i.strLess(y, x))
		case token.GEQ:
			return i.notVal(i.strLess(x, y))
		}
	case 4:
		a, b := i.boolTerm(x), i.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return boolVal(i.bank.And(a, b))
		case token.OR, token.LOR:
			return boolVal(i.bank.Or(a, b))
		}
	case 5:
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	panic(unsupported("binop %s on %s", op, t))
}

func (i *Interp) notVal(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return boolVal(i.bank.Not(v))
	}
	panic(unsupported("notVal %T", v))
}

func (i *Interp) float(v value) float64 {
	switch v := v.(type) {
	case float64:
		return v
	}
	panic(unsupported("float of %T", v))
}

func (i *Interp) intBin(op token.Token, w int, sg bool, x, y value, in *ssa.BinOp) value {
	if op == token.SHL || op == token.SHR {
		return i.shift(op, w, sg, x, y, in)
	}
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return canonInt(a+b, w, sg)
		case token.SUB:
			return canonInt(a-b, w, sg)
		case token.MUL:
			return canonInt(a*b, w, sg)
		case token.QUO:
			if b == 0 {
				i.rtPanic("integer divide by zero")
			}
			if sg {
				if int64(b) == -1 {
					return canonInt(-a, w, sg)
				}
				return canonInt(uint64(int64(a)/int64(b)), w, sg)
			}
			return a / b
		case token.REM:
			if b == 0 {
				i.rtPanic("integer divide by zero")
			}
			if sg {
				if int64(b) == -1 {
					return uint64(0)
				}
				return canonInt(uint64(int64(a)%int64(b)), w, sg)
			}
			return a % b
		case token.AND:
			return canonInt(a&b, w, sg)
		case token.OR:
			return canonInt(a|b, w, sg)
		case token.XOR:
			return canonInt(a^b, w, sg)
		case token.AND_NOT:
			return canonInt(a&^b, w, sg)
		case token.LSS:
			if sg {
				return int64(a) < int64(b)
			}
			return a < b
		case token.LEQ:
			if sg {
				return int64(a) <= int64(b)
			}
			return a <= b
		case token.GTR:
			if sg {
				return int64(a) > int64(b)
			}
			return a > b
		case token.GEQ:
			if sg {
				return int64(a) >= int64(b)
			}
			return a >= b
		}
		panic(unsupported("int op %s", op))
	}
	if _, isP := x.(*value); isP {
		panic(unsupported("pointer arithmetic"))
	}
	B := i.bank
	p, q := i.intTerm(x, w), i.intTerm(y, w)
	lt, le := B.ULt, B.ULe
	if sg {
		lt, le = B.SLt, B.SLe
	}
	switch op {
	case token.LSS:
		return boolVal(lt(p, q))
	case token.LEQ:
		return boolVal(le(p, q))
	case token.GTR:
		return boolVal(lt(q, p))
	case token.GEQ:
		return boolVal(le(q, p))
	case token.AND_NOT:
		return termVal(B.Bin(OpBAnd, p, B.BNot(q)), w, sg)
	case token.QUO, token.REM:
		if i.decide(B.Eq(q, B.Const(w, 0))) {
			i.rtPanic("integer divide by zero")
		}
	}
	o := binOpU[op][0]
	if sg {
		o = binOpU[op][1]
	}
	return termVal(B.Bin(o, p, q), w, sg)
}

func (i *Interp) shift(op token.Token, w int, sg bool, x, y value, in *ssa.BinOp) value {
	yw, ysg, _ := intInfo(in.Y.Type())
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok2 && ysg && int64(b) < 0 {
		i.rtPanic("negative shift amount")
	}
	if ok1 && ok2 {
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return canonInt(a<<b, w, sg)
		}
		if sg {
			if b >= 64 {
				b = 63
			}
			return canonInt(uint64(int64(a)>>b), w, sg)
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	}
	B := i.bank
	p := i.intTerm(x, w)
	var q *Term
	if ok2 {
		if b > 255 {
			b = 255
		}
		if w == 8 && b > 127 {
			b = 127
		}
		q = B.Const(w, b)
	} else {
		yt := y.(*Term)
		if ysg {
			if i.decide(B.SLt(yt, B.Const(yw, 0))) {
				i.rtPanic("negative shift amount")
			}
		}
		if yw > w {
			big := B.ULe(B.Const(yw, uint64(w)), yt)
			q = B.Ite(big, B.Const(w, uint64(w)), B.Extract(yt, w-1, 0))
		} else {
			q = B.ZExt(yt, w)
		}
	}
	switch {
	case op == token.SHL:
		return termVal(B.Bin(OpShl, p, q), w, sg)
	case sg:
		return termVal(B.Bin(OpAShr, p, q), w, sg)
	}
	return termVal(B.Bin(OpLShr, p, q), w, sg)
}

// equals compares two values of static type t, giving a bool or a term.
func (i *Interp) equals(t types.Type, x, y value) value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return boolVal(i.bank.Eq(b, i.bank.Const(b.w, a)))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return boolVal(i.bank.Eq(i.bank.Bool(a), b))
		}
	case *Term:
		switch b := y.(type) {
		case uint64:
			return boolVal(i.bank.Eq(a, i.bank.Const(a.w, b)))
		case bool:
			return boolVal(i.bank.Eq(a, i.bank.Bool(b)))
		case *Term:
			return boolVal(i.bank.Eq(a, b))
		}
	case string, *SymStr:
		i.opaqueCheck(x)
		i.opaqueCheck(y)
		return i.strEq(x, y)
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			return a == b
		}
	case *value:
		switch b := y.(type) {
		case *value:
			return a == b
		case nativeV:
			return false
		}
	case nativeV:
		if b, ok := y.(nativeV); ok {
			return nativeEq(a.x, b.x)
		}
		return false
	case []value:
		return a == nil && isNilSlice(y)
	case *mapV:
		b, _ := y.(*mapV)
		return a == b
	case *chanV:
		b, _ := y.(*chanV)
		return a == b
	case *ssa.Function:
		switch b := y.(type) {
		case *ssa.Function:
			return a == b
		}
		return false
	case *closure, *nativeFn, *ssa.Builtin:
		return false
	case structV:
		b, ok := y.(structV)
		if !ok {
			return false
		}
		st, _ := t.Underlying().(*types.Struct)
		r := i.bank.True
		for k := range a {
			var ft types.Type
			if st != nil {
				ft = st.Field(k).Type()
			}
			r = i.bank.And(r, i.boolTerm(i.equals(ft, a[k], b[k])))
			if r == i.bank.False {
				return false
			}
		}
		return boolVal(r)
	case arrayV:
		b := y.(arrayV)
		r := i.bank.True
		for k := range a {
			r = i.bank.And(r, i.boolTerm(i.equals(nil, a[k], b[k])))
			if r == i.bank.False {
				return false
			}
		}
		return boolVal(r)
	case iface, *lazyIface, nil:
		if x == y {
			switch x.(type) {
			case *lazyIface:
				return true
			}
		}
		f, g := i.asIface(x), i.asIface(y)
		if f.t == nil || g.t == nil {
			return f.t == nil && g.t == nil
		}
		if f.t != g.t {
			return false
		}
		if !types.Comparable(f.t) {
			panic(targetPanic{iface{i.P.rtErr, "runtime error: comparing uncomparable type " + f.t.String()}})
		}
		return i.equals(f.t, f.v, g.v)
	case ratV:
		panic(unsupported("comparison of big.Rat structs"))
	}
	panic(unsupported("equals %T %T", x, y))
}

func nativeEq(a, b interface{}) bool {
	defer func() { recover() }()
	return a == b
}

func isNilSlice(v value) bool {
	s, ok := v.([]value)
	return ok && s == nil
}

// opaque strings (text depending on symbolic numbers that is not modelled)
const opaqueMark = "\x00SYM\x00"

func (i *Interp) opaqueCheck(v value) {
	if s, ok := v.(string); ok && strings.Contains(s, opaqueMark) {
		i.incompl["comparison of unmodelled text"]++
	}
}

// ---- conversions ----

func (i *Interp) convert(to, from types.Type, x value) value {
	ut, uf := to.Underlying(), from.Underlying()
	if tp, ok := ut.(*types.TypeParam); ok {
		ut = tp.Constraint().Underlying()
	}
	bt, isBt := ut.(*types.Basic)
	bf, isBf := uf.(*types.Basic)
	if isBt && bt.Kind() == types.UnsafePointer {
		if u, ok := x.(uint64); ok && u == 0 {
			return (*value)(nil)
		}
		return x
	}
	if isBf && bf.Kind() == types.UnsafePointer {
		if isBt && bt.Info()&types.IsInteger != 0 {
			if p, ok := x.(*value); ok {
				return uint64(uintptr(unsafe.Pointer(p)))
			}
		}
		return x
	}
	if isBt && isBf {
		switch {
		case bt.Info()&types.IsInteger != 0 && bf.Info()&types.IsInteger != 0:
			w, sg, _ := intInfo(bt)
			fw, fs, _ := intInfo(bf)
			switch x := x.(type) {
			case uint64:
				return canonInt(x, w, sg)
			case *Term:
				_ = fw
				if w <= x.w {
					return termVal(i.bank.Extract(x, w-1, 0), w, sg)
				}
				if fs {
					return termVal(i.bank.SExt(x, w), w, sg)
				}
				return termVal(i.bank.ZExt(x, w), w, sg)
			}
		case bt.Info()&types.IsFloat != 0 && bf.Info()&types.IsInteger != 0:
			_, fs, _ := intInfo(bf)
			u := i.concIntS(x, fs)
			var f float64
			if fs {
				f = float64(int64(u))
			} else {
				f = float64(u)
			}
			if bt.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case bt.Info()&types.IsFloat != 0 && bf.Info()&types.IsFloat != 0:
			f := i.float(x)
			if bt.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case bt.Info()&types.IsInteger != 0 && bf.Info()&types.IsFloat != 0:
			w, sg, _ := intInfo(bt)
			f := i.float(x)
			if sg {
				return canonInt(uint64(int64(f)), w, sg)
			}
			if f >= 1<<63 {
				return canonInt(uint64(f), w, sg)
			}
			return canonInt(uint64(int64(f)), w, sg)
		case bt.Info()&types.IsString != 0 && bf.Info()&types.IsInteger != 0:
			if u, ok := x.(uint64); ok {
				return i.mkStr(i.encodeRune(u))
			}
			t := x.(*Term)
			if t.w > 32 {
				t = i.bank.Extract(t, 31, 0)
			} else if t.w < 32 {
				t = i.bank.ZExt(t, 32)
			}
			return i.mkStr(i.encodeRune(t))
		case bt.Info()&types.IsString != 0 && bf.Info()&types.IsString != 0:
			return x
		case bt.Info()&types.IsComplex != 0:
			return x
		}
	}
	if isBt && bt.Info()&types.IsString != 0 {
		if sl, ok := uf.(*types.Slice); ok {
			if w, _, _ := intInfo(sl.Elem()); w == 8 {
				s := x.([]value)
				if i.mon != nil {
					for k := range s {
						i.mon.read(i, &s[k])
					}
				}
				return i.bytesToStr(s)
			}
			var b []*Term
			for _, r := range x.([]value) {
				b = append(b, i.encodeRune(r)...)
			}
			return i.mkStr(b)
		}
	}
	if sl, ok := ut.(*types.Slice); ok && isBf && bf.Info()&types.IsString != 0 {
		if w, _, _ := intInfo(sl.Elem()); w == 8 {
			return i.strToBytes(x)
		}
		var r []value
		r = []value{}
		if s, ok := x.(string); ok {
			for _, c := range s {
				r = append(r, uint64(int64(c)))
			}
			return r
		}
		b := x.(*SymStr).b
		for len(b) > 0 {
			c, n := i.decodeRune(b)
			r = append(r, c)
			b = b[n:]
		}
		return r
	}
	switch ut.(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Array, *types.Map, *types.Signature, *types.Chan, *types.Interface:
		return x
	}
	panic(unsupported("convert %s -> %s (%T)", from, to, x))
}

func (i *Interp) concIntS(v value, signed bool) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return canonInt(i.concretize(v), v.w, signed)
	}
	panic(unsupported("concIntS %T", v))
}

// ---- builtins ----

func (i *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			if i.mon != nil {
				i.mon.read(i, &x.cell)
			}
			return uint64(x.n)
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayV)))
		case *chanV:
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayV)))
		case *chanV:
			return uint64(x.cap)
		}
	case "append":
		s, _ := args[0].([]value)
		switch y := args[1].(type) {
		case string, *SymStr:
			return i.appendS(s, i.strToBytes(y), elemOf(c))
		case []value:
			return i.appendS(s, y, elemOf(c))
		}
	case "copy":
		d := args[0].([]value)
		var s []value
		switch y := args[1].(type) {
		case string, *SymStr:
			s = i.strToBytes(y)
		case []value:
			s = y
		}
		n := min(len(d), len(s))
		if i.mon != nil {
			for k := 0; k < n; k++ {
				i.mon.read(i, &s[k])
				i.mon.write(i, &d[k])
			}
		}
		tmp := make([]value, n)
		for k := 0; k < n; k++ {
			tmp[k] = copyVal(s[k])
		}
		for k := 0; k < n; k++ {
			storeInto(&d[k], tmp[k])
		}
		return uint64(n)
	case "delete":
		i.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				if i.mon != nil {
					i.mon.write(i, &x.cell)
				}
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[interface{}]*mapEnt{}, 0, 0
			}
		case []value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for k := range x {
				storeInto(&x[k], zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{i.asIface(args[0])})
	case "recover":
		// called from a deferred function: fr is the deferred function's frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.panic.(targetPanic).v
		}
		return iface{}
	case "close":
		args[0].(*chanV).closed = true
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for k := 1; k < len(args); k++ {
			less := i.lessVal(t, args[k], r)
			if b.Name() == "max" {
				less = i.lessVal(t, r, args[k])
			}
			if i.truth(less) {
				r = args[k]
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			i.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(i.concInt(args[1]))
		if n == 0 {
			return ""
		}
		return i.bytesToStr(sliceFromPtr(args[0].(*value), n))
	case "StringData":
		s := i.strToBytes(args[0])
		if len(s) == 0 {
			return (*value)(nil)
		}
		return &s[0]
	case "Slice":
		n := int(i.concInt(args[1]))
		return sliceFromPtr(args[0].(*value), n)
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &s[:1][0]
	case "Sizeof":
		panic(unsupported("unsafe.Sizeof"))
	}
	panic(unsupported("builtin %s(%T)", b.Name(), args[0]))
}

func (i *Interp) lessVal(t types.Type, x, y value) value {
	switch basicClass(t) {
	case 1:
		w, sg, _ := intInfo(t)
		return i.intBin(token.LSS, w, sg, x, y, nil)
	case 2:
		return i.float(x) < i.float(y)
	case 3:
		return i.strLess(x, y)
	}
	panic(unsupported("less on %s", t))
}

func elemOf(c *ssa.CallCommon) types.Type {
	if c == nil {
		return nil
	}
	if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

// growCap follows the runtime's slice growth.
func growCap(oldCap, need int, et types.Type) int {
	nc := need
	if need <= 2*oldCap {
		if oldCap < 256 {
			nc = 2 * oldCap
		} else {
			nc = oldCap
			for nc < need {
				nc += (nc + 768) / 4
			}
		}
	}
	if et == nil {
		return nc
	}
	es := int(stdSizes.Sizeof(et))
	if es == 0 {
		return nc
	}
	b := nc * es
	for _, c := range sizeClasses {
		if b <= c {
			return c / es
		}
	}
	b = (b + 8191) &^ 8191
	return b / es
}

func (i *Interp) appendS(s, y []value, et types.Type) value {
	if len(y) == 0 {
		return s
	}
	n := len(s)
	if n+len(y) <= cap(s) {
		// in place, visible through aliases
		r := s[:n+len(y)]
		for k := range y {
			if i.mon != nil {
				i.mon.read(i, &y[k])
				i.mon.write(i, &r[n+k])
			}
			v := copyVal(y[k])
			r[n+k] = v
		}
		return r
	}
	nc := growCap(cap(s), n+len(y), et)
	r := make([]value, n+len(y), nc)
	for k := range s {
		if i.mon != nil {
			i.mon.read(i, &s[k])
		}
		r[k] = copyVal(s[k])
	}
	for k := range y {
		if i.mon != nil {
			i.mon.read(i, &y[k])
		}
		r[n+k] = copyVal(y[k])
	}
	full := r[:cap(r)]
	if et != nil {
		for k := n + len(y); k < len(full); k++ {
			full[k] = zero(et)
		}
	}
	if i.mon != nil {
		for k := range full {
			i.mon.alloc(&full[k])
		}
	}
	return r
}

// ---- helpers used by models ----

func (i *Interp) concValStr(v value) string { return i.concStr(v) }

func ratOfTermBits(t *Term) int { return t.w }

func bigFromTerm(b *big.Int, w int) *big.Int { return bigSigned(b, w) }

var _ = math.Pi
var _ = utf8.RuneError
var _ = fmt.Sprint
