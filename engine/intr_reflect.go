package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- reflect ----

type reflVal struct {
	t    types.Type // static/dynamic type (canonical)
	v    value
	addr *value
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (i *Interp) rv(v value) reflVal {
	if n, ok := v.(nativeV); ok {
		if r, ok := n.x.(reflVal); ok {
			if r.addr != nil {
				r.v = *r.addr
			}
			return r
		}
	}
	return reflVal{} // zero reflect.Value
}

func mkRV(t types.Type, v value) value { return nativeV{reflVal{t: canon(t), v: v}} }

func (i *Interp) typeIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{canon(types.NewPointer(i.named("reflect", "rtype"))), nativeV{canon(t)}}
}

func (i *Interp) reflPanic(m, k string) value {
	panic(targetPanic{iface{i.P.rtErr, "reflect: call of reflect.Value." + m + " on " + k + " Value"}})
}

func isNilVal(v value) bool {
	switch v := v.(type) {
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *mapV:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *chanV:
		return v == nil
	case iface:
		return v.t == nil
	case nil:
		return true
	}
	return false
}

func init() {
	reg("reflect.ValueOf", func(i *Interp, fr *frame, a []value) value {
		f := i.asIface(a[0])
		if f.t == nil {
			return zero(i.named("reflect", "Value"))
		}
		return mkRV(f.t, f.v)
	})
	reg("reflect.TypeOf", func(i *Interp, fr *frame, a []value) value {
		return i.typeIface(i.asIface(a[0]).t)
	})
	m := func(n string, f func(i *Interp, r reflVal, a []value) value) {
		reg("(reflect.Value)."+n, func(i *Interp, fr *frame, a []value) value { return f(i, i.rv(a[0]), a[1:]) })
	}
	m("Kind", func(i *Interp, r reflVal, a []value) value { return uint64(kindOf(r.t)) })
	m("IsValid", func(i *Interp, r reflVal, a []value) value { return r.t != nil })
	m("CanInterface", func(i *Interp, r reflVal, a []value) value { return r.t != nil })
	m("CanAddr", func(i *Interp, r reflVal, a []value) value { return r.addr != nil })
	m("CanSet", func(i *Interp, r reflVal, a []value) value { return r.addr != nil })
	m("Type", func(i *Interp, r reflVal, a []value) value {
		if r.t == nil {
			i.reflPanic("Type", "zero")
		}
		return i.typeIface(r.t)
	})
	m("IsNil", func(i *Interp, r reflVal, a []value) value {
		switch kindOf(r.t) {
		case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Slice, reflect.UnsafePointer:
			if l, ok := r.v.(*lazyIface); ok {
				return i.force(l).t == nil
			}
			return isNilVal(r.v)
		}
		return i.reflPanic("IsNil", kindOf(r.t).String())
	})
	m("IsZero", func(i *Interp, r reflVal, a []value) value { return i.equals(r.t, r.v, zero(r.t)) })
	m("Len", func(i *Interp, r reflVal, a []value) value {
		switch x := r.v.(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case arrayV:
			return uint64(len(x))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		}
		return i.reflPanic("Len", kindOf(r.t).String())
	})
	m("Index", func(i *Interp, r reflVal, a []value) value {
		switch x := r.v.(type) {
		case []value:
			et := r.t.Underlying().(*types.Slice).Elem()
			k := i.boundIndex(a[0], len(x))
			return nativeV{reflVal{t: canon(et), v: x[k], addr: &x[k]}}
		case arrayV:
			et := r.t.Underlying().(*types.Array).Elem()
			return mkRV(et, x[i.boundIndex(a[0], len(x))])
		case string, *SymStr:
			return mkRV(types.Typ[types.Uint8], i.strAt(x, i.boundIndex(a[0], strLen(x))))
		}
		return i.reflPanic("Index", kindOf(r.t).String())
	})
	m("MapKeys", func(i *Interp, r reflVal, a []value) value {
		mv, ok := r.v.(*mapV)
		if !ok {
			return i.reflPanic("MapKeys", kindOf(r.t).String())
		}
		s := []value{}
		kt := r.t.Underlying().(*types.Map).Key()
		if mv != nil {
			it := i.newMapIter(mv)
			for _, e := range it.ord {
				s = append(s, mkRV(kt, e.k))
			}
		}
		return s
	})
	m("MapIndex", func(i *Interp, r reflVal, a []value) value {
		mv, ok := r.v.(*mapV)
		if !ok {
			return i.reflPanic("MapIndex", kindOf(r.t).String())
		}
		e := i.mapGet(mv, i.rv(a[0]).v)
		if e == nil {
			return zero(i.named("reflect", "Value"))
		}
		return mkRV(r.t.Underlying().(*types.Map).Elem(), e.v)
	})
	m("Elem", func(i *Interp, r reflVal, a []value) value {
		switch kindOf(r.t) {
		case reflect.Interface:
			f := i.asIface(r.v)
			if f.t == nil {
				return zero(i.named("reflect", "Value"))
			}
			return mkRV(f.t, f.v)
		case reflect.Ptr:
			p, _ := r.v.(*value)
			if p == nil {
				return zero(i.named("reflect", "Value"))
			}
			return nativeV{reflVal{t: canon(r.t.Underlying().(*types.Pointer).Elem()), addr: p}}
		}
		return i.reflPanic("Elem", kindOf(r.t).String())
	})
	m("Interface", func(i *Interp, r reflVal, a []value) value {
		if r.t == nil {
			i.reflPanic("Interface", "zero")
		}
		if kindOf(r.t) == reflect.Interface {
			return r.v
		}
		return iface{r.t, copyVal(r.v)}
	})
	m("String", func(i *Interp, r reflVal, a []value) value {
		if kindOf(r.t) == reflect.String {
			return r.v
		}
		if r.t == nil {
			return "<invalid Value>"
		}
		return "<" + r.t.String() + " Value>"
	})
	basic := func(name string, kinds ...reflect.Kind) {
		m(name, func(i *Interp, r reflVal, a []value) value {
			k := kindOf(r.t)
			for _, x := range kinds {
				if x == k {
					if name == "Int" {
						if t, ok := r.v.(*Term); ok {
							return i.bank.SExt(t, 64)
						}
					}
					if name == "Uint" {
						if t, ok := r.v.(*Term); ok {
							return i.bank.ZExt(t, 64)
						}
					}
					return r.v
				}
			}
			return i.reflPanic(name, k.String())
		})
	}
	basic("Bool", reflect.Bool)
	basic("Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	basic("Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	basic("Float", reflect.Float32, reflect.Float64)
	m("NumField", func(i *Interp, r reflVal, a []value) value {
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	m("Field", func(i *Interp, r reflVal, a []value) value {
		k := int(a[0].(uint64))
		return mkRV(r.t.Underlying().(*types.Struct).Field(k).Type(), r.v.(structV)[k])
	})
	m("Set", func(i *Interp, r reflVal, a []value) value {
		if r.addr == nil {
			return i.reflPanic("Set", "unaddressable")
		}
		storeInto(r.addr, i.rv(a[0]).v)
		return nil
	})
	reg("(reflect.Kind).String", func(i *Interp, fr *frame, a []value) value { return reflect.Kind(a[0].(uint64)).String() })
	tm := func(n string, f func(i *Interp, t types.Type, a []value) value) {
		reg("(*reflect.rtype)."+n, func(i *Interp, fr *frame, a []value) value { return f(i, a[0].(nativeV).x.(types.Type), a[1:]) })
	}
	tm("Kind", func(i *Interp, t types.Type, a []value) value { return uint64(kindOf(t)) })
	tm("String", func(i *Interp, t types.Type, a []value) value { return typeStr(t) })
	tm("Name", func(i *Interp, t types.Type, a []value) value {
		switch n := t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	})
	tm("Elem", func(i *Interp, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return i.typeIface(u.Elem())
		case *types.Pointer:
			return i.typeIface(u.Elem())
		case *types.Array:
			return i.typeIface(u.Elem())
		case *types.Map:
			return i.typeIface(u.Elem())
		}
		panic(unsupported("rtype.Elem"))
	})
	tm("PkgPath", func(i *Interp, t types.Type, a []value) value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	tm("Comparable", func(i *Interp, t types.Type, a []value) value { return types.Comparable(t) })
	reg("reflect.DeepEqual", func(i *Interp, fr *frame, a []value) value {
		return boolVal(i.deepEq(i.asIface(a[0]), i.asIface(a[1]), 0))
	})
	reg("reflect.Indirect", func(i *Interp, fr *frame, a []value) value {
		r := i.rv(a[0])
		if kindOf(r.t) != reflect.Ptr {
			return a[0]
		}
		p, _ := r.v.(*value)
		if p == nil {
			return zero(i.named("reflect", "Value"))
		}
		return nativeV{reflVal{t: canon(r.t.Underlying().(*types.Pointer).Elem()), addr: p}}
	})
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (i *Interp) deepEq(x, y iface, d int) *Term {
	if x.t == nil || y.t == nil {
		return i.bank.Bool(x.t == nil && y.t == nil)
	}
	if x.t != y.t {
		return i.bank.False
	}
	return i.deepEqV(x.t, x.v, y.v, d)
}

func (i *Interp) deepEqV(t types.Type, x, y value, d int) *Term {
	if d > 100 {
		panic(unsupported("DeepEqual depth"))
	}
	B := i.bank
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return i.deepEq(i.asIface(x), i.asIface(y), d+1)
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return B.False
		}
		r := B.True
		for k := range a {
			r = B.And(r, i.deepEqV(u.Elem(), a[k], b[k], d+1))
			if r == B.False {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.(arrayV), y.(arrayV)
		r := B.True
		for k := range a {
			r = B.And(r, i.deepEqV(u.Elem(), a[k], b[k], d+1))
		}
		return r
	case *types.Map:
		a, b := x.(*mapV), y.(*mapV)
		if (a == nil) != (b == nil) {
			return B.False
		}
		if a == nil || a == b {
			return B.True
		}
		if a.n != b.n {
			return B.False
		}
		r := B.True
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := i.mapGet(b, e.k)
			if f == nil {
				return B.False
			}
			r = B.And(r, i.deepEqV(u.Elem(), e.v, f.v, d+1))
			if r == B.False {
				return r
			}
		}
		return r
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return B.True
		}
		if a == nil || b == nil {
			return B.False
		}
		return i.deepEqV(u.Elem(), *a, *b, d+1)
	case *types.Struct:
		if ra, ok := x.(ratV); ok {
			rb, ok := y.(ratV)
			if !ok {
				rb = i.ratOf(y)
			}
			return B.Eq(i.ratCmpEq(ra, rb), B.True)
		}
		a, ok1 := x.(structV)
		b, ok2 := y.(structV)
		if !ok1 || !ok2 {
			panic(unsupported("DeepEqual of modelled values"))
		}
		r := B.True
		for k := range a {
			r = B.And(r, i.deepEqV(u.Field(k).Type(), a[k], b[k], d+1))
		}
		return r
	case *types.Signature:
		return B.Bool(isNilVal(x) && isNilVal(y))
	}
	return i.boolTerm(i.equals(t, x, y))
}

// ---- fmt ----

// fmtValue renders v like fmt does for the verb.
func (i *Interp) fmtValue(v iface, verb rune, flags string) value {
	return i.fmtV(v, verb, flags, 0)
}

func (i *Interp) tryMethod(v iface, name string) (value, bool) {
	if v.t == nil {
		return nil, false
	}
	fn := i.findMethod(v.t, name)
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil, false
	}
	if p, ok := v.v.(*value); ok && p == nil {
		return "<nil>", true
	}
	return i.callFn(nil, fn, []value{copyVal(v.v)}, nil), true
}

func (i *Interp) fmtV(v iface, verb rune, flags string, depth int) value {
	if v.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return typeStr(v.t)
	}
	if v.t == i.P.rtErr {
		return v.v
	}
	sharp := strings.Contains(flags, "#")
	if verb != 'd' && verb != 't' && verb != 'p' && verb != 'c' {
		if s, ok := i.bigText(v, verb, flags); ok {
			return s
		}
		if !sharp {
			if s, ok := i.tryMethod(v, "Error"); ok {
				return i.fmtStr(s, verb, flags)
			}
			if s, ok := i.tryMethod(v, "String"); ok {
				return i.fmtStr(s, verb, flags)
			}
		}
	}
	u := v.t.Underlying()
	switch u := u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return i.fmtStr(v.v, verb, flags)
		case u.Info()&types.IsBoolean != 0:
			if t, ok := v.v.(*Term); ok {
				return fmt.Sprintf("%"+flags+string(verb), i.decide(t))
			}
			return fmt.Sprintf("%"+flags+string(verb), v.v.(bool))
		case u.Info()&types.IsInteger != 0:
			w, sg, _ := intInfo(u)
			switch x := v.v.(type) {
			case uint64:
				if sg {
					return fmt.Sprintf("%"+flags+string(verb), int64(x))
				}
				if u.Kind() == types.Uint8 {
					return fmt.Sprintf("%"+flags+string(verb), uint8(x))
				}
				return fmt.Sprintf("%"+flags+string(verb), x)
			case *Term:
				_ = w
				return opaqueMark
			}
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprintf("%"+flags+string(verb), v.v.(float64))
		}
	case *types.Slice:
		s := v.v.([]value)
		if w, _, _ := intInfo(u.Elem()); w == 8 && (verb == 's' || verb == 'x' || verb == 'q') {
			return i.fmtStr(i.bytesToStr(s), verb, flags)
		}
		if sharp {
			panic(unsupported("%%#v of slice"))
		}
		var r value = "["
		for k, x := range s {
			if k > 0 {
				r = i.strCat(r, " ")
			}
			r = i.strCat(r, i.fmtV(i.mkIface(u.Elem(), x), verb, flags, depth+1))
		}
		return i.strCat(r, "]")
	case *types.Map:
		mv := v.v.(*mapV)
		var r value = "map["
		if mv != nil {
			ents := append([]*mapEnt{}, mv.ents...)
			var live []*mapEnt
			for _, e := range ents {
				if !e.dead {
					live = append(live, e)
				}
			}
			for a := 1; a < len(live); a++ {
				for b := a; b > 0; b-- {
					ks, ok1 := live[b].k.(string)
					kp, ok2 := live[b-1].k.(string)
					if ok1 && ok2 {
						if ks >= kp {
							break
						}
					} else if basicClass(u.Key()) != 3 || !i.truth(i.strLess(live[b].k, live[b-1].k)) {
						break
					}
					live[b], live[b-1] = live[b-1], live[b]
				}
			}
			for k, e := range live {
				if k > 0 {
					r = i.strCat(r, " ")
				}
				r = i.strCat(r, i.fmtV(i.mkIface(u.Key(), e.k), verb, flags, depth+1))
				r = i.strCat(r, ":")
				r = i.strCat(r, i.fmtV(i.mkIface(u.Elem(), e.v), verb, flags, depth+1))
			}
		}
		return i.strCat(r, "]")
	case *types.Pointer:
		p, _ := v.v.(*value)
		if p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				return i.strCat("&", i.fmtV(i.mkIface(u.Elem(), *p), verb, flags, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Struct:
		s, ok := v.v.(structV)
		if !ok {
			return opaqueMark
		}
		var r value = "{"
		for k := range s {
			if k > 0 {
				r = i.strCat(r, " ")
			}
			if strings.Contains(flags, "+") {
				r = i.strCat(r, u.Field(k).Name()+":")
			}
			r = i.strCat(r, i.fmtV(i.mkIface(u.Field(k).Type(), s[k]), verb, flags, depth+1))
		}
		return i.strCat(r, "}")
	case *types.Signature:
		return "0x480000"
	case *types.Array:
		var r value = "["
		for k, x := range v.v.(arrayV) {
			if k > 0 {
				r = i.strCat(r, " ")
			}
			r = i.strCat(r, i.fmtV(i.mkIface(u.Elem(), x), verb, flags, depth+1))
		}
		return i.strCat(r, "]")
	}
	panic(unsupported("fmt of %s (%T) with %%%c", v.t, v.v, verb))
}

// mkIface wraps a value of static type t into an interface value.
func (i *Interp) mkIface(t types.Type, v value) iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return i.asIface(v)
	}
	return iface{canon(t), v}
}

func (i *Interp) fmtStr(s value, verb rune, flags string) value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c)
	}
	if (verb == 's' || verb == 'v') && strings.Trim(flags, "+") == "" {
		return s
	}
	if verb == 'q' {
		// quoting of symbolic text: exact when all bytes are plain ASCII
		B := i.bank
		plain := B.True
		for _, t := range s.(*SymStr).b {
			plain = B.And(plain, B.And(B.ULe(B.Const(8, 0x20), t), B.ULt(t, B.Const(8, 0x7f))), B.Not(B.Eq(t, B.Const(8, '"'))), B.Not(B.Eq(t, B.Const(8, '\\'))))
		}
		if i.decide(plain) {
			return i.strCat(i.strCat("\"", s), "\"")
		}
	}
	return fmt.Sprintf("%"+flags+string(verb), i.concStr(s))
}

func (i *Interp) sprintf(format value, args []value) value {
	f := i.concStr(format)
	var out value = ""
	k := 0
	for p := 0; p < len(f); {
		q := strings.IndexByte(f[p:], '%')
		if q < 0 {
			return i.extraArgs(i.strCat(out, f[p:]), args, k)
		}
		out = i.strCat(out, f[p:p+q])
		p += q + 1
		st := p
		for p < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[p]) >= 0 {
			p++
		}
		flags := f[st:p]
		if p >= len(f) {
			return i.strCat(out, "%!(NOVERB)")
		}
		verb := rune(f[p])
		p++
		if verb == '%' {
			out = i.strCat(out, "%")
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			panic(unsupported("format flags %q", flags))
		}
		if k >= len(args) {
			out = i.strCat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		out = i.strCat(out, i.fmtValue(i.asIface(args[k]), verb, flags))
		k++
	}
	return i.extraArgs(out, args, k)
}

func (i *Interp) extraArgs(out value, args []value, k int) value {
	if k >= len(args) {
		return out
	}
	out = i.strCat(out, "%!(EXTRA ")
	for n := k; n < len(args); n++ {
		if n > k {
			out = i.strCat(out, ", ")
		}
		v := i.asIface(args[n])
		if v.t != nil {
			out = i.strCat(out, typeStr(v.t)+"=")
		}
		out = i.strCat(out, i.fmtValue(v, 'v', ""))
	}
	return i.strCat(out, ")")
}

func (i *Interp) sprint(args []value, ln bool) value {
	var out value = ""
	for k, a := range args {
		v := i.asIface(a)
		if k > 0 {
			if ln {
				out = i.strCat(out, " ")
			} else {
				p := i.asIface(args[k-1])
				ps := p.t != nil && basicClass(p.t) == 3
				vs := v.t != nil && basicClass(v.t) == 3
				if !ps && !vs {
					out = i.strCat(out, " ")
				}
			}
		}
		out = i.strCat(out, i.fmtValue(v, 'v', ""))
	}
	if ln {
		out = i.strCat(out, "\n")
	}
	return out
}

func (i *Interp) writeTo(w value, s value) value {
	f := i.asIface(w)
	fn := i.findMethod(f.t, "Write")
	if fn == nil {
		panic(unsupported("Write on %s", f.t))
	}
	return i.callFn(nil, fn, []value{f.v, i.strToBytes(s)}, nil)
}

func varargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func init() {
	reg("fmt.Sprintf", func(i *Interp, fr *frame, a []value) value { return i.sprintf(a[0], varargs(a[1])) })
	reg("fmt.Sprint", func(i *Interp, fr *frame, a []value) value { return i.sprint(varargs(a[0]), false) })
	reg("fmt.Sprintln", func(i *Interp, fr *frame, a []value) value { return i.sprint(varargs(a[0]), true) })
	reg("fmt.Errorf", func(i *Interp, fr *frame, a []value) value {
		msg := i.sprintf(a[0], varargs(a[1]))
		f := i.concStr(a[0])
		if strings.Contains(f, "%w") {
			// single %w: wrapError
			n := strings.Index(f, "%w")
			idx := strings.Count(strings.ReplaceAll(f[:n], "%%", ""), "%")
			args := varargs(a[1])
			if idx < len(args) {
				c := newCell(structV{msg, i.asIface(args[idx])})
				return iface{canon(types.NewPointer(i.named("fmt", "wrapError"))), c}
			}
		}
		return i.newError(msg)
	})
	ret0 := tuple{uint64(0), iface{}}
	reg("fmt.Fprintf", func(i *Interp, fr *frame, a []value) value { return i.writeTo(a[0], i.sprintf(a[1], varargs(a[2]))) })
	reg("fmt.Fprint", func(i *Interp, fr *frame, a []value) value { return i.writeTo(a[0], i.sprint(varargs(a[1]), false)) })
	reg("fmt.Fprintln", func(i *Interp, fr *frame, a []value) value { return i.writeTo(a[0], i.sprint(varargs(a[1]), true)) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(i *Interp, fr *frame, a []value) value { return ret0 })
	}
	reg("strconv.Itoa", func(i *Interp, fr *frame, a []value) value {
		switch x := a[0].(type) {
		case uint64:
			return strconv.Itoa(int(int64(x)))
		case *Term:
			return strconv.Itoa(int(int64(i.concIntS(x, true))))
		}
		panic(unsupported("Itoa"))
	})
	reg("strconv.Quote", func(i *Interp, fr *frame, a []value) value { return i.fmtStr(a[0], 'q', "") })
	reg("strconv.ParseFloat", func(i *Interp, fr *frame, a []value) value {
		s := i.concStr(a[0])
		f, err := strconv.ParseFloat(s, int(a[1].(uint64)))
		if err != nil {
			return tuple{f, i.newError(err.Error())}
		}
		return tuple{f, iface{}}
	})
	reg("strconv.FormatFloat", func(i *Interp, fr *frame, a []value) value {
		return strconv.FormatFloat(i.float(a[0]), byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
	})
}

var _ = big.NewInt
