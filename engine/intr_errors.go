package main

import (
	"go/types"
	"regexp/syntax"
)

// errTree calls f on an error and on everything it wraps, until f says it is done.
func (i *Interp) errTree(fr *frame, e iface, f func(iface) bool) bool {
	for e.t != nil {
		if f(e) {
			return true
		}
		m := i.findMethod(e.t, "Unwrap")
		if m == nil || m.Signature.Results().Len() != 1 {
			return false
		}
		switch r := i.callFn(fr, m, []value{e.v}, nil).(type) {
		case []value:
			for _, x := range r {
				if i.errTree(fr, i.asIface(x), f) {
					return true
				}
			}
			return false
		default:
			e = i.asIface(r)
		}
	}
	return false
}

func init() {
	reg("errors.Is", func(i *Interp, fr *frame, a []value) value {
		e, target := i.asIface(a[0]), i.asIface(a[1])
		if e.t == nil || target.t == nil {
			return e.t == nil && target.t == nil
		}
		comparable := types.Comparable(target.t)
		return i.errTree(fr, e, func(x iface) bool {
			if comparable && x.t == target.t && i.truth(i.equals(x.t, x.v, target.v)) {
				return true
			}
			if m := i.findMethod(x.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
				return i.truth(i.callFn(fr, m, []value{x.v, target}, nil))
			}
			return false
		})
	})
	reg("errors.As", func(i *Interp, fr *frame, a []value) value {
		target := i.asIface(a[1])
		p, ok := target.t.(*types.Pointer)
		if !ok {
			panic(unsupported("errors.As with target %v", target.t))
		}
		want := canon(p.Elem())
		return i.errTree(fr, i.asIface(a[0]), func(x iface) bool {
			if it, ok := want.Underlying().(*types.Interface); ok {
				if !types.Implements(x.t, it) {
					return false
				}
				*i.ptr(target.v) = x
				return true
			}
			if x.t != want {
				return false
			}
			*i.ptr(target.v) = x.v
			return true
		})
	})
}

// anchored tells whether every match of a regular expression spans the whole text.
func (x *rxState) anchored() bool {
	p, err := syntax.Parse(x.src, syntax.Perl)
	if err != nil {
		return false
	}
	p = p.Simplify()
	if p.Op != syntax.OpConcat || len(p.Sub) < 2 {
		return false
	}
	return p.Sub[0].Op == syntax.OpBeginText && p.Sub[len(p.Sub)-1].Op == syntax.OpEndText
}
