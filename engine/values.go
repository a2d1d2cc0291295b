package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// value is one of:
//
//	bool, uint64 (all integers, canonical), float64, complex128, string
//	*Term             symbolic bool or integer
//	*SymStr           symbolic string (concrete length)
//	*SymFloat         symbolic float64 given as a decimal literal
//	*value            pointer (nil pointer: (*value)(nil))
//	structV, arrayV, []value (slice), *mapV, iface, *lazyIface
//	*ssa.Function, *closure, *ssa.Builtin, *nativeFn   functions
//	tuple, *chanV, *rangeIter ...
//	ratV, nativeV     opaque contents of modelled library structs
type value interface{}

type structV []value
type arrayV []value
type tuple []value

type iface struct {
	t types.Type // canonical; nil for the nil interface
	v value
}

type lazyIface struct {
	done  bool
	busy  bool
	val   iface
	thunk value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(i *Interp, args []value) value
}

// nativeV is opaque native state stored in a cell.
type nativeV struct{ x interface{} }

// SymStr is a string of concrete length with at least one symbolic byte.
type SymStr struct{ b []*Term }

// SymFloat: (-1)^neg * 0.d1d2d3... * 10^exp given by a JSON literal with
// symbolic digits; sig is the number of digits.
type SymFloat struct {
	neg    bool
	digits []*Term // bytes '0'..'9', most significant first
	exp    int     // decimal exponent: value = digits * 10^exp (digits as integer)
}

// ratV is an exact rational: con!=nil means concrete.
type ratV struct {
	con *big.Rat
	num *Term    // signed, width num.w
	den *Term    // positive, same width
	nb  int      // |num| < 2^nb
	db  int      // den < 2^db
	dec *decV    // the same value as decimal digits, when known
	dif *[2]ratV // the operands, when this is a difference
}

// decV is (-1)^neg * digits * 10^exp with digits given as ASCII bytes.
type decV struct {
	neg    bool
	digits []*Term
	exp    int
}

// intV is an exact big integer (math/big.Int).
type intV struct {
	con *big.Int
	t   *Term // signed
	nb  int
}

type mapEnt struct {
	k, v value
	dead bool
}

type mapV struct {
	id   int
	kt   types.Type
	ents []*mapEnt
	idx  map[interface{}]*mapEnt
	nsym int
	n    int
	cell value // identity cell for access monitoring
}

type rangeIter struct {
	m   *mapV
	ord []*mapEnt
	pos int
	str value // string iteration
	sp  int
	isS bool
}

// canonical types
var (
	typeMu    sync.Mutex
	typeTab   typeutil.Map
	typeHash  = typeutil.MakeHasher()
	typeCache sync.Map // types.Type -> types.Type
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := typeCache.Load(t); ok {
		return c.(types.Type)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if c := typeTab.At(t); c != nil {
		typeCache.Store(t0, c.(types.Type))
		return c.(types.Type)
	}
	typeTab.Set(t, t)
	typeCache.Store(t0, t)
	typeCache.Store(t, t)
	return t
}

func isSym(v value) bool {
	switch v.(type) {
	case *Term, *SymStr, *SymFloat:
		return true
	}
	return false
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return iface{}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		a := make(arrayV, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*mapV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		return nil
	}
	panic(fmt.Sprintf("zero: %v", t))
}

type chanV struct {
	buf    []value
	cap    int
	closed bool
}

// copyVal makes a copy of aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		c := make(structV, len(v))
		for i, x := range v {
			c[i] = copyVal(x)
		}
		return c
	case arrayV:
		c := make(arrayV, len(v))
		for i, x := range v {
			c[i] = copyVal(x)
		}
		return c
	}
	return v
}

// storeInto writes v into the cell, in place for aggregates.
func storeInto(p *value, v value) {
	switch v := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func newCell(v value) *value {
	p := new(value)
	*p = v
	return p
}

// intKind describes an integer type.
func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

// canonInt truncates u to width w and extends it canonically.
func canonInt(u uint64, w int, signed bool) uint64 {
	if w == 64 {
		return u
	}
	if signed {
		return uint64(sext64(u, w))
	}
	return u & mask(w)
}
