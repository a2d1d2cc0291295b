package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f func(i *Interp, fr *frame, a []value) value) {
	intrinsics[name] = func(i *Interp, fr *frame, fn *ssa.Function, a []value) value { return f(i, fr, a) }
}

func regF(name string, f intrinsic) { intrinsics[name] = f }

func goIdent(names []string, f func(i *Interp, fr *frame, a []value) value) {
	for _, n := range names {
		reg(n, f)
	}
}

// named type lookup
func (i *Interp) named(pkg, name string) types.Type {
	p := i.P.pkgs[pkg]
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type %s.%s", pkg, name))
	}
	return canon(o.Type())
}

func (i *Interp) callNamed(pkg, fn string, args ...value) value {
	p := i.P.pkgs[pkg]
	if p == nil || p.Func(fn) == nil {
		panic(unsupported("function %s.%s not loaded", pkg, fn))
	}
	return i.callFn(nil, p.Func(fn), args, nil)
}

func (i *Interp) newError(msg value) value {
	return i.callNamed("errors", "New", msg)
}

var nilErr = iface{}

// ---- symbolic input API ----

func parseClass(c string) *[4]uint64 {
	var d [4]uint64
	set := func(b byte) { d[b>>6] |= 1 << (b & 63) }
	if c == "" {
		return nil
	}
	for k := 0; k < len(c); {
		if k+2 < len(c) && c[k+1] == '-' {
			for b := int(c[k]); b <= int(c[k+2]); b++ {
				set(byte(b))
			}
			k += 3
			continue
		}
		set(c[k])
		k++
	}
	return &d
}

func (i *Interp) uniq(name string) string {
	n := i.nameSeq[name]
	i.nameSeq[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, n)
}

func (i *Interp) byteVar(name, class string) *Term {
	d := parseClass(class)
	lo, hi := uint64(0), uint64(255)
	if d != nil {
		lo = 255
		hi = 0
		for v := uint64(0); v < 256; v++ {
			if domHas(d, v) {
				lo, hi = min(lo, v), max(hi, v)
			}
		}
		full := true
		for v := lo; v <= hi; v++ {
			if !domHas(d, v) {
				full = false
			}
		}
		if full {
			d = nil
		}
		if lo == hi {
			i.newVar(name, 8, lo, hi, nil)
			return i.bank.Const(8, lo)
		}
	}
	return i.newVar(name, 8, lo, hi, d)
}

const symPkg = "verifharness/sym."

func init() {
	reg(symPkg+"Byte", func(i *Interp, fr *frame, a []value) value {
		return termVal(i.byteVar(i.uniq(a[0].(string)), a[1].(string)), 8, false)
	})
	reg(symPkg+"Str", func(i *Interp, fr *frame, a []value) value {
		n := int(i.concInt(a[1]))
		name := i.uniq(a[0].(string))
		b := make([]*Term, n)
		for k := range b {
			b[k] = i.byteVar(fmt.Sprintf("%s.%d", name, k), a[2].(string))
		}
		return i.mkStr(b)
	})
	reg(symPkg+"Bool", func(i *Interp, fr *frame, a []value) value {
		return i.newVar(i.uniq(a[0].(string)), 0, 0, 1, nil)
	})
	reg(symPkg+"Int", func(i *Interp, fr *frame, a []value) value {
		lo, hi := a[1].(uint64), a[2].(uint64)
		if int64(lo) < 0 {
			panic(unsupported("sym.Int below 0"))
		}
		n := i.uniq(a[0].(string))
		if lo == hi {
			i.newVar(n, 64, lo, hi, nil)
			return lo
		}
		return i.newVar(n, 64, lo, hi, nil)
	})
	reg(symPkg+"Choose", func(i *Interp, fr *frame, a []value) value {
		n := a[1].(uint64)
		name := i.uniq(a[0].(string))
		v := i.newVar(name, 16, 0, n-1, nil)
		if n <= 1 {
			return uint64(0)
		}
		return i.concretize(v)
	})
	reg(symPkg+"Assume", func(i *Interp, fr *frame, a []value) value {
		i.assume(a[0])
		return nil
	})
	reg(symPkg+"Assert", func(i *Interp, fr *frame, a []value) value {
		msg, _ := a[1].(string)
		i.assertProp(a[0], msg)
		return nil
	})
	reg(symPkg+"Observe", func(i *Interp, fr *frame, a []value) value {
		f := i.asIface(a[1])
		i.obs = append(i.obs, obsRec{a[0].(string), f.v})
		return nil
	})
	reg(symPkg+"Cover", func(i *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			i.cover[s]++
		}
		return nil
	})
	reg(symPkg+"Lazy", func(i *Interp, fr *frame, a []value) value {
		return &lazyIface{thunk: a[0]}
	})
	reg(symPkg+"MapOrder", func(i *Interp, fr *frame, a []value) value {
		i.mapOrder = a[0].(bool)
		return nil
	})
	reg(symPkg+"Thorough", func(i *Interp, fr *frame, a []value) value { return i.thorough })
	reg(symPkg+"Engine", func(i *Interp, fr *frame, a []value) value { return true })
	reg(symPkg+"Fork", func(i *Interp, fr *frame, a []value) value { return i.truth(a[0]) })
	reg(symPkg+"And", func(i *Interp, fr *frame, a []value) value {
		return boolVal(i.bank.And(i.boolTerm(a[0]), i.boolTerm(a[1])))
	})
	reg(symPkg+"Or", func(i *Interp, fr *frame, a []value) value {
		return boolVal(i.bank.Or(i.boolTerm(a[0]), i.boolTerm(a[1])))
	})
	reg(symPkg+"Iff", func(i *Interp, fr *frame, a []value) value {
		return boolVal(i.bank.Eq(i.boolTerm(a[0]), i.boolTerm(a[1])))
	})
	reg(symPkg+"Par", func(i *Interp, fr *frame, a []value) value {
		m := &monitor{cells: map[*value][2][]access{}, fresh: map[*value]int{}, exempt: map[*value]bool{}}
		m.frame = func() string { return i.curFn.String() }
		i.mon = m
		defer func() { i.mon = nil }()
		m.tid = 0
		i.call(fr, a[0], nil)
		m.held = nil
		m.tid = 1
		i.call(fr, a[1], nil)
		i.mon = nil
		if c := m.conflict(); c != "" {
			i.violate(&Violation{Kind: "race", Msg: c, Model: i.fullModel(i.model)})
			panic(pathAbort{"violation", c})
		}
		return nil
	})
}

// ---- sync ----

func (i *Interp) lockID(v value) string {
	p := v.(*value)
	return fmt.Sprintf("%p", p)
}

func (i *Interp) hold(mode string, v value) {
	if i.mon != nil {
		i.mon.held = append(i.mon.held, mode+":"+i.lockID(v))
		sort.Strings(i.mon.held)
	}
}

func (i *Interp) release(mode string, v value) {
	if i.mon != nil {
		id := mode + ":" + i.lockID(v)
		for k, h := range i.mon.held {
			if h == id {
				i.mon.held = append(append([]string{}, i.mon.held[:k]...), i.mon.held[k+1:]...)
				break
			}
		}
	}
}

type lockState struct {
	w bool
	r int
}

// lockOp tracks lock state so that self-deadlock and unlock of an unlocked
// mutex are visible.
func (i *Interp) lockOp(v value, op string) {
	p := i.ptr(v)
	st, _ := (*p).(nativeV)
	ls, _ := st.x.(*lockState)
	if ls == nil {
		ls = &lockState{}
		*p = nativeV{ls}
	}
	switch op {
	case "Lock":
		if ls.w || ls.r > 0 {
			panic(pathAbort{"steps", "deadlock: lock of a held mutex"})
		}
		ls.w = true
	case "Unlock":
		if !ls.w {
			panic(targetPanic{iface{i.P.rtErr, "fatal error: sync: unlock of unlocked mutex"}})
		}
		ls.w = false
	case "RLock":
		if ls.w {
			panic(pathAbort{"steps", "deadlock: rlock of a held mutex"})
		}
		ls.r++
	case "RUnlock":
		if ls.r == 0 {
			panic(targetPanic{iface{i.P.rtErr, "fatal error: sync: RUnlock of unlocked RWMutex"}})
		}
		ls.r--
	}
}

func init() {
	for _, t := range []string{"Mutex", "RWMutex"} {
		t := t
		reg("(*sync."+t+").Lock", func(i *Interp, fr *frame, a []value) value { i.lockOp(a[0], "Lock"); i.hold("w", a[0]); return nil })
		reg("(*sync."+t+").Unlock", func(i *Interp, fr *frame, a []value) value {
			i.lockOp(a[0], "Unlock")
			i.release("w", a[0])
			return nil
		})
		reg("(*sync."+t+").TryLock", func(i *Interp, fr *frame, a []value) value {
			i.lockOp(a[0], "Lock")
			i.hold("w", a[0])
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(i *Interp, fr *frame, a []value) value { i.lockOp(a[0], "RLock"); i.hold("r", a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(i *Interp, fr *frame, a []value) value {
		i.lockOp(a[0], "RUnlock")
		i.release("r", a[0])
		return nil
	})
	reg("(*sync.Once).Do", func(i *Interp, fr *frame, a []value) value {
		p := i.ptr(a[0])
		if s, ok := (*p).(nativeV); ok && s.x == "done" {
			return nil
		}
		*p = nativeV{"done"}
		i.hold("w", a[0])
		defer i.release("w", a[0])
		i.call(fr, a[1], nil)
		return nil
	})
	noop := func(i *Interp, fr *frame, a []value) value { return nil }
	goIdent([]string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer"}, noop)
	reg("(*sync.WaitGroup).Go", func(i *Interp, fr *frame, a []value) value { i.call(fr, a[1], nil); return nil })

	// sync.Pool: always empty
	reg("(*sync.Pool).Put", noop)
	reg("(*sync.Pool).Get", func(i *Interp, fr *frame, a []value) value {
		p := i.ptr(a[0])
		s, ok := (*p).(structV)
		if !ok {
			return iface{}
		}
		nf := s[len(s)-1] // New is the last field
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return iface{}
		}
		return i.call(fr, nf, nil)
	})
	// sync.Map
	smap := func(i *Interp, v value) *mapV {
		p := i.ptr(v)
		if n, ok := (*p).(nativeV); ok {
			return n.x.(*mapV)
		}
		m := i.newMap(i.P.emptyI)
		*p = nativeV{m}
		return m
	}
	quiet := func(i *Interp, f func()) {
		m := i.mon
		i.mon = nil
		defer func() { i.mon = m }()
		f()
	}
	reg("(*sync.Map).Load", func(i *Interp, fr *frame, a []value) (r value) {
		quiet(i, func() {
			e := i.mapGet(smap(i, a[0]), a[1])
			if e == nil {
				r = tuple{iface{}, false}
			} else {
				r = tuple{e.v, true}
			}
		})
		return
	})
	reg("(*sync.Map).Store", func(i *Interp, fr *frame, a []value) value {
		quiet(i, func() { i.mapSet(smap(i, a[0]), a[1], a[2]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(i *Interp, fr *frame, a []value) (r value) {
		quiet(i, func() {
			m := smap(i, a[0])
			if e := i.mapGet(m, a[1]); e != nil {
				r = tuple{e.v, true}
				return
			}
			i.mapSet(m, a[1], a[2])
			r = tuple{a[2], false}
		})
		return
	})
	reg("(*sync.Map).Delete", func(i *Interp, fr *frame, a []value) value {
		quiet(i, func() { i.mapDelete(smap(i, a[0]), a[1]) })
		return nil
	})
	reg("(*sync.Map).Range", func(i *Interp, fr *frame, a []value) value {
		for _, e := range smap(i, a[0]).ents {
			if !e.dead && !i.truth(i.call(fr, a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// atomics: plain cell operations, exempt from the race check
	ex := func(i *Interp, p *value) {
		if i.mon != nil {
			i.mon.exempt[p] = true
		}
	}
	for _, w := range []struct {
		n  string
		w  int
		sg bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		w := w
		load := func(i *Interp, fr *frame, a []value) value { p := i.atomCell(a[0]); ex(i, p); return *p }
		store := func(i *Interp, fr *frame, a []value) value { p := i.atomCell(a[0]); ex(i, p); *p = a[1]; return nil }
		add := func(i *Interp, fr *frame, a []value) value {
			p := i.atomCell(a[0])
			ex(i, p)
			*p = canonInt((*p).(uint64)+a[1].(uint64), w.w, w.sg)
			return *p
		}
		cas := func(i *Interp, fr *frame, a []value) value {
			p := i.atomCell(a[0])
			ex(i, p)
			if *p == a[1] {
				*p = a[2]
				return true
			}
			return false
		}
		swap := func(i *Interp, fr *frame, a []value) value {
			p := i.atomCell(a[0])
			ex(i, p)
			o := *p
			*p = a[1]
			return o
		}
		reg("sync/atomic.Load"+w.n, load)
		reg("sync/atomic.Store"+w.n, store)
		reg("sync/atomic.Add"+w.n, add)
		reg("sync/atomic.CompareAndSwap"+w.n, cas)
		reg("sync/atomic.Swap"+w.n, swap)
		reg("(*sync/atomic."+w.n+").Load", load)
		reg("(*sync/atomic."+w.n+").Store", store)
		reg("(*sync/atomic."+w.n+").Add", add)
		reg("(*sync/atomic."+w.n+").CompareAndSwap", cas)
		reg("(*sync/atomic."+w.n+").Swap", swap)
	}
	reg("(*sync/atomic.Bool).Load", func(i *Interp, fr *frame, a []value) value {
		p := i.atomCell(a[0])
		ex(i, p)
		return *p != uint64(0)
	})
	reg("(*sync/atomic.Bool).Store", func(i *Interp, fr *frame, a []value) value {
		p := i.atomCell(a[0])
		ex(i, p)
		*p = uint64(0)
		if i.truth(a[1]) {
			*p = uint64(1)
		}
		return nil
	})
	for _, n := range []string{"(*sync/atomic.Pointer)", "sync/atomic.Pointer"} {
		_ = n
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(i *Interp, fr *frame, a []value) value { p := i.atomCell(a[0]); ex(i, p); return *p })
	reg("(*sync/atomic.Pointer[T]).Store", func(i *Interp, fr *frame, a []value) value { p := i.atomCell(a[0]); ex(i, p); *p = a[1]; return nil })
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(i *Interp, fr *frame, a []value) value {
		p := i.atomCell(a[0])
		ex(i, p)
		if *p == a[1] {
			*p = a[2]
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(i *Interp, fr *frame, a []value) value {
		p := i.ptr(a[0])
		ex(i, p)
		if n, ok := (*p).(nativeV); ok {
			return n.x.(iface)
		}
		return iface{}
	})
	reg("(*sync/atomic.Value).Store", func(i *Interp, fr *frame, a []value) value {
		p := i.ptr(a[0])
		ex(i, p)
		*p = nativeV{i.asIface(a[1])}
		return nil
	})
	goIdent([]string{"sync/atomic.LoadPointer"}, func(i *Interp, fr *frame, a []value) value { p := i.ptr(a[0]); ex(i, p); return *p })
	goIdent([]string{"sync/atomic.StorePointer"}, func(i *Interp, fr *frame, a []value) value { p := i.ptr(a[0]); ex(i, p); *p = a[1]; return nil })

	// godebug settings: defaults
	reg("internal/godebug.New", func(i *Interp, fr *frame, a []value) value { return newCell(structV{}) })
	reg("(*internal/godebug.Setting).Value", func(i *Interp, fr *frame, a []value) value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", noop)
	reg("internal/abi.NoEscape", func(i *Interp, fr *frame, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(i *Interp, fr *frame, a []value) value { return a[0] })
	reg("internal/race.Enable", noop)
	reg("internal/race.Disable", noop)
	reg("internal/testlog.Getenv", noop)
	reg("os.Getenv", func(i *Interp, fr *frame, a []value) value { return "" })

	// unique.Make: canonical pointers per value
	regF("unique.Make", func(i *Interp, fr *frame, fn *ssa.Function, a []value) value {
		h, ok := i.hashKey(a[0])
		if !ok {
			panic(unsupported("unique.Make of symbolic value"))
		}
		if i.uniqTab == nil {
			i.uniqTab = map[interface{}]*value{}
		}
		k := ikey{canon(fn.Signature.Params().At(0).Type()), h}
		p, ok := i.uniqTab[k]
		if !ok {
			p = newCell(a[0])
			i.uniqTab[k] = p
		}
		return structV{p}
	})
}

// atomCell gives the scalar cell of an atomic (struct wrapper or plain).
func (i *Interp) atomCell(v value) *value {
	p := i.ptr(v)
	if s, ok := (*p).(structV); ok {
		return &s[len(s)-1]
	}
	return p
}

// ---- bytealg, utf8 and friends ----

func (i *Interp) bytesOf(v value) []*Term {
	switch v := v.(type) {
	case []value:
		r := make([]*Term, len(v))
		for k, x := range v {
			r[k] = i.byteTerm(x)
		}
		return r
	}
	return i.strTerms(v)
}

func (i *Interp) indexByte(b []*Term, c value) int {
	ct := i.byteTerm(c)
	for k, t := range b {
		if i.decide(i.bank.Eq(t, ct)) {
			return k
		}
	}
	return -1
}

func (i *Interp) eqTerms(a, b []*Term) *Term {
	if len(a) != len(b) {
		return i.bank.False
	}
	r := i.bank.True
	for k := range a {
		r = i.bank.And(r, i.bank.Eq(a[k], b[k]))
	}
	return r
}

func (i *Interp) indexSub(b, s []*Term) int {
	for k := 0; k+len(s) <= len(b); k++ {
		if i.decide(i.eqTerms(b[k:k+len(s)], s)) {
			return k
		}
	}
	return -1
}

func num(n int) value { return uint64(int64(n)) }

func init() {
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				if c, ok := a[1].(uint64); ok {
					return num(strings.IndexByte(s, byte(c)))
				}
			}
			return num(i.indexByte(i.bytesOf(a[0]), a[1]))
		})
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			b := i.bytesOf(a[0])
			ct := i.byteTerm(a[1])
			for k := len(b) - 1; k >= 0; k-- {
				if i.decide(i.bank.Eq(b[k], ct)) {
					return num(k)
				}
			}
			return num(-1)
		})
	}
	for _, n := range []string{"internal/bytealg.IndexString", "internal/bytealg.Index", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				if c, ok := a[1].(string); ok {
					return num(strings.Index(s, c))
				}
			}
			return num(i.indexSub(i.bytesOf(a[0]), i.bytesOf(a[1])))
		})
	}
	for _, n := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			ct := i.byteTerm(a[1])
			n := 0
			for _, t := range i.bytesOf(a[0]) {
				if i.decide(i.bank.Eq(t, ct)) {
					n++
				}
			}
			return num(n)
		})
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			return boolVal(i.eqTerms(i.bytesOf(a[0]), i.bytesOf(a[1])))
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare", "internal/bytealg.CompareString", "strings.Compare"} {
		reg(n, func(i *Interp, fr *frame, a []value) value {
			x, y := i.mkStr(i.bytesOf(a[0])), i.mkStr(i.bytesOf(a[1]))
			if i.truth(i.strEq(x, y)) {
				return num(0)
			}
			if i.truth(i.strLess(x, y)) {
				return num(-1)
			}
			return num(1)
		})
	}
	reg("internal/bytealg.MakeNoZero", func(i *Interp, fr *frame, a []value) value {
		s := make([]value, int(i.concInt(a[0])))
		for k := range s {
			s[k] = uint64(0)
		}
		return s
	})
	rc := func(i *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return num(utf8.RuneCountInString(s))
		}
		b := i.bytesOf(a[0])
		n := 0
		for len(b) > 0 {
			_, sz := i.decodeRune(b)
			b = b[sz:]
			n++
		}
		return num(n)
	}
	reg("unicode/utf8.RuneCountInString", rc)
	reg("unicode/utf8.RuneCount", rc)
	dr := func(i *Interp, fr *frame, a []value) value {
		b := i.bytesOf(a[0])
		if len(b) == 0 {
			return tuple{uint64(int64(utf8.RuneError)), uint64(0)}
		}
		r, n := i.decodeRune(b)
		return tuple{r, uint64(n)}
	}
	reg("unicode/utf8.DecodeRuneInString", dr)
	reg("unicode/utf8.DecodeRune", dr)
	vs := func(i *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return utf8.ValidString(s)
		}
		b := i.bytesOf(a[0])
		asc := i.bank.True
		for _, t := range b {
			asc = i.bank.And(asc, i.bank.ULt(t, i.bank.Const(8, 0x80)))
		}
		if i.decide(asc) {
			return true
		}
		for len(b) > 0 {
			r, sz := i.decodeRune(b)
			if sz == 1 && r == value(uint64(int64(utf8.RuneError))) {
				return false
			}
			b = b[sz:]
		}
		return true
	}
	reg("unicode/utf8.ValidString", vs)
	reg("unicode/utf8.Valid", vs)

	sortSlice := func(i *Interp, fr *frame, a []value) value {
		s, _ := i.asIface(a[0]).v.([]value)
		// insertion sort (stable)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0 && i.truth(i.call(fr, a[1], []value{num(y), num(y - 1)})); y-- {
				p, q := copyVal(s[y]), copyVal(s[y-1])
				storeInto(&s[y], q)
				storeInto(&s[y-1], p)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.Strings", func(i *Interp, fr *frame, a []value) value {
		s := a[0].([]value)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0 && i.truth(i.strLess(s[y], s[y-1])); y-- {
				s[y], s[y-1] = s[y-1], s[y]
			}
		}
		return nil
	})
	reg("(*time.Location).get", func(i *Interp, fr *frame, a []value) value {
		g := i.P.pkgs["time"].Var("utcLoc")
		return i.global(g)
	})
	reg("time.Now", func(i *Interp, fr *frame, a []value) value { return zero(i.named("time", "Time")) })
	reg("runtime.Caller", func(i *Interp, fr *frame, a []value) value { return tuple{uint64(0), "", uint64(0), false} })
}

// ---- environment stubs ----

func init() {
	reg("net/http.Get", func(i *Interp, fr *frame, a []value) value {
		return i.callNamed("verifharness/sym", "HTTPGet", a[0])
	})
	reg("(*net/http.Client).Get", func(i *Interp, fr *frame, a []value) value {
		return i.callNamed("verifharness/sym", "HTTPGet", a[1])
	})
	reg("(*net/http.Client).Do", func(i *Interp, fr *frame, a []value) value {
		return i.callNamed("verifharness/sym", "HTTPDo", a[1])
	})
	fail := func(i *Interp, name value) value {
		return tuple{(*value)(nil), i.newError(i.strCat(i.strCat("open ", name), ": no such file or directory"))}
	}
	reg("os.Open", func(i *Interp, fr *frame, a []value) value { return fail(i, a[0]) })
	reg("os.OpenFile", func(i *Interp, fr *frame, a []value) value { return fail(i, a[0]) })
	reg("os.ReadFile", func(i *Interp, fr *frame, a []value) value {
		t := fail(i, a[0]).(tuple)
		return tuple{[]value(nil), t[1]}
	})
	reg("io/ioutil.ReadFile", func(i *Interp, fr *frame, a []value) value {
		t := fail(i, a[0]).(tuple)
		return tuple{[]value(nil), t[1]}
	})
	reg("log.Printf", func(i *Interp, fr *frame, a []value) value { return nil })
	reg("log.Print", func(i *Interp, fr *frame, a []value) value { return nil })
	reg("log.Println", func(i *Interp, fr *frame, a []value) value { return nil })
}
