package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---- engine-level control flow ----

type pathAbort struct{ kind, msg string }

func unsupported(f string, a ...interface{}) pathAbort {
	return pathAbort{"unsupported", fmt.Sprintf(f, a...)}
}

// targetPanic carries a panic of the interpreted program.
type targetPanic struct{ v iface }

// ---- program-wide data ----

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	mu        sync.Mutex
	rtErr     types.Type // canonical type used for runtime errors
	strErr    types.Type
	emptyI    types.Type
	jsonNum   types.Type
	tString   types.Type
	tBool     types.Type
	tF64      types.Type
	tInt      types.Type
	mapSI     types.Type
	sliceI    types.Type
	userOrder []*ssa.Package
}

type operand struct {
	kind uint8 // 0 slot, 1 const, 2 global
	idx  int
	val  value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
	aux interface{}
	w   int
	sg  bool
	k   uint8
}

type cblock struct {
	ins  []cinstr
	b    *ssa.BasicBlock
	nphi int
}

type fnInfo struct {
	fn       *ssa.Function
	nslots   int
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	checked  bool
	slot     map[ssa.Value]int
	user     bool // belongs to non-stdlib code (reported as encoded)
}

type intrinsic func(i *Interp, fr *frame, fn *ssa.Function, args []value) value

// Interp is one worker.
type Interp struct {
	P      *Program
	bank   *TermBank
	solver *Solver
	infos  map[*ssa.Function]*fnInfo

	libGlobals  map[*ssa.Global]*value // stdlib globals, kept between paths
	userGlobals map[*ssa.Global]*value
	libInit     map[*ssa.Package]bool
	methods     map[methKey]*ssa.Function

	// path state
	prefix    []dec
	pos       int
	trace     []dec
	model     Model
	lits      map[*Term]bool
	pathVars  map[string]*Term
	pathVarL  []*Term
	steps     int
	maxSteps  int
	depth     int
	maxDepth  int
	choiceN   int
	obs       []obsRec
	mapOrder  bool
	mapSeq    int
	enqueue   func(t *Task)
	violate   func(v *Violation)
	hctx      *HarnessRun
	asserts   int
	incompl   map[string]int
	cover     map[string]int
	encFns    map[*ssa.Function]bool
	concs     int
	concLimit int
	thorough  bool
	initing   bool
	debug     bool
	hooks     map[string]value
	nameSeq   map[string]int
	uniqTab   map[interface{}]*value
	curFn     *ssa.Function

	mon *monitor
}

type obsRec struct {
	label string
	v     value
}

type methKey struct {
	t    types.Type
	name string
	pkg  string
}

type deferred struct {
	fn   value
	args []value
	inv  *ssa.CallCommon
	next *deferred
}

type frame struct {
	i         *Interp
	caller    *frame
	info      *fnInfo
	regs      []value
	env       []value
	block     int
	prev      int
	defers    *deferred
	result    value
	panicking bool
	panic     interface{}
	call      ssa.Instruction
}

func (i *Interp) info(fn *ssa.Function) *fnInfo {
	if in, ok := i.infos[fn]; ok {
		return in
	}
	in := i.compile(fn)
	i.infos[fn] = in
	return in
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func isStdPath(p string) bool {
	if p == "" {
		return true
	}
	first := p
	if k := strings.IndexByte(p, '/'); k >= 0 {
		first = p[:k]
	}
	return !strings.Contains(first, ".") && first != "verifharness"
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (i *Interp) compile(fn *ssa.Function) *fnInfo {
	in := &fnInfo{fn: fn, slot: map[ssa.Value]int{}}
	in.user = strings.Contains(fnPkgPath(fn), "gojsonschema")
	if it, ok := intrinsics[originName(fn)]; ok {
		in.intr = it
		return in
	}
	if isBigMethod(fn) {
		in.intr = func(i *Interp, fr *frame, fn *ssa.Function, a []value) value { return i.nativeBig(fn, a) }
		return in
	}
	i.P.mu.Lock()
	if fn.Blocks == nil && fn.Pkg != nil && fn.Synthetic == "" {
		fn.Pkg.Build()
	}
	i.P.mu.Unlock()
	add := func(v ssa.Value) {
		in.slot[v] = in.nslots
		in.nslots++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				in.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		in.hasDefer = true
	}
	for _, b := range fn.Blocks {
		cb := cblock{b: b}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = in.slot[v]
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.nphi++
			}
			for _, op := range ins.Operands(nil) {
				ci.ops = append(ci.ops, i.operand(in, *op))
			}
			i.precompute(&ci)
			cb.ins = append(cb.ins, ci)
		}
		in.blocks = append(in.blocks, cb)
	}
	return in
}

func (i *Interp) operand(in *fnInfo, v ssa.Value) operand {
	switch v := v.(type) {
	case nil:
		return operand{kind: 1}
	case *ssa.Const:
		return operand{kind: 1, val: constValue(v)}
	case *ssa.Global:
		return operand{kind: 2, g: v}
	case *ssa.Function:
		return operand{kind: 1, val: v}
	case *ssa.Builtin:
		return operand{kind: 1, val: v}
	}
	return operand{kind: 0, idx: in.slot[v]}
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(b)
			if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return canonInt(u, w, s)
			}
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			return canonInt(uint64(n), w, s)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			n, _ := constant.Int64Val(c.Value)
			return string(rune(n))
		}
	}
	panic(unsupported("const %v", c))
}

func (i *Interp) precompute(ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		t := in.X.Type()
		if in.Op == token.SHL || in.Op == token.SHR {
			t = in.Type()
		}
		ci.w, ci.sg, _ = intInfo(t)
		ci.k = basicClass(t)
	case *ssa.UnOp:
		ci.w, ci.sg, _ = intInfo(in.X.Type())
	case *ssa.MakeInterface:
		ci.aux = canon(in.X.Type())
	case *ssa.TypeAssert:
		ci.aux = canon(in.AssertedType)
	case *ssa.IndexAddr:
		ci.w, ci.sg, _ = intInfo(in.Type().Underlying().(*types.Pointer).Elem())
		ci.k = 1 // read-only address
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				ci.k = 0
			}
		}
	}
}

// basicClass: 1 int, 2 float, 3 string, 4 bool, 5 complex, 0 other
func basicClass(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		return 1
	case b.Info()&types.IsFloat != 0:
		return 2
	case b.Info()&types.IsString != 0:
		return 3
	case b.Info()&types.IsBoolean != 0:
		return 4
	case b.Info()&types.IsComplex != 0:
		return 5
	}
	return 0
}

func (fr *frame) get(o *operand) value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.val
	}
	return fr.i.global(o.g)
}

// ---- globals and package initialisation ----

func (i *Interp) global(g *ssa.Global) *value {
	if isStdPath(g.Pkg.Pkg.Path()) {
		if p, ok := i.libGlobals[g]; ok {
			return p
		}
		i.ensureInit(g.Pkg)
		if p, ok := i.libGlobals[g]; ok {
			return p
		}
		p := newCell(zero(g.Type().(*types.Pointer).Elem()))
		i.libGlobals[g] = p
		return p
	}
	if p, ok := i.userGlobals[g]; ok {
		return p
	}
	p := newCell(zero(g.Type().(*types.Pointer).Elem()))
	i.userGlobals[g] = p
	return p
}

// packages whose initialisation is not interpreted
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "net/http": true, "reflect": true, "sync": true, "sync/atomic": true,
	"internal/poll": true, "internal/cpu": true, "internal/godebug": true, "crypto/tls": true, "log": true, "testing": true,
	"encoding/json": true, "text/template": true, "math/big": true, "regexp": true, "regexp/syntax": true, "unsafe": true, "fmt": true,
	"math/rand": true, "context": true, "path/filepath": true, "flag": true, "unique": true, "internal/reflectlite": true,
	"internal/bytealg": true, "runtime/debug": true, "mime": true, "mime/multipart": true,
}

func (i *Interp) ensureInit(p *ssa.Package) {
	if i.libInit[p] {
		return
	}
	i.libInit[p] = true
	path := p.Pkg.Path()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := i.libGlobals[g]; !ok {
				i.libGlobals[g] = newCell(zero(g.Type().(*types.Pointer).Elem()))
			}
		}
	}
	if noInit[path] || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "crypto") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "net/http") {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	saveSteps := i.steps
	saveInit := i.initing
	i.initing = true
	mon := i.mon
	i.mon = nil // runs before main
	defer func() {
		i.mon = mon
		i.steps = saveSteps
		i.initing = saveInit
		if r := recover(); r != nil {
			// A partially initialised library package: tolerated, the names it
			// failed on stay zero and are reported.
			if pa, ok := r.(pathAbort); ok && pa.kind == "unsupported" {
				i.incompl["libinit:"+path+": "+pa.msg]++
				return
			}
			if tp, ok := r.(targetPanic); ok {
				i.incompl["libinit panic:"+path+": "+fmt.Sprint(tp.v.v)]++
				return
			}
			panic(r)
		}
	}()
	i.callFn(nil, fn, nil, nil)
}

// initUser runs the initialisers of the non-stdlib packages.
func (i *Interp) initUser(order []*ssa.Package) {
	for _, p := range order {
		fn := p.Func("init")
		if fn != nil {
			i.callFn(nil, fn, nil, nil)
		}
	}
}

// ---- calls ----

func (i *Interp) call(fr *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			i.rtPanic("invalid memory address or nil pointer dereference")
		}
		return i.callFn(fr, f, args, nil)
	case *closure:
		return i.callFn(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return i.builtin(fr, f, args, nil)
	case *nativeFn:
		return f.f(i, args)
	}
	panic(unsupported("call of %T", fn))
}

func (i *Interp) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	info := i.info(fn)
	if info.intr != nil {
		return info.intr(i, caller, fn, args)
	}
	if len(info.blocks) == 0 {
		panic(unsupported("no body: %s", fn.String()))
	}
	if fn.Synthetic == "package initializer" && isStdPath(fn.Pkg.Pkg.Path()) && !(i.initing && caller == nil) {
		// dependency initialisers run lazily
		return nil
	}
	if i.depth > i.maxDepth {
		panic(pathAbort{"depth", "call depth limit in " + fn.String()})
	}
	if info.user {
		i.encFns[fn] = true
	}
	i.depth++
	fr := &frame{i: i, caller: caller, info: info, regs: make([]value, info.nslots), env: env}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.prev = -1
	if i.mon != nil {
		save := i.curFn
		i.curFn = fn
		defer func() { i.curFn = save }()
	}
	if info.hasDefer {
		for fr.block >= 0 {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	i.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	depth := fr.i.depth
	defer func() {
		if fr.block < 0 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.i.depth = depth
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		// recovered
		if fr.info.fn.Recover != nil {
			fr.prev = -1
			fr.block = fr.info.fn.Recover.Index
		} else {
			fr.result = zero(fr.info.fn.Signature.Results())
			if fr.info.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			fr.block = -1
		}
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic.(targetPanic))
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.panic = tp
		}
	}()
	fr.i.call(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) run() {
	i := fr.i
	for {
		blk := &fr.info.blocks[fr.block]
		// phis first, simultaneously
		if blk.nphi > 0 && fr.prev >= 0 {
			pi := -1
			for k, p := range blk.b.Preds {
				if p.Index == fr.prev {
					pi = k
					break
				}
			}
			var tmp [8]value
			vals := tmp[:0]
			for k := 0; k < blk.nphi; k++ {
				vals = append(vals, fr.get(&blk.ins[k].ops[pi]))
			}
			for k := 0; k < blk.nphi; k++ {
				fr.regs[blk.ins[k].dst] = vals[k]
			}
		}
		next := -2
		for k := blk.nphi; k < len(blk.ins); k++ {
			ci := &blk.ins[k]
			i.steps++
			if i.steps > i.maxSteps {
				panic(pathAbort{"steps", "step limit in " + fr.info.fn.String()})
			}
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				var b bool
				switch c := c.(type) {
				case bool:
					b = c
				case *Term:
					b = i.decide(c)
				default:
					panic(unsupported("if on %T", c))
				}
				if b {
					next = blk.b.Succs[0].Index
				} else {
					next = blk.b.Succs[1].Index
				}
			case *ssa.Jump:
				next = blk.b.Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				fr.block = -1
				return
			case *ssa.Panic:
				v := i.asIface(fr.get(&ci.ops[0]))
				panic(targetPanic{v})
			case *ssa.RunDefers:
				fr.runDefers()
			default:
				i.exec(fr, ci, in)
			}
			if next >= -1 {
				break
			}
		}
		if next < 0 {
			panic(unsupported("block fell through in %s", fr.info.fn))
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (i *Interp) rtPanic(msg string) {
	panic(targetPanic{iface{i.P.rtErr, "runtime error: " + msg}})
}

// asIface returns an interface value, forcing lazy ones.
func (i *Interp) asIface(v value) iface {
	switch v := v.(type) {
	case iface:
		return v
	case *lazyIface:
		return i.force(v)
	case nil:
		return iface{}
	}
	panic(unsupported("asIface of %T", v))
}

func (i *Interp) force(l *lazyIface) iface {
	if !l.done {
		if l.busy {
			panic(unsupported("recursive lazy value"))
		}
		l.busy = true
		r := i.call(nil, l.thunk, nil)
		l.val = i.asIface(r)
		l.done = true
		l.thunk = nil
	}
	return l.val
}

func (i *Interp) ptr(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported("pointer is %T", v))
	}
	if p == nil {
		i.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (i *Interp) exec(fr *frame, ci *cinstr, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		c := newCell(zero(in.Type().Underlying().(*types.Pointer).Elem()))
		if i.mon != nil {
			i.mon.alloc(c)
		}
		fr.regs[ci.dst] = c

	case *ssa.UnOp:
		fr.regs[ci.dst] = i.unop(fr, ci, in)

	case *ssa.BinOp:
		fr.regs[ci.dst] = i.binop(ci, in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in)

	case *ssa.Call:
		fr.regs[ci.dst] = i.doCall(fr, ci, &in.Call)

	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])

	case *ssa.Convert:
		fr.regs[ci.dst] = i.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))

	case *ssa.MultiConvert:
		fr.regs[ci.dst] = i.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))

	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).([]value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			i.rtPanic("cannot convert slice to array pointer")
		}
		var p value = arrayV(s[:n:n])
		fr.regs[ci.dst] = &p

	case *ssa.MakeInterface:
		x := fr.get(&ci.ops[0])
		switch x.(type) {
		case structV, arrayV:
			x = copyVal(x)
		}
		fr.regs[ci.dst] = iface{ci.aux.(types.Type), x}

	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(tuple)
		if !ok {
			panic(unsupported("extract from %T (%v)", fr.get(&ci.ops[0]), in))
		}
		fr.regs[ci.dst] = t[in.Index]

	case *ssa.FieldAddr:
		p := i.ptr(fr.get(&ci.ops[0]))
		s, ok := (*p).(structV)
		if !ok {
			panic(unsupported("field of modelled %T in %s", *p, fr.info.fn))
		}
		fr.regs[ci.dst] = &s[in.Field]

	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(structV)
		if !ok {
			panic(unsupported("field of modelled value in %s", fr.info.fn))
		}
		fr.regs[ci.dst] = s[in.Field]

	case *ssa.IndexAddr:
		fr.regs[ci.dst] = i.indexAddr(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), ci)

	case *ssa.Index:
		fr.regs[ci.dst] = i.index(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Type())

	case *ssa.Lookup:
		fr.regs[ci.dst] = i.lookup(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in)

	case *ssa.Slice:
		fr.regs[ci.dst] = i.slice(fr, ci, in)

	case *ssa.Store:
		p := i.ptr(fr.get(&ci.ops[0]))
		v := fr.get(&ci.ops[1])
		if i.mon != nil {
			i.mon.write(i, p)
		}
		storeInto(p, v)

	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*mapV)
		if !ok {
			panic(unsupported("map update on %T", fr.get(&ci.ops[0])))
		}
		if m == nil {
			panic(targetPanic{iface{i.P.rtErr, "assignment to entry in nil map"}})
		}
		i.mapSet(m, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))

	case *ssa.MakeMap:
		m := i.newMap(in.Type().Underlying().(*types.Map).Key())
		i.fresh(&m.cell)
		fr.regs[ci.dst] = m

	case *ssa.MakeSlice:
		n := int(int64(i.concInt(fr.get(&ci.ops[0]))))
		c := int(int64(i.concInt(fr.get(&ci.ops[1]))))
		if n < 0 || n > c || c > 1<<28 {
			i.rtPanic("makeslice: len out of range")
		}
		s := make([]value, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		z := zero(et)
		for k := range s {
			s[k] = copyVal(z)
			if i.mon != nil {
				i.mon.alloc(&s[k])
			}
		}
		fr.regs[ci.dst] = s[:n]

	case *ssa.MakeClosure:
		env := make([]value, len(in.Bindings))
		for k := range in.Bindings {
			env[k] = fr.get(&ci.ops[k+1])
		}
		fr.regs[ci.dst] = &closure{in.Fn.(*ssa.Function), env}

	case *ssa.TypeAssert:
		fr.regs[ci.dst] = i.typeAssert(in, ci.aux.(types.Type), i.asIface(fr.get(&ci.ops[0])))

	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case *mapV:
			fr.regs[ci.dst] = i.newMapIter(x)
		case string, *SymStr:
			fr.regs[ci.dst] = &rangeIter{isS: true, str: x}
		default:
			panic(unsupported("range over %T", x))
		}

	case *ssa.Next:
		it := fr.get(&ci.ops[0]).(*rangeIter)
		fr.regs[ci.dst] = i.next(it, in)

	case *ssa.Defer:
		fn, args := i.prepCall(fr, ci, &in.Call)
		fr.defers = &deferred{fn: fn, args: args, next: fr.defers}

	case *ssa.Go:
		fn, args := i.prepCall(fr, ci, &in.Call)
		i.call(nil, fn, args)

	case *ssa.MakeChan:
		fr.regs[ci.dst] = &chanV{cap: int(i.concInt(fr.get(&ci.ops[0])))}

	case *ssa.Send:
		ch := fr.get(&ci.ops[0]).(*chanV)
		ch.buf = append(ch.buf, fr.get(&ci.ops[1]))

	case *ssa.Phi:
		// entry via recover block: keep current

	default:
		panic(unsupported("instruction %T", in))
	}
}

func (i *Interp) doCall(fr *frame, ci *cinstr, c *ssa.CallCommon) value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]value, len(c.Args))
		for k := range c.Args {
			args[k] = fr.get(&ci.ops[k+1])
		}
		return i.builtin(fr, b, args, c)
	}
	fn, args := i.prepCall(fr, ci, c)
	return i.call(fr, fn, args)
}

func (i *Interp) prepCall(fr *frame, ci *cinstr, c *ssa.CallCommon) (value, []value) {
	v := fr.get(&ci.ops[0])
	if c.Method == nil {
		args := make([]value, len(c.Args))
		for k := range c.Args {
			a := fr.get(&ci.ops[k+1])
			switch a.(type) {
			case structV, arrayV:
				a = copyVal(a)
			}
			args[k] = a
		}
		return v, args
	}
	recv := i.asIface(v)
	if recv.t == nil {
		i.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := i.method(recv.t, c.Method)
	if fn == nil {
		panic(unsupported("method %s not found on %s", c.Method.Name(), recv.t))
	}
	args := make([]value, 0, len(c.Args)+1)
	args = append(args, copyVal(recv.v))
	for k := range c.Args {
		args = append(args, copyVal(fr.get(&ci.ops[k+1])))
	}
	return fn, args
}

func (i *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	pkg := ""
	if m.Pkg() != nil && !m.Exported() {
		pkg = m.Pkg().Path()
	}
	k := methKey{t, m.Name(), pkg}
	if f, ok := i.methods[k]; ok {
		return f
	}
	i.P.mu.Lock()
	f := i.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	i.P.mu.Unlock()
	i.methods[k] = f
	return f
}

// findMethod looks a method up by name; nil if absent.
func (i *Interp) findMethod(t types.Type, name string) *ssa.Function {
	k := methKey{t, name, "?"}
	if f, ok := i.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := i.P.prog.MethodSets.MethodSet(t)
	for n := 0; n < ms.Len(); n++ {
		if s := ms.At(n); s.Obj().Name() == name && s.Obj().Exported() {
			i.P.mu.Lock()
			f = i.P.prog.MethodValue(s)
			i.P.mu.Unlock()
			break
		}
	}
	i.methods[k] = f
	return f
}

func (i *Interp) typeAssert(in *ssa.TypeAssert, at types.Type, v iface) value {
	ok := false
	var res value
	if it, isI := at.Underlying().(*types.Interface); isI {
		if v.t != nil && i.implements(v.t, it) {
			ok = true
			res = v
		} else {
			res = iface{}
		}
	} else {
		if v.t == at {
			ok = true
			res = copyVal(v.v)
		} else if in.CommaOk {
			res = zero(at)
		}
	}
	if in.CommaOk {
		return tuple{res, ok}
	}
	if !ok {
		have := "nil"
		if v.t != nil {
			have = v.t.String()
		}
		panic(targetPanic{iface{i.P.rtErr, fmt.Sprintf("interface conversion: interface is %s, not %s", have, at)}})
	}
	return res
}

var implCache sync.Map

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (i *Interp) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	if t == i.P.rtErr {
		t = i.P.rtErr
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

// ---- indexing ----

func (i *Interp) concInt(v value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return uint64(sext64(i.concretize(v), v.w))
	}
	panic(unsupported("concInt %T", v))
}

// boundIndex turns an index value into a concrete index within [0,n).
func (i *Interp) boundIndex(v value, n int) int {
	switch v := v.(type) {
	case uint64:
		k := int64(v)
		if k < 0 || k >= int64(n) {
			i.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	case *Term:
		if v.w < 64 || n < 0 {
			// narrow unsigned or signed index: compare in its own width when possible
		}
		t := v
		if uint64(n) <= mask(t.w) {
			if !i.decide(i.bank.ULt(t, i.bank.Const(t.w, uint64(n)))) {
				i.rtPanic(fmt.Sprintf("index out of range with length %d", n))
			}
		}
		return int(i.concretize(t))
	}
	panic(unsupported("index %T", v))
}

func (i *Interp) indexAddr(x, idx value, ci *cinstr) value {
	switch x := x.(type) {
	case []value:
		if t, ok := idx.(*Term); ok && len(x) > 8 && ci.k == 1 {
			if r := i.tableRead(x, t, ci.w, ci.sg); r != nil {
				return newCell(r)
			}
		}
		return &x[i.boundIndex(idx, len(x))]
	case *value:
		if x == nil {
			i.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(arrayV)
		if t, ok := idx.(*Term); ok && len(a) > 8 && ci.k == 1 {
			if r := i.tableRead(a, t, ci.w, ci.sg); r != nil {
				return newCell(r)
			}
		}
		return &a[i.boundIndex(idx, len(a))]
	}
	panic(unsupported("indexAddr %T", x))
}

// tableRead models reading a table of concrete scalars at a symbolic index as
// an ite-chain over runs of equal elements (only used for addresses that are
// never written through).
func (i *Interp) tableRead(a []value, t *Term, w int, signed bool) value {
	isBool := false
	for _, x := range a {
		switch x.(type) {
		case uint64:
		case bool:
			isBool = true
		default:
			return nil
		}
	}
	if !isBool && w == 0 {
		return nil
	}
	n := len(a)
	if uint64(n) <= mask(t.w) {
		if !i.decide(i.bank.ULt(t, i.bank.Const(t.w, uint64(n)))) {
			i.rtPanic("index out of range")
		}
	}
	lo, hi := max(0, t.lo), min(uint64(n-1), t.hi)
	B := i.bank
	conv := func(v value) *Term {
		if b, ok := v.(bool); ok {
			return B.Bool(b)
		}
		return B.Const(w, v.(uint64))
	}
	// Build from the top: value for index in run j..k.
	var r *Term
	k := hi
	for {
		j := k
		for j > lo && a[j-1] == a[k] {
			j--
		}
		if r == nil {
			r = conv(a[k])
		} else {
			r = B.Ite(B.ULe(t, B.Const(t.w, k)), conv(a[k]), r)
		}
		if j == lo {
			break
		}
		k = j - 1
	}
	if isBool {
		return boolVal(r)
	}
	return termVal(r, w, signed)
}

func (i *Interp) index(x, idx value, et types.Type) value {
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if t, ok := idx.(*Term); ok {
			if s, ok := x.(string); ok && len(s) > 4 {
				a := make([]value, len(s))
				for k := range a {
					a[k] = uint64(s[k])
				}
				if r := i.tableRead(a, t, 8, false); r != nil {
					return r
				}
			}
		}
		return i.strAt(x, i.boundIndex(idx, n))
	case arrayV:
		if t, ok := idx.(*Term); ok && len(x) > 8 {
			w, s, _ := intInfo(et)
			if r := i.tableRead(x, t, w, s); r != nil {
				return r
			}
		}
		return x[i.boundIndex(idx, len(x))]
	case []value:
		return x[i.boundIndex(idx, len(x))]
	}
	panic(unsupported("index %T", x))
}

func (i *Interp) lookup(x, key value, in *ssa.Lookup) value {
	switch x := x.(type) {
	case *mapV:
		e := i.mapGet(x, key)
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return tuple{v, e != nil}
		}
		return v
	case string, *SymStr:
		return i.index(x, key, nil)
	}
	panic(unsupported("lookup in %T", x))
}

func (i *Interp) slice(fr *frame, ci *cinstr, in *ssa.Slice) value {
	x := fr.get(&ci.ops[0])
	opt := func(k int, def int) int {
		if k < 0 {
			return def
		}
		return int(int64(i.concInt(fr.get(&ci.ops[k]))))
	}
	n := 1
	lk, hk, mk := -1, -1, -1
	if in.Low != nil {
		lk = n
	}
	n++
	if in.High != nil {
		hk = n
	}
	n++
	if in.Max != nil {
		mk = n
	}
	// Operands() returns all four operand slots, nil ones included.
	switch x := x.(type) {
	case string, *SymStr:
		ln := strLen(x)
		lo := opt(lk, 0)
		hi := opt(hk, ln)
		if lo < 0 || hi < lo || hi > ln {
			i.rtPanic("slice bounds out of range")
		}
		return i.strSlice(x, lo, hi)
	case []value:
		lo := opt(lk, 0)
		hi := opt(hk, len(x))
		mx := opt(mk, cap(x))
		if lo < 0 || hi < lo || mx < hi || mx > cap(x) {
			i.rtPanic("slice bounds out of range")
		}
		if x == nil {
			return x
		}
		return x[lo:hi:mx]
	case *value:
		if x == nil {
			i.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(arrayV)
		lo := opt(lk, 0)
		hi := opt(hk, len(a))
		mx := opt(mk, len(a))
		if lo < 0 || hi < lo || mx < hi || mx > len(a) {
			i.rtPanic("slice bounds out of range")
		}
		return []value(a[lo:hi:mx])
	}
	panic(unsupported("slice of %T", x))
}

// ---- maps ----

func (i *Interp) newMap(kt types.Type) *mapV {
	i.mapSeq++
	return &mapV{id: i.mapSeq, kt: kt, idx: map[interface{}]*mapEnt{}}
}

type ikey struct {
	t types.Type
	k interface{}
}

// hashKey returns a comparable key for fully concrete values.
func (i *Interp) hashKey(k value) (interface{}, bool) {
	switch k := k.(type) {
	case string:
		return k, true
	case uint64:
		return k, true
	case bool:
		return k, true
	case float64:
		return k, true
	case *value:
		return k, true
	case *mapV, *ssa.Function, *closure, *chanV:
		return k, true
	case iface:
		if k.t == nil {
			return ikey{}, true
		}
		h, ok := i.hashKey(k.v)
		return ikey{k.t, h}, ok
	case *lazyIface:
		return i.hashKey(i.force(k))
	case structV:
		var sb strings.Builder
		for _, x := range k {
			h, ok := i.hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return sb.String(), true
	case arrayV:
		var sb strings.Builder
		sb.WriteString("[]")
		for _, x := range k {
			h, ok := i.hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return sb.String(), true
	}
	return nil, false
}

func (i *Interp) mapGet(m *mapV, key value) *mapEnt {
	if m == nil {
		return nil
	}
	if i.mon != nil {
		i.mon.read(i, &m.cell)
	}
	if f, ok := key.(iface); ok && f.t != nil {
		if !types.Comparable(f.t) {
			panic(targetPanic{iface{i.P.rtErr, "runtime error: hash of unhashable type " + f.t.String()}})
		}
	}
	h, conc := i.hashKey(key)
	if conc {
		if e, ok := m.idx[h]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := i.hashKey(e.k); ec {
				continue
			}
		}
		if i.truth(i.equals(m.kt, e.k, key)) {
			return e
		}
	}
	return nil
}

func (i *Interp) mapSet(m *mapV, key, v value) {
	if i.mon != nil {
		i.mon.write(i, &m.cell)
	}
	if l, ok := key.(*lazyIface); ok {
		key = i.force(l)
	}
	if e := i.mapGet(m, key); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: key, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if h, ok := i.hashKey(key); ok {
		m.idx[h] = e
	} else {
		m.nsym++
	}
}

func (i *Interp) mapDelete(m *mapV, key value) {
	if m == nil {
		return
	}
	if i.mon != nil {
		i.mon.write(i, &m.cell)
	}
	e := i.mapGet(m, key)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if h, ok := i.hashKey(e.k); ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/2 {
		var l []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				l = append(l, x)
			}
		}
		m.ents = l
	}
}

func (i *Interp) newMapIter(m *mapV) *rangeIter {
	it := &rangeIter{m: m}
	if m == nil {
		return it
	}
	if i.mon != nil {
		i.mon.read(i, &m.cell)
	}
	for _, e := range m.ents {
		if !e.dead {
			it.ord = append(it.ord, e)
		}
	}
	if i.mapOrder && len(it.ord) > 1 {
		n := len(it.ord)
		if n <= 3 {
			rest := it.ord
			var ord []*mapEnt
			for len(rest) > 1 {
				c := i.choice(len(rest))
				ord = append(ord, rest[c])
				r2 := append([]*mapEnt{}, rest[:c]...)
				rest = append(r2, rest[c+1:]...)
			}
			it.ord = append(ord, rest...)
		} else {
			// rotations of insertion order, forwards or backwards
			c := i.choice(n)
			ord := append(append([]*mapEnt{}, it.ord[c:]...), it.ord[:c]...)
			if i.choice(2) == 1 {
				for a, b := 0, len(ord)-1; a < b; a, b = a+1, b-1 {
					ord[a], ord[b] = ord[b], ord[a]
				}
			}
			it.ord = ord
		}
	}
	return it
}

func (i *Interp) next(it *rangeIter, in *ssa.Next) value {
	if it.isS {
		n := strLen(it.str)
		if it.sp >= n {
			return tuple{false, uint64(0), uint64(0)}
		}
		pos := it.sp
		var r value
		var sz int
		switch s := it.str.(type) {
		case string:
			end := min(n, pos+4)
			r, sz = i.decodeRune(i.strTerms(s[pos:end]))
		case *SymStr:
			r, sz = i.decodeRune(s.b[pos:])
		}
		it.sp += sz
		return tuple{true, uint64(pos), r}
	}
	for it.pos < len(it.ord) {
		e := it.ord[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return tuple{true, e.k, copyVal(e.v)}
	}
	return tuple{false, nil, nil}
}

// ---- slices via unsafe ----

func sliceFromPtr(p *value, n int) []value {
	if p == nil {
		return nil
	}
	return unsafe.Slice(p, n)
}
