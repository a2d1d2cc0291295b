package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"text/template/parse"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- regexp ----

type rxState struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

var rxCache sync.Map

func compileRx(s string) (*rxState, error) {
	if x, ok := rxCache.Load(s); ok {
		return x.(*rxState), nil
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	pr, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	x := &rxState{s, re, pr}
	rxCache.Store(s, x)
	return x, nil
}

// rxMatch gives the condition under which re matches somewhere in b.
func (i *Interp) rxMatch(x *rxState, s value) value {
	if c, ok := s.(string); ok {
		return x.re.MatchString(c)
	}
	B := i.bank
	b := s.(*SymStr).b
	var rs []*Term
	for len(b) > 0 {
		r, n := i.decodeRune(b)
		rs = append(rs, i.intTerm(r, 32))
		b = b[n:]
	}
	n := len(rs)
	c32 := func(v rune) *Term { return B.Const(32, uint64(uint32(v))) }
	isWord := func(k int) *Term {
		if k < 0 || k >= n {
			return B.False
		}
		r := rs[k]
		in := func(lo, hi rune) *Term { return B.And(B.ULe(c32(lo), r), B.ULe(r, c32(hi))) }
		return B.Or(in('0', '9'), in('A', 'Z'), in('a', 'z'), B.Eq(r, c32('_')))
	}
	nl := func(k int) *Term { return B.Eq(rs[k], c32('\n')) }
	empty := func(op syntax.EmptyOp, pos int) *Term {
		r := B.True
		if op&syntax.EmptyBeginText != 0 {
			r = B.And(r, B.Bool(pos == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			r = B.And(r, B.Bool(pos == n))
		}
		if op&syntax.EmptyBeginLine != 0 && pos > 0 {
			r = B.And(r, nl(pos-1))
		}
		if op&syntax.EmptyEndLine != 0 && pos < n {
			r = B.And(r, nl(pos))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			w := B.Not(B.Eq(isWord(pos-1), isWord(pos)))
			if op&syntax.EmptyWordBoundary != 0 {
				r = B.And(r, w)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				r = B.And(r, B.Not(w))
			}
		}
		return r
	}
	matched := B.False
	P := x.prog
	cur := make([]*Term, len(P.Inst))
	for k := range cur {
		cur[k] = B.False
	}
	var onstack []bool
	var add func(dst []*Term, pc uint32, c *Term, pos int)
	add = func(dst []*Term, pc uint32, c *Term, pos int) {
		if c == B.False || onstack[pc] {
			return
		}
		nc := B.Or(dst[pc], c)
		if nc == dst[pc] {
			return
		}
		dst[pc] = nc
		onstack[pc] = true
		in := &P.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(dst, in.Out, c, pos)
			add(dst, in.Arg, c, pos)
		case syntax.InstCapture, syntax.InstNop:
			add(dst, in.Out, c, pos)
		case syntax.InstEmptyWidth:
			add(dst, in.Out, B.And(c, empty(syntax.EmptyOp(in.Arg), pos)), pos)
		case syntax.InstMatch:
			matched = B.Or(matched, c)
		}
		onstack[pc] = false
	}
	onstack = make([]bool, len(P.Inst))
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(P.Start), B.True, pos)
		if matched == B.True || pos == n {
			break
		}
		next := make([]*Term, len(P.Inst))
		for k := range next {
			next[k] = B.False
		}
		for pc := range P.Inst {
			if cur[pc] == B.False {
				continue
			}
			in := &P.Inst[pc]
			var m *Term
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				m = i.rxRune(in, rs[pos])
			case syntax.InstRuneAny:
				m = B.True
			case syntax.InstRuneAnyNotNL:
				m = B.Not(B.Eq(rs[pos], c32('\n')))
			default:
				continue
			}
			add(next, in.Out, B.And(cur[pc], m), pos+1)
		}
		cur = next
	}
	return boolVal(matched)
}

func (i *Interp) rxRune(in *syntax.Inst, r *Term) *Term {
	B := i.bank
	c32 := func(v rune) *Term { return B.Const(32, uint64(uint32(v))) }
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		m := B.Eq(r, c32(r0))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(r0); f != r0; f = unicode.SimpleFold(f) {
				m = B.Or(m, B.Eq(r, c32(f)))
			}
		}
		return m
	}
	m := B.False
	for k := 0; k+1 < len(in.Rune); k += 2 {
		lo, hi := in.Rune[k], in.Rune[k+1]
		if uint64(hi) < r.lo || uint64(lo) > r.hi {
			continue
		}
		if lo == hi {
			m = B.Or(m, B.Eq(r, c32(lo)))
		} else {
			m = B.Or(m, B.And(B.ULe(c32(lo), r), B.ULe(r, c32(hi))))
		}
	}
	return m
}

func (i *Interp) rxCompile(s value) (value, error) {
	x, err := compileRx(i.concStr(s))
	if err != nil {
		return (*value)(nil), err
	}
	return newCell(nativeV{x}), nil
}

func init() {
	reg("regexp.Compile", func(i *Interp, fr *frame, a []value) value {
		v, err := i.rxCompile(a[0])
		if err != nil {
			return tuple{(*value)(nil), i.newError(err.Error())}
		}
		return tuple{v, iface{}}
	})
	reg("regexp.MustCompile", func(i *Interp, fr *frame, a []value) value {
		v, err := i.rxCompile(a[0])
		if err != nil {
			panic(targetPanic{iface{i.P.tString, "regexp: Compile: " + err.Error()}})
		}
		return v
	})
	st := func(i *Interp, v value) *rxState {
		n, ok := (*i.ptr(v)).(nativeV)
		if !ok {
			panic(unsupported("uninitialised regexp"))
		}
		return n.x.(*rxState)
	}
	reg("(*regexp.Regexp).MatchString", func(i *Interp, fr *frame, a []value) value { return i.rxMatch(st(i, a[0]), a[1]) })
	reg("(*regexp.Regexp).Match", func(i *Interp, fr *frame, a []value) value {
		return i.rxMatch(st(i, a[0]), i.bytesToStr(a[1].([]value)))
	})
	reg("regexp.MatchString", func(i *Interp, fr *frame, a []value) value {
		x, err := compileRx(i.concStr(a[0]))
		if err != nil {
			return tuple{false, i.newError(err.Error())}
		}
		return tuple{i.rxMatch(x, a[1]), iface{}}
	})
	reg("(*regexp.Regexp).String", func(i *Interp, fr *frame, a []value) value { return st(i, a[0]).src })
	reg("regexp.QuoteMeta", func(i *Interp, fr *frame, a []value) value { return regexp.QuoteMeta(i.concStr(a[0])) })
	reg("(*regexp.Regexp).FindString", func(i *Interp, fr *frame, a []value) value {
		x := st(i, a[0])
		if _, ok := a[1].(string); !ok {
			if !i.truth(i.rxMatch(x, a[1])) {
				return ""
			}
			if x.anchored() {
				return a[1]
			}
		}
		return x.re.FindString(i.concStr(a[1]))
	})
	reg("(*regexp.Regexp).FindStringIndex", func(i *Interp, fr *frame, a []value) value {
		x := st(i, a[0])
		if s, ok := a[1].(*SymStr); ok {
			if !i.truth(i.rxMatch(x, s)) {
				return []value(nil)
			}
			if x.anchored() {
				return []value{num(0), num(len(s.b))}
			}
		}
		r := x.re.FindStringIndex(i.concStr(a[1]))
		if r == nil {
			return []value(nil)
		}
		return []value{num(r[0]), num(r[1])}
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(i *Interp, fr *frame, a []value) value {
		x := st(i, a[0])
		if s, ok := a[1].(*SymStr); ok && !i.truth(i.rxMatch(x, s)) {
			return []value(nil)
		}
		r := x.re.FindStringSubmatch(i.concStr(a[1]))
		if r == nil {
			return []value(nil)
		}
		var s []value
		for _, x := range r {
			s = append(s, x)
		}
		return s
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(i *Interp, fr *frame, a []value) value {
		return st(i, a[0]).re.ReplaceAllString(i.concStr(a[1]), i.concStr(a[2]))
	})
}

// ---- text/template ----

type tmplState struct {
	name   string
	common *tmplCommon
	tree   *parse.Tree
}

// fresh marks a cell as allocated by the current monitored thread.
func (i *Interp) fresh(p *value) *value {
	if i.mon != nil {
		i.mon.alloc(p)
	}
	return p
}

// tmplCommon is shared by associated templates.
type tmplCommon struct {
	funcs *mapV
	set   map[string]*value
}

// tmplInit creates the shared part on first use, as the real code does.
func (i *Interp) tmplInit(v value) *tmplState {
	t := i.tmpl(v)
	p := v.(*value)
	if i.mon != nil {
		i.mon.add(p, t.common == nil)
	}
	if t.common == nil {
		t.common = &tmplCommon{funcs: i.newMap(i.P.tString), set: map[string]*value{}}
	}
	return t
}

var tmplBuiltins = map[string]interface{}{
	"and": nil, "or": nil, "not": nil, "len": nil, "index": nil, "print": nil, "printf": nil, "println": nil, "html": nil, "js": nil, "urlquery": nil,
	"eq": nil, "ne": nil, "lt": nil, "le": nil, "gt": nil, "ge": nil, "call": nil, "slice": nil,
}

func (i *Interp) tmpl(v value) *tmplState {
	p := i.ptr(v)
	if n, ok := (*p).(nativeV); ok {
		return n.x.(*tmplState)
	}
	t := &tmplState{}
	*p = nativeV{t}
	return t
}

func (i *Interp) tmplParse(t *tmplState, text string) error {
	fm := map[string]interface{}{}
	for k := range tmplBuiltins {
		fm[k] = func() {}
	}
	if t.common != nil {
		for _, e := range t.common.funcs.ents {
			if !e.dead {
				fm[i.concStr(e.k)] = func() {}
			}
		}
	}
	ts, err := parse.Parse(t.name, text, "", "", fm)
	if err != nil {
		return err
	}
	t.tree = ts[t.name]
	return nil
}

type tmplErr struct{ msg string }

func (i *Interp) tmplExec(t *tmplState, w value, data iface) value {
	if t.tree == nil || t.tree.Root == nil {
		return i.newError("template: " + t.name + ": incomplete template")
	}
	var out value = ""
	var errv value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(tmplErr); ok {
					errv = i.newError("template: " + e.msg)
					return
				}
				panic(r)
			}
		}()
		i.tmplList(t, t.tree.Root, data, &out)
	}()
	if strLen(out) > 0 {
		r := i.writeTo(w, out).(tuple)
		if e := i.asIface(r[1]); e.t != nil {
			return e
		}
	}
	if errv != nil {
		return errv
	}
	return iface{}
}

func (i *Interp) tmplList(t *tmplState, l *parse.ListNode, dot iface, out *value) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		switch n := n.(type) {
		case *parse.TextNode:
			*out = i.strCat(*out, string(n.Text))
		case *parse.ActionNode:
			v, ok := i.tmplPipe(t, n.Pipe, dot)
			if len(n.Pipe.Decl) > 0 {
				panic(unsupported("template variable"))
			}
			*out = i.strCat(*out, i.tmplPrint(v, ok))
		case *parse.IfNode:
			v, ok := i.tmplPipe(t, n.Pipe, dot)
			if ok && i.tmplTrue(v) {
				i.tmplList(t, n.List, dot, out)
			} else {
				i.tmplList(t, n.ElseList, dot, out)
			}
		case *parse.CommentNode:
		case *parse.RangeNode:
			v, _ := i.tmplPipe(t, n.Pipe, dot)
			s, ok := v.v.([]value)
			if !ok {
				panic(unsupported("template range over %s", v.t))
			}
			et := v.t.Underlying().(*types.Slice).Elem()
			for _, x := range s {
				i.tmplList(t, n.List, i.mkIface(et, x), out)
			}
			if len(s) == 0 {
				i.tmplList(t, n.ElseList, dot, out)
			}
		case *parse.WithNode:
			v, ok := i.tmplPipe(t, n.Pipe, dot)
			if ok && i.tmplTrue(v) {
				i.tmplList(t, n.List, v, out)
			} else {
				i.tmplList(t, n.ElseList, dot, out)
			}
		default:
			panic(unsupported("template node %T", n))
		}
	}
}

func (i *Interp) tmplTrue(v iface) bool {
	if v.t == nil {
		return false
	}
	switch x := v.v.(type) {
	case structV, ratV:
		return true
	case *Term, *SymStr:
		if s, ok := x.(*SymStr); ok {
			return len(s.b) > 0
		}
	}
	return !i.jsonEmpty(v.v)
}

func (i *Interp) tmplPrint(v iface, ok bool) value {
	if !ok {
		return "<no value>"
	}
	if v.t == nil {
		return "<no value>"
	}
	// printableValue: pointers are indirected unless they print themselves
	if pt, is := v.t.Underlying().(*types.Pointer); is {
		if i.findMethod(v.t, "Error") == nil && i.findMethod(v.t, "String") == nil {
			p, _ := v.v.(*value)
			if p == nil {
				return "<nil>"
			}
			v = i.mkIface(pt.Elem(), *p)
		}
	}
	return i.fmtValue(v, 'v', "")
}

func (i *Interp) tmplPipe(t *tmplState, p *parse.PipeNode, dot iface) (iface, bool) {
	var v iface
	ok := false
	for k, c := range p.Cmds {
		var final *iface
		if k > 0 {
			f := v
			final = &f
		}
		v, ok = i.tmplCmd(t, c, dot, final)
	}
	return v, ok
}

func (i *Interp) tmplCmd(t *tmplState, c *parse.CommandNode, dot iface, final *iface) (iface, bool) {
	switch n := c.Args[0].(type) {
	case *parse.IdentifierNode:
		var args []iface
		for _, a := range c.Args[1:] {
			v, _ := i.tmplArg(t, a, dot)
			args = append(args, v)
		}
		if final != nil {
			args = append(args, *final)
		}
		return i.tmplCall(t, n.Ident, args), true
	}
	if len(c.Args) > 1 {
		panic(unsupported("template method call with arguments"))
	}
	return i.tmplArg(t, c.Args[0], dot)
}

func (i *Interp) tmplArg(t *tmplState, a parse.Node, dot iface) (iface, bool) {
	switch n := a.(type) {
	case *parse.FieldNode:
		return i.tmplField(dot, n.Ident)
	case *parse.DotNode:
		return dot, true
	case *parse.StringNode:
		return iface{i.P.tString, n.Text}, true
	case *parse.BoolNode:
		return iface{i.P.tBool, n.True}, true
	case *parse.NumberNode:
		if n.IsInt {
			return iface{i.P.tInt, uint64(n.Int64)}, true
		}
	case *parse.PipeNode:
		return i.tmplPipe(t, n, dot)
	case *parse.NilNode:
		return iface{}, true
	case *parse.ChainNode:
		v, _ := i.tmplArg(t, n.Node, dot)
		return i.tmplField(v, n.Field)
	case *parse.IdentifierNode:
		return i.tmplCall(t, n.Ident, nil), true
	}
	panic(unsupported("template argument %T", a))
}

func (i *Interp) tmplField(v iface, ids []string) (iface, bool) {
	for _, id := range ids {
		if v.t == nil {
			panic(tmplErr{"nil data; no entry for key " + id})
		}
		if fn := i.findMethod(v.t, id); fn != nil {
			r := i.callFn(nil, fn, []value{v.v}, nil)
			v = i.mkIface(fn.Signature.Results().At(0).Type(), r)
			continue
		}
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			p, _ := v.v.(*value)
			if p == nil {
				panic(tmplErr{"nil pointer evaluating " + id})
			}
			v = i.mkIface(pt.Elem(), *p)
		}
		switch u := v.t.Underlying().(type) {
		case *types.Map:
			e := i.mapGet(v.v.(*mapV), id)
			if e == nil {
				return iface{}, false
			}
			v = i.mkIface(u.Elem(), e.v)
		case *types.Struct:
			found := false
			for k := 0; k < u.NumFields(); k++ {
				if u.Field(k).Name() == id {
					v = i.mkIface(u.Field(k).Type(), v.v.(structV)[k])
					found = true
				}
			}
			if !found {
				panic(tmplErr{"can't evaluate field " + id})
			}
		default:
			panic(tmplErr{"can't evaluate field " + id + " in type " + typeStr(v.t)})
		}
	}
	return v, true
}

func (i *Interp) tmplCall(t *tmplState, name string, args []iface) iface {
	if t.common.funcs != nil {
		if e := i.mapGet(t.common.funcs, name); e != nil {
			f := i.asIface(e.v)
			sig := f.t.Underlying().(*types.Signature)
			var av []value
			np := sig.Params().Len()
			fix := np
			if sig.Variadic() {
				fix--
			}
			for k := 0; k < fix && k < len(args); k++ {
				pt := sig.Params().At(k).Type()
				if _, ok := pt.Underlying().(*types.Interface); ok {
					av = append(av, args[k])
				} else {
					av = append(av, args[k].v)
				}
			}
			if sig.Variadic() {
				rest := []value{}
				et := sig.Params().At(fix).Type().(*types.Slice).Elem()
				for k := fix; k < len(args); k++ {
					if _, ok := et.Underlying().(*types.Interface); ok {
						rest = append(rest, args[k])
					} else {
						rest = append(rest, args[k].v)
					}
				}
				av = append(av, rest)
			}
			if len(av) != np {
				panic(tmplErr{"wrong number of args for " + name})
			}
			r := i.call(nil, f.v, av)
			if tp, ok := r.(tuple); ok {
				if e := i.asIface(tp[1]); e.t != nil {
					panic(tmplErr{"error calling " + name})
				}
				r = tp[0]
			}
			return i.mkIface(sig.Results().At(0).Type(), r)
		}
	}
	vals := func() []value {
		var s []value
		for _, a := range args {
			s = append(s, a)
		}
		return s
	}
	switch name {
	case "printf":
		return iface{i.P.tString, i.sprintf(args[0].v, vals()[1:])}
	case "print":
		return iface{i.P.tString, i.sprint(vals(), false)}
	case "println":
		return iface{i.P.tString, i.sprint(vals(), true)}
	case "not":
		return iface{i.P.tBool, !i.tmplTrue(args[0])}
	case "len":
		switch x := args[0].v.(type) {
		case string, *SymStr:
			return iface{i.P.tInt, uint64(strLen(x))}
		case []value:
			return iface{i.P.tInt, uint64(len(x))}
		case *mapV:
			return iface{i.P.tInt, uint64(x.n)}
		}
	case "eq":
		return iface{i.P.tBool, i.truth(i.equals(nil, args[0], args[1]))}
	case "ne":
		return iface{i.P.tBool, !i.truth(i.equals(nil, args[0], args[1]))}
	case "and":
		r := iface{}
		for _, a := range args {
			r = a
			if !i.tmplTrue(a) {
				break
			}
		}
		return r
	case "or":
		r := iface{}
		for _, a := range args {
			r = a
			if i.tmplTrue(a) {
				break
			}
		}
		return r
	}
	panic(unsupported("template function %s", name))
}

func init() {
	reg("text/template.New", func(i *Interp, fr *frame, a []value) value {
		return i.fresh(newCell(nativeV{&tmplState{name: i.concStr(a[0])}}))
	})
	reg("(*text/template.Template).New", func(i *Interp, fr *frame, a []value) value {
		return i.fresh(newCell(nativeV{&tmplState{name: i.concStr(a[1]), common: i.tmplInit(a[0]).common}}))
	})
	reg("(*text/template.Template).Lookup", func(i *Interp, fr *frame, a []value) value {
		t := i.tmpl(a[0])
		if i.mon != nil {
			i.mon.add(a[0].(*value), false)
		}
		if t.common == nil {
			return (*value)(nil)
		}
		return t.common.set[i.concStr(a[1])]
	})
	reg("(*text/template.Template).Funcs", func(i *Interp, fr *frame, a []value) value {
		t := i.tmplInit(a[0])
		m, _ := a[1].(*mapV)
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					mon := i.mon // guarded by the template's own lock
					i.mon = nil
					i.mapSet(t.common.funcs, e.k, e.v)
					i.mon = mon
				}
			}
		}
		return a[0]
	})
	reg("(*text/template.Template).Parse", func(i *Interp, fr *frame, a []value) value {
		t := i.tmplInit(a[0])
		if err := i.tmplParse(t, i.concStr(a[1])); err != nil {
			return tuple{(*value)(nil), i.newError(err.Error())}
		}
		if i.mon != nil {
			i.mon.add(a[0].(*value), true)
		}
		t.common.set[t.name] = a[0].(*value)
		return tuple{a[0], iface{}}
	})
	reg("(*text/template.Template).Execute", func(i *Interp, fr *frame, a []value) value {
		if i.mon != nil {
			i.mon.add(a[0].(*value), false)
		}
		return i.tmplExec(i.tmpl(a[0]), a[1], i.asIface(a[2]))
	})
	reg("(*text/template.Template).Option", func(i *Interp, fr *frame, a []value) value { return a[0] })
	reg("(*text/template.Template).Name", func(i *Interp, fr *frame, a []value) value { return i.tmpl(a[0]).name })
	reg("text/template.Must", func(i *Interp, fr *frame, a []value) value {
		if e := i.asIface(a[1]); e.t != nil {
			panic(targetPanic{e})
		}
		return a[0]
	})
}

var _ = fmt.Sprint
var _ = strings.Contains
var _ *ssa.Function
