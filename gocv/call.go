package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
)

func (u *Unit) evalArgs(fr *Frame, st **State, call *ast.CallExpr, sig *types.Signature, lib bool) []Value {
	var vs []Value
	if len(call.Args) == 1 && sig.Params().Len() > 1 {
		if tt, ok := u.v.p.info.TypeOf(call.Args[0]).(*types.Tuple); ok && tt.Len() > 1 {
			v := u.evalMulti(fr, st, call.Args[0])
			if *st == nil {
				return nil
			}
			vs = v.vs
		}
	}
	if vs == nil {
		for _, a := range call.Args {
			v := u.eval(fr, st, a)
			if *st == nil {
				return nil
			}
			vs = append(vs, v)
		}
	}
	n := sig.Params().Len()
	if sig.Variadic() && !call.Ellipsis.IsValid() {
		vt := sig.Params().At(n - 1).Type().(*types.Slice)
		fixed := vs[:n-1]
		rest := vs[n-1:]
		var out []Value
		for i, v := range fixed {
			if lib && types.IsInterface(sig.Params().At(i).Type()) {
				out = append(out, v)
				continue
			}
			out = append(out, u.convertTo(*st, v, sig.Params().At(i).Type()))
		}
		if lib {
			return append(out, &variadic{rest, vt})
		}
		q := &Seq{}
		for _, v := range rest {
			q.parts = append(q.parts, item(TTrue, u.convertTo(*st, v, vt.Elem())))
		}
		return append(out, u.newSlice(*st, vt, q))
	}
	for i := range vs {
		if i < n {
			if lib && types.IsInterface(sig.Params().At(i).Type()) {
				continue
			}
			vs[i] = u.convertTo(*st, vs[i], sig.Params().At(i).Type())
		}
	}
	return vs
}

func (u *Unit) evalCall(fr *Frame, st **State, call *ast.CallExpr) Value {
	info := u.v.p.info
	tv := info.Types[call.Fun]
	if tv.IsType() {
		v := u.eval(fr, st, call.Args[0])
		if *st == nil {
			return TFalse
		}
		return u.conversion(*st, v, info.TypeOf(call.Args[0]), tv.Type, call)
	}
	if tv.IsBuiltin() {
		return u.builtin(fr, st, call)
	}
	f := u.prepareCall(fr, st, call)
	if *st == nil {
		return TFalse
	}
	return f(st)
}

// prepareCall evaluates the function value and the arguments of a call; the
// result makes the call.
func (u *Unit) prepareCall(fr *Frame, st **State, call *ast.CallExpr) func(**State) Value {
	info := u.v.p.info
	// static callee
	fun := ast.Unparen(call.Fun)
	var fn *types.Func
	var recv Value
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				fn = sel.Obj().(*types.Func)
				recv = u.receiver(fr, st, f, sel)
				if *st == nil {
					return nil
				}
				if types.IsInterface(sel.Recv()) || isEmbeddedIface(sel) {
					args := u.evalArgs(fr, st, call, fn.Type().(*types.Signature), false)
					return func(p **State) Value { return u.callInterface(fr, p, fn, recv, args, call) }
				}
			}
		} else {
			fn, _ = info.Uses[f.Sel].(*types.Func)
		}
	}
	if fn != nil {
		sig := fn.Type().(*types.Signature)
		_, own := u.v.p.funcs[fn]
		args := u.evalArgs(fr, st, call, sig, !own)
		if *st == nil {
			return nil
		}
		return func(p **State) Value { return u.callFunc(fr, p, fn, recv, args, call) }
	}
	v := u.eval(fr, st, call.Fun)
	if *st == nil {
		return nil
	}
	f, ok := v.(*FuncV)
	if !ok {
		fail("call of %T", v)
	}
	sig := info.TypeOf(call.Fun).Underlying().(*types.Signature)
	args := u.evalArgs(fr, st, call, sig, false)
	if *st == nil {
		return nil
	}
	return func(p **State) Value { return u.callFuncV(fr, p, f, args, call) }
}

func isEmbeddedIface(sel *types.Selection) bool {
	fn := sel.Obj().(*types.Func)
	r := fn.Type().(*types.Signature).Recv()
	return r != nil && types.IsInterface(r.Type())
}

func (u *Unit) callFuncV(fr *Frame, st **State, f *FuncV, args []Value, call ast.Node) Value {
	if len(f.alts) > 0 {
		a := f.alts[0]
		ns, v := u.branch(*st, a.g, func(s *State) Value {
			return u.sub(s, func(p **State) Value { return u.callFuncV(fr, p, a.f, args, call) })
		}, func(s *State) Value {
			return u.sub(s, func(p **State) Value { return u.callFuncV(fr, p, f.alts[1].f, args, call) })
		})
		*st = ns
		return v
	}
	if f.isnil != nil && !f.isnil.isFalse() {
		u.require(*st, "nil", "function value is not nil", call, Not(f.isnil))
	}
	if f.fn != nil {
		recv := f.recv
		if f.mexpr {
			if len(args) == 0 {
				fail("method expression without a receiver")
			}
			recv, args = args[0], args[1:]
			if f.deref {
				p, ok := recv.(*PtrV)
				if !ok {
					fail("method expression on %T", recv)
				}
				recv = u.load(*st, p, call)
				if *st == nil {
					return TFalse
				}
			}
		}
		if f.iface {
			ce, ok := call.(*ast.CallExpr)
			if !ok {
				fail("interface method as a function value")
			}
			return u.callInterface(fr, st, f.fn, recv, args, ce)
		}
		return u.callFunc(fr, st, f.fn, recv, args, call)
	}
	if f.lit == nil {
		fail("call of an unknown function value")
	}
	sig := u.v.p.info.TypeOf(f.lit).(*types.Signature)
	nf := &Frame{vars: map[types.Object]*Obj{}, sig: sig, parent: f.fr}
	return u.runBody(nf, st, sig, f.lit.Type, f.lit.Body, nil, nil, args)
}

// sub runs f on s in place; a nil state afterwards marks s dead.
func (u *Unit) sub(s *State, f func(**State) Value) Value {
	p := s
	v := f(&p)
	if p == nil {
		s.heap = nil
		return TFalse
	}
	if p != s {
		*s = *p
	}
	return v
}

func (u *Unit) callInterface(fr *Frame, st **State, m *types.Func, recv Value, args []Value, call *ast.CallExpr) Value {
	iv, ok := recv.(*IfaceV)
	if !ok {
		if o, ok := recv.(*OpaqueV); ok {
			u.require(*st, "nil", "interface value is not nil", call, Not(o.isnil))
			if m.Name() == "Error" {
				return UF("errstr", SStr, o.id)
			}
			r, handled := u.libCall(fr, st, m, recv, args, call)
			if handled {
				return r
			}
		}
		fail("call of method %s on an unknown dynamic type", m.Name())
	}
	var os []outcome
	void := false
	for _, a := range iv.alts {
		x := (*st).clone()
		x.assume(a.g)
		if x.dead() {
			continue
		}
		if v, k := x.env.decide(a.g); k && !v {
			continue
		}
		if a.typ == nil {
			u.require(x, "nil", "interface value is not nil", call, TFalse)
			continue
		}
		fn, rv := u.dynMethod(x, a, m.Name(), call)
		p := x
		v := u.callFunc(fr, &p, fn, rv, args, call)
		if p == nil {
			continue
		}
		if v == nil {
			void = true
			os = append(os, outcome{st: p})
		} else {
			os = append(os, outcome{p, []Value{v}})
		}
	}
	mo := u.merge(os)
	if mo == nil {
		*st = nil
		return TFalse
	}
	*st = mo.st
	if void || len(mo.vals) == 0 {
		return nil
	}
	return mo.vals[0]
}

// dynMethod finds the method that a call on a dynamic type runs, and its
// receiver, through embedded fields.
func (u *Unit) dynMethod(st *State, a IfaceAlt, name string, at ast.Node) (*types.Func, Value) {
	obj, index, _ := types.LookupFieldOrMethod(a.typ, true, u.v.p.pkg, name)
	fn, ok := obj.(*types.Func)
	if !ok {
		fail("method %s of %s", name, a.typ)
	}
	recv := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := recv.(*types.Pointer)
	t, v := a.typ, a.v
	for _, i := range index[:len(index)-1] {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			p, ok := v.(*PtrV)
			if !ok {
				fail("method %s of %s", name, a.typ)
			}
			if sp, ok := pt.Elem().Underlying().(*types.Struct); ok {
				if _, ip := sp.Field(i).Type().Underlying().(*types.Pointer); !ip && wantPtr {
					t, v = types.NewPointer(sp.Field(i).Type()), p.extend(PElem{field: i})
					continue
				}
			}
			t, v = pt.Elem(), u.load(st, p, at)
		}
		s, ok := v.(*StructV)
		ts, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			fail("method %s of %s", name, a.typ)
		}
		t, v = ts.Field(i).Type(), s.f[i]
	}
	if types.IsInterface(t) {
		fail("method %s of an embedded interface", name)
	}
	_, havePtr := t.Underlying().(*types.Pointer)
	switch {
	case havePtr && !wantPtr:
		p, ok := v.(*PtrV)
		if !ok {
			fail("method %s of %s", name, a.typ)
		}
		v = u.load(st, p, at)
	case !havePtr && wantPtr:
		fail("method %s of %s", name, a.typ)
	}
	return fn, v
}

func (u *Unit) callFunc(fr *Frame, st **State, fn *types.Func, recv Value, args []Value, call ast.Node) Value {
	decl, own := u.v.p.funcs[fn]
	if !own {
		ce, _ := call.(*ast.CallExpr)
		if v, ok := u.libCall(fr, st, fn, recv, args, ce); ok {
			return v
		}
		fail("call of %s, which has no model", fn.FullName())
	}
	if c := u.v.byFn[fn]; c != nil && u.ctr != nil && u.spec == 0 {
		if u.ctr.logFn == c.key && u.inlining == 0 {
			if len(args) != 2 || recv != nil {
				fail("log of %s", c.key)
			}
			return u.logCall(st, c, args, call)
		}
		if u.ctr.pure[c.key] {
			return u.pureCall(*st, c, args, call)
		}
	}
	if c := u.v.contractFor(fn); c != nil && !c.checkOnly && u.spec == 0 && u.inlining == 0 && !(u.ctr != nil && u.ctr.inlineAt[c.key]) {
		return u.applyContract(fr, st, c, fn, recv, args, call)
	}
	if u.depth > 24 {
		fail("recursion through %s", fn.Name())
	}
	u.inlined[funcKey(fn)] = true
	sig := fn.Type().(*types.Signature)
	nf := &Frame{vars: map[types.Object]*Obj{}, sig: sig, fn: fn}
	return u.runBody(nf, st, sig, decl.Type, decl.Body, decl.Recv, recv, args)
}

// runBody executes a function body with its arguments bound and joins its returns.
func (u *Unit) runBody(nf *Frame, st **State, sig *types.Signature, ft *ast.FuncType, body *ast.BlockStmt, rl *ast.FieldList, recv Value, args []Value) Value {
	info := u.v.p.info
	u.depth++
	defer func() { u.depth-- }()
	if rl != nil && len(rl.List) > 0 && len(rl.List[0].Names) > 0 {
		u.bind(nf, *st, rl.List[0].Names[0], recv)
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			u.bind(nf, *st, n, args[i])
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				if n.Name == "_" {
					o := u.newObj("_", info.TypeOf(f.Type))
					(*st).heap[o] = u.zero(info.TypeOf(f.Type))
					nf.results = append(nf.results, o)
					continue
				}
				obj := info.Defs[n]
				o := u.newObj(n.Name, obj.Type())
				nf.vars[obj] = o
				(*st).heap[o] = u.zero(obj.Type())
				nf.results = append(nf.results, o)
			}
		}
	}
	npc := len((*st).pc)
	env := (*st).env
	end, exits := u.exec(nf, *st, body)
	var os []outcome
	for _, e := range exits {
		if e.kind != 1 {
			fail("stray branch statement")
		}
		if x, vals := u.runDefers(nf, e.st, e.vals); x != nil {
			os = append(os, outcome{x, vals})
		}
	}
	if end != nil && !end.dead() {
		if sig.Results().Len() == 0 {
			if x, _ := u.runDefers(nf, end, nil); x != nil {
				os = append(os, outcome{st: x})
			}
		} else if len(nf.results) > 0 && false {
		} else {
			// unreachable by Go's terminating-statement rule
			os = append(os, outcome{})
		}
	}
	m := u.merge(os)
	if m == nil {
		*st = nil
		return TFalse
	}
	_ = npc
	_ = env
	*st = m.st
	switch len(m.vals) {
	case 0:
		return nil
	case 1:
		return m.vals[0]
	}
	return &TupleV{m.vals}
}

// runDefers makes the calls that were deferred on the way to a return, last
// one first; they may change the named results.
func (u *Unit) runDefers(nf *Frame, st *State, vals []Value) (*State, []Value) {
	n := len(st.defers)
	for len(st.defers) > 0 && st.defers[len(st.defers)-1].fr == nf {
		d := st.defers[len(st.defers)-1]
		st.defers = st.defers[:len(st.defers)-1]
		d.call(&st)
		if st == nil || st.dead() {
			return nil, nil
		}
	}
	if n > len(st.defers) && len(nf.results) > 0 {
		vals = append([]Value(nil), vals...)
		for k, o := range nf.results {
			vals[k] = u.get(st, o)
		}
	}
	return st, vals
}

func (u *Unit) bind(nf *Frame, st *State, id *ast.Ident, v Value) {
	if id.Name == "_" {
		return
	}
	obj := u.v.p.info.Defs[id]
	o := u.newObj(id.Name, obj.Type())
	nf.vars[obj] = o
	st.heap[o] = v
}

func (u *Unit) conversion(st *State, v Value, from, to types.Type, at ast.Node) Value {
	t, ok := v.(*Term)
	if !ok {
		if sv, ok := v.(*SliceV); ok && isString(to) {
			return u.bytesToString(st, sv)
		}
		return u.convertTo(st, v, to)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		fail("float32 conversion")
	}
	switch {
	case isFloat(to) && t.sort == SInt:
		return u.fl.round(st, ToReal(t), at)
	case isFloat(to) && t.sort == SReal:
		if t.isNum() {
			return Num(roundRat(t.rat), SReal)
		}
		return t
	case isInt(to) && t.sort == SReal:
		r := u.fl.toInt(st, t)
		u.checkRange(st, r, to, at)
		return r
	case isInt(to) && t.sort == SInt:
		u.checkRange(st, t, to, at)
		return t
	case isString(to) && t.sort == SStr:
		return t
	case isString(to) && t.sort == SInt:
		return UF("runestr", SStr, t)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && t.sort == SStr {
		return &SliceV{typ: to, isnil: TFalse, inline: true, inl: strSeq(t, sl)}
	}
	return u.convertTo(st, v, to)
}

func strSeq(t *Term, sl *types.Slice) *Seq {
	return &Seq{[]Part{{n: strlen(t), b: func(i *Term) []Part { return []Part{item(TTrue, UF("strbyte", SInt, t, i))} }}}}
}

func (u *Unit) bytesToString(st *State, sv *SliceV) Value {
	q := u.seqOf(st, sv)
	if len(q.parts) == 0 {
		return StrC("")
	}
	if len(q.parts) == 1 && q.parts[0].isGen() && q.parts[0].n.op == OIte {
		n := q.parts[0].n
		half := func(n *Term) *Term {
			return u.bytesToString(st, &SliceV{inline: true, inl: &Seq{[]Part{{n: n, b: q.parts[0].b}}}}).(*Term)
		}
		return Ite(n.args[0], half(n.args[1]), half(n.args[2]))
	}
	if len(q.parts) == 1 && q.parts[0].n == IntC(0) {
		return StrC("")
	}
	if len(q.parts) == 1 && q.parts[0].isGen() {
		i := Var("?b2s", SInt)
		if f, ok := q.parts[0].simple(); ok {
			if t, ok := f(i).(*Term); ok && t.op == OUF {
				if t.name == "strbyte" && q.parts[0].n == strlen(t.args[0]) {
					return t.args[0]
				}
				return UF("bytes->string:"+t.name, SStr, append(append([]*Term(nil), t.args[:len(t.args)-1]...), q.parts[0].n)...)
			}
		}
	}
	if len(q.parts) > 1 {
		r := []*Term{}
		for _, p := range q.parts {
			r = append(r, u.bytesToString(st, &SliceV{inline: true, inl: &Seq{[]Part{p}}}).(*Term))
		}
		return concatIte(r)
	}
	fail("string conversion")
	return nil
}

// concatIte joins strings that depend on conditions, case by case.
func concatIte(ts []*Term) *Term {
	for i, t := range ts {
		if t.op == OIte {
			pick := func(x *Term) *Term {
				return concatIte(append(append(append([]*Term{}, ts[:i]...), x), ts[i+1:]...))
			}
			return Ite(t.args[0], pick(t.args[1]), pick(t.args[2]))
		}
	}
	return concat(ts...)
}

func (u *Unit) builtin(fr *Frame, st **State, call *ast.CallExpr) Value {
	info := u.v.p.info
	var name string
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
	}
	switch name {
	case "len", "cap":
		v := u.eval(fr, st, call.Args[0])
		if *st == nil {
			return TFalse
		}
		switch x := v.(type) {
		case *SliceV:
			n := u.seqOf(*st, x).length()
			if name == "cap" {
				c := u.fresh("cap", SInt)
				u.fact(Ge(c, n))
				return c
			}
			return n
		case *Term:
			if x.sort == SStr {
				return strlen(x)
			}
		case *Seq:
			return x.length()
		case *MapV:
			if x.keys != nil {
				return IntC(int64(len(x.keys)))
			}
		}
		fail("len of %T", v)
	case "append":
		v := u.eval(fr, st, call.Args[0])
		if *st == nil {
			return TFalse
		}
		t := info.TypeOf(call)
		var base *SliceV
		switch x := v.(type) {
		case *SliceV:
			base = x
		case *OpaqueV:
			base = u.zero(t).(*SliceV)
		default:
			fail("append to %T", v)
		}
		q := &Seq{append([]Part(nil), u.seqOf(*st, base).parts...)}
		if base.obj != nil && base.obj.shared && base.obj.name == "reslice" {
			fail("append to a re-sliced slice overwrites its backing array")
		}
		isnil := TFalse
		if call.Ellipsis.IsValid() {
			w := u.eval(fr, st, call.Args[1])
			if *st == nil {
				return TFalse
			}
			sv, ok := w.(*SliceV)
			if !ok {
				fail("append of %T...", w)
			}
			if logsInUse && logged(u.seqOf(*st, sv).parts) {
				fail("append of a logged list")
			}
			q.parts = append(q.parts, u.seqOf(*st, sv).parts...)
			isnil = And(base.isnil, Eq(u.seqOf(*st, sv).length(), IntC(0)))
		} else {
			et := t.Underlying().(*types.Slice).Elem()
			for _, a := range call.Args[1:] {
				w := u.eval(fr, st, a)
				if *st == nil {
					return TFalse
				}
				q.parts = append(q.parts, item(TTrue, u.nestSlices(*st, u.convertTo(*st, w, et))))
			}
		}
		o := u.newObj("append", t)
		o.shared = base.obj != nil && (base.obj.param || base.obj.shared)
		if base.obj != nil {
			o.prefix = u.seqOf(*st, base).length()
			o.bases = []*Obj{base.obj}
			u.grown(*st, base.obj, nil)
		}
		(*st).heap[o] = q
		return &SliceV{typ: t, isnil: isnil, obj: o}
	case "make":
		t := info.TypeOf(call)
		switch ut := t.Underlying().(type) {
		case *types.Slice:
			n := u.evalTerm(fr, st, call.Args[1])
			u.require(*st, "bounds", "make length is not negative", call, Ge(n, IntC(0)))
			q := &Seq{}
			if k, ok := n.intVal(); ok && k <= 64 {
				for i := int64(0); i < k; i++ {
					q.parts = append(q.parts, item(TTrue, u.zero(ut.Elem())))
				}
			} else {
				q.parts = []Part{{n: n, b: func(*Term) []Part { return []Part{item(TTrue, u.zero(ut.Elem()))} }}}
			}
			return u.newSlice(*st, t, q)
		case *types.Map:
			return u.zero(t)
		}
		fail("make")
	case "new":
		t := info.TypeOf(call).Underlying().(*types.Pointer).Elem()
		o := u.newObj("new", t)
		(*st).heap[o] = u.zero(t)
		return single(&Place{obj: o})
	case "panic":
		if call != nil {
			u.eval(fr, st, call.Args[0])
		}
		if *st != nil {
			u.onPanic(*st, call)
		}
		*st = nil
		return TFalse
	case "min", "max":
		a := u.evalTerm(fr, st, call.Args[0])
		for _, e := range call.Args[1:] {
			b := u.evalTerm(fr, st, e)
			if name == "min" {
				a = Ite(Le(a, b), a, b)
			} else {
				a = Ite(Ge(a, b), a, b)
			}
		}
		return a
	}
	fail("builtin %s", name)
	return nil
}

func (u *Unit) onPanic(st *State, at ast.Node) {
	g := TFalse
	if u.ctr != nil && u.ctr.panics != nil {
		g = u.panicCond
	}
	if g == nil {
		g = TFalse
	}
	u.require(st, "panic", "this panic cannot happen", at, g)
}

var _ = token.ADD
var _ = big.NewRat
