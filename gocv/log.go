package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// A list under `log F` (a contract of the function that builds it) is not
// represented by its elements but by the calls of F that made it: starting
// from the empty list, every call appends its second argument to the log. What
// the list then holds follows from F's own contract by induction over the log.
// Nothing but F and a sort by `sortkey` may touch such a list: its length, its
// elements and its slices are refused.

// LogV is one entry of a log, or (sorted) the list the whole log stands for,
// put in order.
type LogV struct {
	v      Value
	sorted *Seq
}

var logsInUse bool

// logged reports whether a sequence is (or holds) a log.
func logged(ps []Part) bool {
	for _, p := range ps {
		if p.isGen() {
			if logged(p.b(Var("?log", SInt))) {
				return true
			}
		} else if _, ok := p.v.(*LogV); ok {
			return true
		}
	}
	return false
}

// logCall models x = F(x, event) as an addition to the log of x.
func (u *Unit) logCall(st **State, c *Contract, args []Value, call ast.Node) Value {
	u.called[c.key] = true
	sv, ok := args[0].(*SliceV)
	if !ok {
		fail("log of %T", args[0])
	}
	first := c.names[0]
	ens := map[string]bool{}
	for _, cl := range c.ensures {
		ens[strings.Join(strings.Fields(exprStr(cl.e)), "")] = true
	}
	vars := c.bindArgs(nil, args)
	empty := listV(&Seq{}, sv.typ)
	for _, r := range c.requires {
		if !mentionsIdent(r.e, map[string]bool{first: true}) {
			u.require(*st, "pre", "precondition of "+c.key+": "+r.src, call, (&SEnv{u, *st, *st, vars}).bool(r.e))
			continue
		}
		// kept by every call, and true of the empty list
		kept := strings.Join(strings.Fields(exprStr(renameIdent(r.e, first, "result"))), "")
		base := (&SEnv{u, *st, *st, map[string]Value{first: empty}}).bool(r.e)
		u.require(*st, "pre", "precondition of "+c.key+" is kept along its log: "+r.src, call, And(BoolC(ens[kept]), base))
	}
	q := u.seqOf(*st, sv)
	o := u.newObj("log", sv.typ)
	if base, ok := args[0].(*SliceV); ok && base.obj != nil {
		o.bases = []*Obj{base.obj}
		u.grown(*st, base.obj, nil)
	}
	(*st).heap[o] = &Seq{append(append([]Part(nil), q.parts...), item(TTrue, &LogV{v: u.nestSlices(*st, args[1])}))}
	u.stale[sv.obj] = true
	return &SliceV{typ: sv.typ, isnil: TFalse, obj: o}
}

func renameIdent(x ast.Expr, from, to string) ast.Expr {
	return parseSpecExpr(strings.ReplaceAll(" "+exprStr(x)+" ", "("+from, "("+to), "rename")
}

// sortLog models a sort of a logged list by the contract's sort key.
func (u *Unit) sortLog(st *State, sv *SliceV) {
	if sv.obj == nil {
		fail("sort of an inline list")
	}
	q := u.seqOf(st, sv)
	u.written(st, sv.obj)
	st.heap[sv.obj] = &Seq{[]Part{item(TTrue, &LogV{sorted: q})}}
}

// libSort models sort.Sort and its kin for logged lists.
func (u *Unit) libSort(fr *Frame, st **State, name string, args []Value, call *ast.CallExpr) bool {
	if u.ctr == nil || u.ctr.sortKey == nil {
		return false
	}
	sv, ok := args[0].(*SliceV)
	if !ok {
		return false
	}
	sl := sv.typ.Underlying().(*types.Slice)
	// an arbitrary list of the type and two of its positions
	s := (*st).clone()
	o := u.newObj("sorted", sv.typ)
	n := u.fresh("sortlen", SInt)
	i, j := u.fresh("i", SInt), u.fresh("j", SInt)
	base := "sortelem"
	u.nfresh[base]++
	q := &Seq{[]Part{{n: n, b: func(k *Term) []Part {
		return []Part{item(TTrue, u.symbolic(s, base, sl.Elem(), k))}
	}}}}
	s.heap[o] = q
	for _, t := range []*Term{Le(IntC(0), i), Lt(i, n), Le(IntC(0), j), Lt(j, n), Lt(n, IntC(1<<40))} {
		s.assume(t)
	}
	sym := &SliceV{typ: sv.typ, isnil: TFalse, obj: o}
	key := func(k *Term) *Term {
		e := &SEnv{u, s, s, map[string]Value{u.ctr.sortVar: q.at(k)}}
		return e.term(u.ctr.sortKey)
	}
	want := Lt(key(i), key(j))
	var less Value
	switch name {
	case "sort.Sort", "sort.Stable":
		m := func(n string) *types.Func {
			obj, _, _ := types.LookupFieldOrMethod(call0Type(u, call), true, u.v.p.pkg, n)
			f, _ := obj.(*types.Func)
			if f == nil || u.v.p.funcs[f] == nil {
				fail("method %s of a sorted type", n)
			}
			return f
		}
		t := s.clone()
		l := u.callFunc(fr, &t, m("Len"), sym, nil, call)
		if t == nil {
			fail("Len does not return")
		}
		u.require(*st, "sort", "Len is the length", call, u.seqAwareEqual(t, l, n))
		t = s.clone()
		less = u.callFunc(fr, &t, m("Less"), sym, []Value{i, j}, call)
		if t == nil {
			fail("Less does not return")
		}
		// Swap exchanges the two
		t = s.clone()
		u.callFunc(fr, &t, m("Swap"), sym, []Value{i, j}, call)
		if t == nil {
			fail("Swap does not return")
		}
		k := BoundVar("k", SInt)
		now := u.seqOf(t, sym)
		src := Ite(Eq(k, i), j, Ite(Eq(k, j), i, k))
		u.require(s, "sort", "Swap exchanges two elements", call, And(Eq(now.length(), n), Quant(OForall, []*Term{k}, Implies(And(Le(IntC(0), k), Lt(k, n)), u.seqAwareEqual(t, now.at(k), q.at(src))))))
	case "sort.Slice", "sort.SliceStable":
		f, ok := args[1].(*FuncV)
		if !ok {
			fail("comparison function of %s", name)
		}
		t := s.clone()
		t.heap[sv.obj] = q
		less = u.callFuncV(fr, &t, f, []Value{i, j}, call)
		if t == nil {
			fail("the comparison does not return")
		}
	default:
		return false
	}
	u.require(s, "sort", "sorted by "+exprStr(u.ctr.sortKey), call, Eq(less.(*Term), want))
	u.sortLog(*st, sv)
	return true
}

func call0Type(u *Unit, call *ast.CallExpr) types.Type { return u.v.p.info.TypeOf(call.Args[0]) }

// logOf gives the log of a list made by calls of the logged function alone.
func (u *Unit) logOf(st *State, v Value, sorted bool) *Seq {
	sv, ok := v.(*SliceV)
	if !ok {
		specErr("log of %T", v)
	}
	if sv.obj != nil && u.stale[sv.obj] {
		fail("a list that was added to since is used")
	}
	ps := u.seqOf(st, sv).parts
	if sorted && len(ps) > 0 {
		if len(ps) != 1 || ps[0].isGen() || !ps[0].g.isTrue() {
			fail("the list is not sorted as a whole")
		}
		l, ok := ps[0].v.(*LogV)
		if !ok || l.sorted == nil {
			fail("the list is not sorted")
		}
		ps = l.sorted.parts
	}
	return &Seq{u.unlog(ps)}
}

func (u *Unit) unlog(ps []Part) []Part {
	r := make([]Part, len(ps))
	for k, p := range ps {
		if p.isGen() {
			b := p.b
			u.unlog(b(Var("?log", SInt)))
			r[k] = Part{n: p.n, b: func(i *Term) []Part { return u.unlog(b(i)) }}
			continue
		}
		l, ok := p.v.(*LogV)
		if !ok || l.sorted != nil {
			fail("a list changed otherwise than by %s", u.ctr.logFn)
		}
		v := l.v
		if iv, ok := v.(*IfaceV); ok && len(iv.alts) == 1 && iv.alts[0].g.isTrue() && iv.alts[0].typ != nil {
			v = iv.alts[0].v
		}
		r[k] = item(p.g, v)
	}
	return r
}

// pureCall models a call of a function listed under `opaque`: an arbitrary
// function of its arguments, of which only its precondition (proved here) and
// that its events are in UTC (its own contract) are used.
func (u *Unit) pureCall(st *State, c *Contract, args []Value, call ast.Node) Value {
	vars := c.bindArgs(nil, args)
	for _, r := range c.requires {
		u.require(st, "pre", "precondition of "+c.key+": "+r.src, call, (&SEnv{u, st, st, vars}).bool(r.e))
	}
	return u.pureResult(st, c, args)
}

func (u *Unit) pureResult(st *State, c *Contract, args []Value) Value {
	if len(c.modifies) > 0 {
		fail("%s changes things", c.key)
	}
	var ts []*Term
	for _, a := range args {
		switch x := a.(type) {
		case *Term:
			ts = append(ts, x)
		case TimeV:
			ts = append(ts, x.ns, x.loc)
		default:
			fail("argument of %s", c.key)
		}
	}
	name := "result of " + c.key
	for _, cl := range c.ensures {
		if exprStr(cl.e) == "elemutc(result)" {
			u.utcNames[name] = true
		}
	}
	sig := c.fn.Type().(*types.Signature)
	if sig.Results().Len() != 1 {
		fail("results of %s", c.key)
	}
	return u.symbolic(st, name, sig.Results().At(0).Type(), ts...)
}

var _ = token.ADD
