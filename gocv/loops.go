package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"time"
)

// A loop in a uniform shape. step runs one iteration from a state in which the
// loop condition has been evaluated and holds.
type loop struct {
	u     *Unit
	fr    *Frame
	label string
	at    ast.Node
	cond  func(st **State) *Term
	body  func(st *State) (*State, []Exit) // body and post statement; breaks are kept
}

var debugLists = os.Getenv("GOCV_DEBUG") != ""

const maxUnroll = 64

func (u *Unit) execFor(fr *Frame, st *State, s *ast.ForStmt, label string) (*State, []Exit) {
	var exits []Exit
	if s.Init != nil {
		st, exits = u.exec(fr, st, s.Init)
		if st == nil {
			return nil, exits
		}
	}
	// loop variables declared by Init are per iteration; they are shared here,
	// which differs only for closures that outlive an iteration
	l := &loop{u: u, fr: fr, label: label, at: s}
	l.cond = func(st **State) *Term {
		if s.Cond == nil {
			return TTrue
		}
		return u.evalBool(fr, st, s.Cond)
	}
	l.body = func(st *State) (*State, []Exit) {
		n, ex := u.exec(fr, st, s.Body)
		var out []Exit
		os := []outcome{}
		if n != nil {
			os = append(os, outcome{st: n})
		}
		for _, e := range ex {
			if e.kind == 3 && (e.label == "" || e.label == label) {
				os = append(os, outcome{st: e.st})
			} else {
				out = append(out, e)
			}
		}
		m := u.merge(os)
		if m == nil {
			return nil, out
		}
		n = m.st
		if s.Post != nil {
			n, ex = u.exec(fr, n, s.Post)
			out = append(out, ex...)
		}
		return n, out
	}
	n, ex := l.run(st)
	return n, append(exits, ex...)
}

// execRange turns a range loop into an index loop over a fixed sequence.
func (u *Unit) execRange(fr *Frame, st *State, s *ast.RangeStmt, label string) (*State, []Exit) {
	info := u.v.p.info
	xt := info.TypeOf(s.X).Underlying()
	var n *Term
	var elem func(st *State, i *Term) Value
	switch xt.(type) {
	case *types.Slice:
		v := u.eval(fr, &st, s.X)
		if st == nil {
			return nil, nil
		}
		sv, ok := v.(*SliceV)
		if !ok {
			fail("range over %T", v)
		}
		q := u.seqOf(st, sv)
		if id, ok := s.Key.(*ast.Ident); (s.Key == nil || ok && id.Name == "_") && !addressable(q) {
			return u.execRangeParts(fr, st, s, label, sv, q)
		}
		n = q.length()
		elem = func(st *State, i *Term) Value {
			if sv.inline {
				return aliased(sv.inl.at(i))
			}
			return aliased(u.seqOf(st, sv).at(i))
		}
	case *types.Array:
		v := u.eval(fr, &st, s.X)
		if st == nil {
			return nil, nil
		}
		q, ok := v.(*Seq)
		if !ok {
			fail("range over %T", v)
		}
		n = q.length()
		elem = func(st *State, i *Term) Value { return aliased(q.at(i)) }
	case *types.Basic:
		if !isInt(info.TypeOf(s.X)) {
			fail("range over a string")
		}
		n = u.evalTerm(fr, &st, s.X)
		if st == nil {
			return nil, nil
		}
	default:
		fail("range over %s", xt)
	}
	idx := u.newObj("range", types.Typ[types.Int])
	st.heap[idx] = IntC(0)
	l := &loop{u: u, fr: fr, label: label, at: s}
	l.cond = func(st **State) *Term { return Lt(u.get(*st, idx).(*Term), n) }
	l.body = func(st *State) (*State, []Exit) {
		i := u.get(st, idx).(*Term)
		set := func(e ast.Expr, v Value) {
			if e == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return
				}
				if s.Tok == token.DEFINE {
					u.declare(fr, st, id, v)
					return
				}
			}
			u.store(st, u.addr(fr, &st, e), v, e)
		}
		if s.Key != nil {
			set(s.Key, i)
		}
		if s.Value != nil {
			v := elem(st, i)
			if p, ok := v.(*Poison); ok {
				fail("range element: %s", p.why)
			}
			set(s.Value, v)
		}
		n, ex := u.exec(fr, st, s.Body)
		var out []Exit
		os := []outcome{}
		if n != nil {
			os = append(os, outcome{st: n})
		}
		for _, e := range ex {
			if e.kind == 3 && (e.label == "" || e.label == label) {
				os = append(os, outcome{st: e.st})
			} else {
				out = append(out, e)
			}
		}
		m := u.merge(os)
		if m == nil {
			return nil, out
		}
		n = m.st
		n.heap[idx] = Add(i, IntC(1))
		return n, out
	}
	return l.run(st)
}

func addressable(q *Seq) bool {
	for i := range q.parts {
		if p := &q.parts[i]; p.isGen() {
			if _, ok := p.simple(); !ok {
				return false
			}
		}
	}
	return true
}

// execRangeParts runs a range loop over a list with filtered parts as one loop
// per part: the elements come in the same order.
func (u *Unit) execRangeParts(fr *Frame, st *State, s *ast.RangeStmt, label string, sv *SliceV, q *Seq) (*State, []Exit) {
	if logsInUse && logged(q.parts) {
		fail("range over a list known only by the calls that made it")
	}
	each := func(st *State, v Value) (*State, []Exit) {
		if s.Value != nil {
			if p, ok := v.(*Poison); ok {
				fail("range element: %s", p.why)
			}
			if id, ok := s.Value.(*ast.Ident); ok && s.Tok == token.DEFINE {
				if id.Name != "_" {
					u.declare(fr, st, id, v)
				}
			} else {
				u.store(st, u.addr(fr, &st, s.Value), v, s.Value)
			}
		}
		n, ex := u.exec(fr, st, s.Body)
		var out []Exit
		var os []outcome
		if n != nil {
			os = append(os, outcome{st: n})
		}
		for _, e := range ex {
			switch {
			case e.kind == 3 && (e.label == "" || e.label == label):
				os = append(os, outcome{st: e.st})
			case e.kind == 2 && (e.label == "" || e.label == label):
				fail("break out of a range over a filtered list")
			default:
				out = append(out, e)
			}
		}
		m := u.merge(os)
		if m == nil {
			return nil, out
		}
		if u.seqOf(m.st, sv) != q {
			fail("a range loop changes the filtered list it runs over")
		}
		return m.st, out
	}
	var parts func(st *State, ps []Part) (*State, []Exit)
	parts = func(st *State, ps []Part) (*State, []Exit) {
		var exits []Exit
		for _, p := range ps {
			p := p
			if st == nil {
				break
			}
			if p.isGen() {
				idx := u.newObj("range", types.Typ[types.Int])
				st.heap[idx] = IntC(0)
				l := &loop{u: u, fr: fr, label: label, at: s}
				l.cond = func(st **State) *Term { return Lt(u.get(*st, idx).(*Term), p.n) }
				l.body = func(st *State) (*State, []Exit) {
					i := u.get(st, idx).(*Term)
					n, ex := parts(st, p.b(i))
					if n != nil {
						n.heap[idx] = Add(i, IntC(1))
					}
					return n, ex
				}
				n, ex := l.run(st)
				st, exits = n, append(exits, ex...)
				continue
			}
			if v, k := st.env.decide(p.g); k && !v || p.g.isFalse() {
				continue
			}
			a, b := st.clone(), st.clone()
			a.assume(p.g)
			b.assume(Not(p.g))
			var os []outcome
			n, ex := each(a, p.v)
			exits = append(exits, ex...)
			if n != nil {
				os = append(os, outcome{st: n})
			}
			if !p.g.isTrue() && !b.dead() {
				os = append(os, outcome{st: b})
			}
			if m := u.merge(os); m != nil {
				st = m.st
			} else {
				st = nil
			}
		}
		return st, exits
	}
	return parts(st, q.parts)
}

func (l *loop) run(st *State) (*State, []Exit) {
	u := l.u
	if n, ex, ok := l.unroll(st.clone(), false); ok {
		return n, ex
	}
	if u.ctr != nil && u.ctr.unroll > 0 {
		if n, ex, ok := l.unroll(st.clone(), true); ok {
			return n, ex
		}
	}
	return l.invariant(st)
}

// split sorts the exits of an iteration into those that stay pending and breaks of this loop.
func (l *loop) split(ex []Exit) (brk []outcome, rest []Exit) {
	for _, e := range ex {
		if e.kind == 2 && (e.label == "" || e.label == l.label) {
			brk = append(brk, outcome{st: e.st})
		} else {
			rest = append(rest, e)
		}
	}
	return
}

// unroll runs the loop to completion, giving up (ok=false) when that is not
// possible within the limit. A completed unrolling is exact, not a bound.
func (l *loop) unroll(st *State, solver bool) (*State, []Exit, bool) {
	u := l.u
	no, nf := len(u.obls), len(u.facts)
	kinds := map[string]int{}
	for k, v := range u.kinds {
		kinds[k] = v
	}
	giveUp := func() (*State, []Exit, bool) {
		u.obls, u.facts, u.kinds = u.obls[:no], u.facts[:nf], kinds
		return nil, nil, false
	}
	var outs []outcome
	var exits []Exit
	undecided := 0
	limit := maxUnroll
	if solver {
		limit = u.ctr.unroll
	}
	work := u.env0.work
	w0 := *work
	defer func() {
		if os.Getenv("GOCV_INV") != "" {
			fmt.Println("  unroll", u.pos(l.at), "work", *work-w0)
		}
	}()
	for k := 0; ; k++ {
		if !solver && *work-w0 > 300000 {
			// every iteration makes the values harder to follow
			return giveUp()
		}
		c := l.cond(&st)
		if st == nil {
			break
		}
		v, known := st.env.decide(c)
		if !known && c.op == OOr || !known && c.op == OAnd {
			known = false
		}
		if known && !v {
			outs = append(outs, outcome{st: st})
			st = nil
			break
		}
		if !known {
			undecided++
			if !solver {
				if undecided > 2 && len(outs)+len(exits) >= undecided || undecided > 3 {
					return giveUp()
				}
			}
			out := st.clone()
			out.assume(Not(c))
			if !solver || u.feasible(out) {
				outs = append(outs, outcome{st: out})
			}
			st = st.clone()
			st.assume(c)
			if solver && !u.feasible(st) {
				st = nil
				break
			}
		}
		if k >= limit {
			return giveUp()
		}
		n, ex := l.body(st)
		brk, rest := l.split(ex)
		outs = append(outs, brk...)
		exits = append(exits, rest...)
		st = n
		if st == nil || st.dead() {
			break
		}
	}
	m := u.merge(outs)
	if m == nil {
		return nil, exits, true
	}
	return m.st, exits, true
}

// feasible asks the solver whether a state can be reached at all.
func (u *Unit) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	return !u.v.proveNow(u, st.pc, TFalse, 5*time.Second)
}

// ---- general loops

type leaf struct {
	obj  *Obj
	path []PElem
	v0   *Term // value at entry
	cur  *Term // value at the start of an arbitrary iteration
	sym  *Term // havoc symbol
	next *Term // value after the iteration
	lin  bool
	name string
}

type accum struct {
	obj  *Obj
	path []PElem
	s0   *SliceV
	q0   *Seq
	mark *Seq
	sym  *SliceV
	add  []Part
}

// diffLeaves lists the scalar leaves at which two values differ.
func (u *Unit) diffLeaves(a, b Value, path []PElem, f func(path []PElem, a, b Value)) {
	if veq(a, b) {
		return
	}
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				u.diffLeaves(x.f[i], y.f[i], append(append([]PElem(nil), path...), PElem{field: i}), f)
			}
			return
		}
	}
	f(path, a, b)
}

// invariant handles a loop by a ghost iteration counter: every modified value
// is either a closed form of the counter or an arbitrary value constrained by
// invariants found and proved inductive.
func (l *loop) invariant(st *State) (*State, []Exit) {
	u := l.u
	u.general++
	defer func() { u.general-- }()
	entry := st
	n := u.fresh("iter", SInt)
	u.fact(Ge(n, IntC(0)))
	u.env0.set(n, Iv{rat0, nil})
	var leaves []*leaf
	var accs []*accum
	var opaque []struct {
		obj  *Obj
		path []PElem
		v    Value
	}
	seen := map[string]bool{}
	key := func(o *Obj, p []PElem) string {
		s := fmt.Sprintf("%p", o)
		for _, e := range p {
			s += fmt.Sprintf(".%d", e.field)
		}
		return s
	}
	// build the state at the start of an arbitrary iteration
	mk := func() *State {
		s := entry.clone()
		s.env = newBEnv(s.env)
		s.env.set(n, Iv{rat0, nil})
		for _, lf := range leaves {
			v := lf.cur
			s.heap[lf.obj] = u.writePath(u.get(s, lf.obj), lf.path, func(Value) Value { return v })
		}
		for _, a := range accs {
			s.heap[a.sym.obj] = a.mark
			s.heap[a.obj] = u.writePath(u.get(s, a.obj), a.path, func(Value) Value { return a.sym })
		}
		for _, o := range opaque {
			s.heap[o.obj] = u.writePath(u.get(s, o.obj), o.path, func(Value) Value { return o.v })
		}
		return s
	}
	var invs []*Term // proved invariants over the leaves' symbols
	type result struct {
		start  *State
		cond   *Term
		next   *State
		outs   []outcome // exits through the condition
		brk    []outcome
		exits  []Exit
		condSt *State
		facts  []*Term // invariants of inner loops
	}
	iterate := func() *result {
		r := &result{}
		s := mk()
		for _, i := range invs {
			s.assume(i)
		}
		r.start = s
		s = s.clone()
		r.cond = l.cond(&s)
		if s == nil {
			return r
		}
		out := s.clone()
		out.assume(Not(r.cond))
		r.outs = []outcome{{st: out}}
		s.assume(r.cond)
		r.condSt = s.clone()
		save := u.ictx
		u.ictx = append(append([]*Term(nil), save...), n)
		nx, ex := l.body(s)
		u.ictx = save
		r.brk, r.exits = l.split(ex)
		r.next = nx
		return r
	}
	trial := func() *result {
		no, nf := len(u.obls), len(u.facts)
		u.quiet++
		r := iterate()
		u.quiet--
		u.obls = u.obls[:no]
		// facts about terms of this trial stay available to its own proofs
		r.facts = append([]*Term(nil), u.facts[nf:]...)
		u.facts = u.facts[:nf]
		return r
	}
	var r *result
	for round := 0; ; round++ {
		if round > 12 {
			fail("loop effects did not stabilise")
		}
		r = trial()
		changed := false
		if r.next != nil {
			var objs []*Obj
			for o := range r.next.heap {
				objs = append(objs, o)
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
			for _, o := range objs {
				var v0 Value
				if v, ok := r.start.heap[o]; ok {
					v0 = v
				} else if v, ok := u.ginits[o]; ok {
					v0 = v
				} else {
					continue // created by the iteration
				}
				u.diffLeaves(v0, r.next.heap[o], nil, func(path []PElem, a, b Value) {
					k := key(o, path)
					add := func(kind string, x *Term, p []PElem) {
						k := k + kind
						if seen[k] {
							return
						}
						seen[k] = true
						changed = true
						lf := &leaf{obj: o, path: p, v0: x, name: o.name + kind}
						lf.sym = u.fresh("loop."+o.name+kind, x.sort)
						lf.cur = lf.sym
						if x.sort == SReal {
							u.fl.isFloat[lf.sym] = true
						}
						leaves = append(leaves, lf)
					}
					switch x := a.(type) {
					case *Term:
						add("", x, path)
						return
					case TimeV:
						if y, ok := b.(TimeV); ok {
							if x.ns != y.ns {
								add(".ns", x.ns, append(append([]PElem(nil), path...), PElem{field: -1}))
							}
							if x.loc != y.loc {
								add(".loc", x.loc, append(append([]PElem(nil), path...), PElem{field: -2}))
							}
							return
						}
					case *SliceV:
						if y, ok := b.(*SliceV); ok && !x.inline || ok && x.inline && len(x.inl.parts) == 0 {
							_ = y
							if !seen[k] {
								seen[k] = true
								changed = true
								ac := &accum{obj: o, path: path, s0: x}
								ac.q0 = u.seqOf(r.start, x)
								mo := u.newObj("acc", x.typ)
								if x.obj != nil {
									mo.bases = []*Obj{x.obj}
								}
								ln := u.fresh("acclen", SInt)
								under := &Poison{"element of a list under construction"}
								ac.mark = &Seq{[]Part{{n: ln, b: func(i *Term) []Part { return []Part{item(TTrue, under)} }}}}
								ac.sym = &SliceV{typ: x.typ, isnil: u.fresh("accnil", SBool), obj: mo}
								u.ginits[mo] = ac.mark
								accs = append(accs, ac)
							}
							return
						}
					}
					if !seen[k] {
						seen[k] = true
						changed = true
						opaque = append(opaque, struct {
							obj  *Obj
							path []PElem
							v    Value
						}{o, path, &Poison{"value changed by a loop"}})
					}
				})
			}
		}
		if changed {
			continue
		}
		if r.next == nil {
			break
		}
		// closed forms: a leaf that changes by an amount fixed for the whole loop
		mod := map[*Term]bool{}
		for _, lf := range leaves {
			if !lf.lin {
				mod[lf.sym] = true
			}
		}
		mod[n] = true
		again := false
		for _, lf := range leaves {
			lf.next = u.leafOf(r.next, lf)
			if lf.lin || (lf.sym.sort != SInt && lf.sym.sort != SReal) {
				continue
			}
			if lf.sym.sort == SReal {
				continue
			}
			d := Sub(lf.next, lf.sym)
			if u.mentions(d, mod) {
				// the condition may decide the change
				continue
			}
			if u.iterFresh(d, n) {
				continue
			}
			lf.lin = true
			lf.cur = Add(lf.v0, Mul(d, n))
			if len(u.ictx) > 0 || true {
				again = true
			}
		}
		if again {
			continue
		}
		break
	}
	// invariants
	if r.next != nil {
		invs = l.findInvariants(entry, leaves, n, func(is []*Term) (*State, *Term, *State, []*Term) {
			invs = is
			x := trial()
			return x.start, x.cond, x.next, x.facts
		})
	}
	r = iterate() // with obligations recorded
	if len(accs) > 0 && len(r.exits) > 0 && u.spec == 0 {
		// ways out that cannot be taken
		var qs []*Query
		for _, e := range r.exits {
			qs = append(qs, u.v.query(u, e.st.pc, TFalse, u.uses))
		}
		var can []Exit
		for i, dead := range u.v.runAll(qs, 3*time.Second) {
			if !dead {
				can = append(can, r.exits[i])
			}
		}
		r.exits = can
	}
	if r.next != nil {
		for _, lf := range leaves {
			lf.next = u.leafOf(r.next, lf)
		}
		l.termination(r.start, r.condSt, r.next, leaves, n)
	}
	// history: every earlier iteration continued
	hist := TTrue
	onlyLinear := true
	for _, lf := range leaves {
		if !lf.lin {
			onlyLinear = false
		}
	}
	for _, a := range accs {
		l.collect(r.next, a, n)
	}
	contAt := TTrue
	if r.next != nil && r.condSt != nil {
		np := len(r.start.pc)
		if np <= len(r.next.pc) && commonPrefix(r.start.pc, r.next.pc) >= np {
			contAt = And(r.next.pc[np:]...)
		}
	} else {
		contAt = TFalse
	}
	// the part of it that closed forms decide
	contLin := contAt
	if !onlyLinear || len(accs) > 0 {
		nonlin := map[*Term]bool{}
		for _, a := range accs {
			nonlin[a.mark.parts[0].n] = true
			nonlin[a.sym.isnil] = true
		}
		for _, lf := range leaves {
			if !lf.lin {
				nonlin[lf.sym] = true
			}
		}
		cs := []*Term{contAt}
		if contAt.op == OAnd {
			cs = contAt.args
		}
		contLin = TTrue
		for _, c := range cs {
			if !u.mentions(c, nonlin) {
				contLin = And(contLin, c)
			}
		}
	}
	if !contLin.isTrue() {
		prev := Subst(contLin, map[*Term]*Term{n: Sub(n, IntC(1))})
		hist = And(hist, Implies(Ge(n, IntC(1)), prev))
		j := BoundVar("j", SInt)
		body := Subst(contLin, map[*Term]*Term{n: j})
		hist = And(hist, Quant(OForall, []*Term{j}, Implies(And(Ge(j, IntC(0)), Lt(j, n)), body)))
	}
	finish := func(s *State) {
		for _, a := range accs {
			u.finishAccum(s, a, n, contAt)
		}
		s.assume(hist)
	}
	var outs []outcome
	for _, o := range append(r.outs, r.brk...) {
		if o.st == nil || o.st.dead() {
			continue
		}
		finish(o.st)
		outs = append(outs, o)
	}
	for i := range r.exits {
		finish(r.exits[i].st)
	}
	m := u.merge(outs)
	if m == nil {
		return nil, r.exits
	}
	return m.st, r.exits
}

func (u *Unit) leafOf(st *State, lf *leaf) *Term {
	v := u.readPath(st, u.get(st, lf.obj), lf.path)
	if t, ok := v.(*Term); ok {
		return t
	}
	fail("loop leaf %T", v)
	return nil
}

func (u *Unit) mentions(t *Term, set map[*Term]bool) bool {
	hit := false
	Walk(t, map[*Term]bool{}, func(x *Term) {
		if set[x] {
			hit = true
		}
	})
	return hit
}

// iterFresh: does t contain a value invented inside the iteration?
func (u *Unit) iterFresh(t *Term, n *Term) bool {
	return u.mentions(t, map[*Term]bool{n: true})
}

// findInvariants keeps the candidate invariants that hold on entry and are preserved.
func (l *loop) findInvariants(entry *State, leaves []*leaf, n *Term, run func([]*Term) (*State, *Term, *State, []*Term)) []*Term {
	u := l.u
	type cand struct {
		inv   *Term
		init  *Term
		exprs []*Term
	}
	var cands []cand
	// expressions of interest: integer leaves and the sides of the loop condition
	_, cond, last, _ := run(nil)
	toEntry := map[*Term]*Term{n: IntC(0)}
	for _, lf := range leaves {
		if !lf.lin {
			toEntry[lf.sym] = lf.v0
		}
	}
	at0 := func(t *Term) *Term { return Subst(t, toEntry) }
	var xs []*Term
	addX := func(t *Term) {
		for _, x := range xs {
			if x == t || x == Neg(t) {
				return
			}
		}
		if len(xs) < 12 {
			xs = append(xs, t)
		}
	}
	for _, lf := range leaves {
		if lf.sym.sort == SInt {
			addX(lf.cur)
		}
	}
	mod := map[*Term]bool{n: true}
	for _, lf := range leaves {
		if !lf.lin {
			mod[lf.sym] = true
		}
	}
	if cond != nil {
		Walk(cond, map[*Term]bool{}, func(t *Term) {
			if (t.op == OLe0 || t.op == OEq0) && t.args[0].sort == SInt && u.mentions(t.args[0], mod) {
				addX(t.args[0])
				// conditions such as |x| > k: the parts under an ite
				for _, a := range t.args[0].args {
					if a.op == OIte {
						addX(a.args[1])
					}
				}
			}
		})
	}
	zero := IntC(0)
	for _, x := range xs {
		x0 := at0(x)
		cands = append(cands,
			cand{inv: Implies(Ge(x0, zero), Ge(x, zero))},
			cand{inv: Implies(Le(x0, zero), Le(x, zero))},
			cand{inv: Implies(Ge(x0, zero), Le(x, x0))},
			cand{inv: Implies(Le(x0, zero), Ge(x, x0))},
			cand{inv: Ge(x, x0)}, cand{inv: Le(x, x0)})
		iv := entry.env.iv(x0)
		if iv.hi != nil {
			hi := maxR(new(big.Rat).SetInt(floorRat(iv.hi)), rat0)
			cands = append(cands, cand{inv: Le(x, Num(hi, SInt))})
		}
		if iv.lo != nil {
			lo := minR(new(big.Rat).SetInt(ceilRat(iv.lo)), rat0)
			cands = append(cands, cand{inv: Ge(x, Num(lo, SInt))})
		}
	}
	// a loop whose condition fails at once changes nothing
	c0 := TTrue
	if cond != nil && cond.sort == SBool {
		c0 = at0(cond)
	}
	if _, decided := entry.env.decide(c0); !decided && !c0.isTrue() && !c0.isFalse() {
		same := Eq(n, zero)
		for _, lf := range leaves {
			if !lf.lin && lf.sym.sort == lf.v0.sort {
				same = And(same, Eq(lf.sym, lf.v0))
			}
		}
		cands = append(cands, cand{inv: Implies(Not(c0), same)})
	} else {
		c0 = TTrue
	}
	var steps []*leaf
	for _, li := range leaves {
		if li.lin || li.sym.sort != SInt || li.next == nil || last == nil {
			continue
		}
		if d := last.env.iv(change(li.next, li.sym)); d.lo != nil && d.hi != nil && d.lo.Cmp(big.NewRat(-1, 1)) >= 0 && d.hi.Cmp(big.NewRat(1, 1)) <= 0 {
			steps = append(steps, li)
		}
	}
	// templates from contracts: a time accumulating along a recursively defined spec function
	for _, lf := range leaves {
		if lf.lin || lf.sym.sort != SInt {
			continue
		}
		for _, tp := range u.v.templates {
			if !tp.has(u.v.prop) {
				continue
			}
			along := func(e *Term, mk func(arg *Term) *Term) {
				for _, sgn := range []int64{1, -1} {
					for _, li := range leaves {
						if li.lin {
							cands = append(cands, cand{inv: mk(Add(e, MulC(big.NewRat(sgn, 1), Sub(li.cur, li.v0))))})
						}
					}
					// along a number that goes up or down by one
					for _, li := range steps {
						if li != lf {
							cands = append(cands, cand{inv: mk(Add(e, MulC(big.NewRat(sgn, 1), Sub(li.sym, li.v0))))})
						}
					}
					// along the ghost counter itself
					cands = append(cands, cand{inv: mk(Add(e, MulC(big.NewRat(sgn, 1), n)))})
				}
			}
			for _, e := range tp.anchors(u, lf.v0, entry.pc) {
				along(e, func(arg *Term) *Term { return Eq(lf.sym, tp.apply(u, arg)) })
			}
			if k, ok := lf.v0.intVal(); ok && k == 0 || !ok && !c0.isTrue() {
				// a distance from a base point, in nanoseconds or days; one that is
				// symbolic so far may be 0 if the loop is entered
				g := TTrue
				if !ok {
					g = c0
				}
				for _, e := range tp.base(u) {
					for _, f := range []int64{1, nsDay} {
						along(e, func(arg *Term) *Term {
							return Implies(g, Eq(MulC(big.NewRat(f, 1), lf.sym), Sub(tp.apply(u, arg), tp.apply(u, e))))
						})
					}
				}
			}
		}
	}
	// a value that changes by a bounded amount: within that times the iterations
	for _, lf := range leaves {
		if lf.lin || lf.sym.sort != SInt || lf.next == nil || last == nil {
			continue
		}
		if os.Getenv("GOCV_INV") != "" {
			fmt.Println("  change", lf.name, change(lf.next, lf.sym))
		}
		d := last.env.iv(change(lf.next, lf.sym))
		if d.hi != nil {
			cands = append(cands, cand{inv: Le(Sub(lf.sym, lf.v0), MulC(new(big.Rat).SetInt(floorRat(d.hi)), n))})
		}
		if d.lo != nil {
			cands = append(cands, cand{inv: Ge(Sub(lf.sym, lf.v0), MulC(new(big.Rat).SetInt(ceilRat(d.lo)), n))})
		}
	}
	// two values that change in proportion
	for i, a := range leaves {
		for j, b := range leaves {
			if i == j || a.lin || b.lin || a.sym.sort != SInt || b.sym.sort != SInt || a.next == nil || b.next == nil {
				continue
			}
			done := map[string]bool{}
			for _, va := range constLeaves(change(a.next, a.sym)) {
				for _, vb := range constLeaves(change(b.next, b.sym)) {
					if vb.Sign() == 0 {
						continue
					}
					c := new(big.Rat).Quo(va, vb)
					if !c.IsInt() || c.Sign() == 0 || done[c.RatString()] || len(done) > 3 {
						continue
					}
					done[c.RatString()] = true
					cands = append(cands, cand{inv: Eq(Sub(a.sym, a.v0), MulC(c, Sub(b.sym, b.v0)))})
				}
			}
		}
	}
	seen := map[*Term]bool{}
	var cur []*Term
	var todo []*Term
	var qs []*Query
	for _, c := range cands {
		if c.inv.isTrue() || seen[c.inv] {
			continue
		}
		seen[c.inv] = true
		todo = append(todo, c.inv)
		qs = append(qs, u.v.query(u, entry.pc, at0(c.inv), u.uses))
	}
	for i, ok := range u.v.runAll(qs, 3*time.Second) {
		if os.Getenv("GOCV_INV") != "" {
			fmt.Println("  candidate", u.pos(l.at), ok, todo[i])
		}
		if ok {
			cur = append(cur, todo[i])
		}
	}
	// Houdini: drop what an iteration does not preserve, until stable
	for round := 0; round < 12; round++ {
		_, cond, next, fs := run(cur)
		if next == nil {
			return cur
		}
		_ = cond
		step := map[*Term]*Term{n: Add(n, IntC(1))}
		for _, lf := range leaves {
			if !lf.lin {
				step[lf.sym] = u.leafOf(next, lf)
			}
		}
		nf := len(u.facts)
		u.facts = append(u.facts, fs...)
		var qs []*Query
		for _, c := range cur {
			qs = append(qs, u.v.query(u, next.pc, Subst(c, step), u.uses))
		}
		keep := u.v.runAll(qs, 5*time.Second)
		if os.Getenv("GOCV_INV") != "" {
			for i, c := range cur {
				if !keep[i] {
					fmt.Println("  dropped", u.pos(l.at), c)
					for k, t := range qs[i].texts {
						os.WriteFile(fmt.Sprintf("/tmp/d4/inv%d.%d.%d.smt2", round, i, k), []byte(t), 0644)
					}
				}
			}
		}
		u.facts = u.facts[:nf]
		var nc []*Term
		for i, c := range cur {
			if keep[i] {
				nc = append(nc, c)
			}
		}
		if len(nc) == len(cur) {
			if os.Getenv("GOCV_INV") != "" {
				for _, c := range cur {
					fmt.Println("  invariant", u.name, u.pos(l.at), c)
				}
			}
			return cur
		}
		cur = nc
	}
	return nil
}

// change gives t - x, case by case.
func change(t, x *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], change(t.args[1], x), change(t.args[2], x))
	}
	return Sub(t, x)
}

// constLeaves lists the constants among the cases of a value.
func constLeaves(t *Term) []*big.Rat {
	switch {
	case t.isNum():
		return []*big.Rat{t.rat}
	case t.op == OIte:
		return append(constLeaves(t.args[1]), constLeaves(t.args[2])...)
	case t.op == OLin && len(t.args) == 1:
		var r []*big.Rat
		for _, c := range constLeaves(t.args[0]) {
			x := new(big.Rat).Mul(c, t.coef[0])
			r = append(r, x.Add(x, t.rat))
		}
		return r
	}
	return nil
}

// termination proves that some integer measure falls in every iteration and is bounded below.
func (l *loop) termination(start, condSt, next *State, leaves []*leaf, n *Term) {
	u := l.u
	if u.quiet > 0 || u.spec > 0 {
		return
	}
	step := map[*Term]*Term{n: Add(n, IntC(1))}
	mod := map[*Term]bool{n: true}
	for _, lf := range leaves {
		if !lf.lin {
			step[lf.sym] = u.leafOf(next, lf)
			mod[lf.sym] = true
		}
	}
	var ms []*Term
	add := func(t *Term) {
		abs := Ite(Ge(t, IntC(0)), t, Neg(t))
		ms = append(ms, abs, t, Neg(t))
	}
	np := len(start.pc)
	conds := And(condSt.pc[np:]...)
	if len(next.pc) > np {
		conds = And(next.pc[np:]...)
	}
	Walk(conds, map[*Term]bool{}, func(t *Term) {
		if (t.op == OLe0 || t.op == OEq0) && t.args[0].sort == SInt && u.mentions(t.args[0], mod) {
			add(t.args[0])
			for _, a := range t.args[0].args {
				if a.op == OIte {
					add(a.args[1])
				}
			}
		}
	})
	for _, lf := range leaves {
		if lf.sym.sort == SInt {
			add(lf.cur)
		}
	}
	seen := map[*Term]bool{}
	for _, m := range ms {
		if seen[m] || len(seen) > 24 {
			continue
		}
		seen[m] = true
		m2 := Subst(m, step)
		goal := And(Ge(m, IntC(0)), Le(m2, Sub(m, IntC(1))))
		if v, k := next.env.decide(goal); k && v {
			u.require(next, "terminates", "a measure falls in every iteration: "+short(m), l.at, goal)
			return
		}
		if u.v.proveNow(u, next.pc, goal, 4*time.Second) {
			u.require(next, "terminates", "a measure falls in every iteration: "+short(m), l.at, goal)
			return
		}
	}
	u.require(next, "terminates", "some measure falls in every iteration", l.at, TFalse)
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// collect finds what an iteration appends to an accumulator.
func (l *loop) collect(next *State, a *accum, n *Term) {
	u := l.u
	if next == nil {
		return
	}
	v := u.readPath(next, u.get(next, a.obj), a.path)
	s, ok := v.(*SliceV)
	if !ok {
		fail("loop accumulator %T", v)
	}
	q := u.seqOf(next, s)
	if len(q.parts) == 0 || !partEq(q.parts[0], a.mark.parts[0]) {
		if debugLists {
			for _, p := range q.parts {
				fmt.Printf("part gen=%v n=%v g=%v v=%T\n", p.isGen(), p.n, p.g, p.v)
			}
		}
		fail("a loop changes a list other than by appending to it")
	}
	a.add = q.parts[1:]
}

func (u *Unit) finishAccum(s *State, a *accum, n *Term, cont *Term) {
	cur := u.readPath(s, u.get(s, a.obj), a.path)
	sv, ok := cur.(*SliceV)
	if !ok {
		return
	}
	// items appended in the iteration that is left early follow the mark
	var tail []Part
	if q := u.seqOf(s, sv); len(q.parts) > 0 && partEq(q.parts[0], a.mark.parts[0]) {
		tail = q.parts[1:]
	} else {
		fail("loop accumulator was replaced")
	}
	q := &Seq{append([]Part(nil), a.q0.parts...)}
	if len(a.add) > 0 {
		add := a.add
		facts := append([]*Term(nil), u.facts...)
		_ = facts
		q.parts = append(q.parts, Part{n: n, b: func(i *Term) []Part { return substParts(add, map[*Term]*Term{n: i}) }})
	}
	q.parts = append(q.parts, tail...)
	o := u.newObj("collected", a.s0.typ)
	if a.s0.obj != nil {
		o.bases = []*Obj{a.s0.obj}
		u.grown(s, a.s0.obj, a.sym.obj)
	}
	s.heap[o] = q
	isnil := TFalse
	if a.s0.isnil.isTrue() {
		isnil = Eq(q.rawLength(), IntC(0))
	} else {
		isnil = a.s0.isnil
	}
	s.heap[a.obj] = u.writePath(u.get(s, a.obj), a.path, func(Value) Value { return &SliceV{typ: a.s0.typ, isnil: isnil, obj: o} })
}

func substParts(ps []Part, m map[*Term]*Term) []Part {
	r := make([]Part, len(ps))
	for i, p := range ps {
		if p.isGen() {
			q := p
			r[i] = Part{n: Subst(q.n, m), b: func(j *Term) []Part { return substParts(q.b(j), m) }}
		} else {
			r[i] = item(Subst(p.g, m), substV(p.v, m))
		}
	}
	return r
}

func substV(v Value, m map[*Term]*Term) Value {
	switch x := v.(type) {
	case *Term:
		return Subst(x, m)
	case TimeV:
		return TimeV{Subst(x.ns, m), Subst(x.loc, m)}
	case *StructV:
		r := &StructV{x.typ, make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = substV(x.f[i], m)
		}
		return r
	case *TupleV:
		r := &TupleV{make([]Value, len(x.vs))}
		for i := range x.vs {
			r.vs[i] = substV(x.vs[i], m)
		}
		return r
	case *SliceV:
		if x.inline {
			return &SliceV{typ: x.typ, isnil: Subst(x.isnil, m), inline: true, alias: x.alias, inl: &Seq{substParts(x.inl.parts, m)}}
		}
		return x
	case *Seq:
		return &Seq{substParts(x.parts, m)}
	case *IfaceV:
		r := &IfaceV{typ: x.typ}
		for _, a := range x.alts {
			var nv Value
			if a.v != nil {
				nv = substV(a.v, m)
			}
			r.alts = append(r.alts, IfaceAlt{Subst(a.g, m), a.typ, nv})
		}
		return r
	case *LogV:
		if x.sorted != nil {
			return &LogV{sorted: &Seq{substParts(x.sorted.parts, m)}}
		}
		return &LogV{v: substV(x.v, m)}
	case *OpaqueV:
		return &OpaqueV{x.typ, Subst(x.isnil, m), Subst(x.id, m)}
	case *PtrV:
		r := &PtrV{}
		for _, a := range x.alts {
			p := a.place
			if p != nil {
				np := make([]PElem, len(p.path))
				for i, e := range p.path {
					np[i] = e
					if e.idx != nil {
						np[i].idx = Subst(e.idx, m)
					}
				}
				p = &Place{p.obj, np}
			}
			r.alts = append(r.alts, PtrAlt{Subst(a.g, m), p})
		}
		return r
	}
	return v
}
