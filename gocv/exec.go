package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"
)

// Obl is one proof obligation.
type Obl struct {
	unit  *Unit
	kind  string
	desc  string
	pos   string
	pc    []*Term
	env   *BEnv
	goal  *Term
	nf    int // facts available when it arose
	facts []*Term
	uses  []*Term // lemma instances
	n     int

	status    string // proved / failed / unknown
	by        string
	secs      float64
	model     map[string]string
	output    string
	hints     map[string]*Term
	trivial   bool
	query     *Query
	confirmed string // a second back end that also discharged it
}

func (o *Obl) name() string { return fmt.Sprintf("%s#%s%d", o.unit.name, o.kind, o.n) }

// Unit is the verification of one function against its contract.
type Unit struct {
	inlining   int
	id         int
	v          *Verifier
	name       string
	facts      []*Term
	obls       []*Obl
	quiet      int
	initial    bool // package variables have the values a program starts with
	inInit     bool
	shipped    map[*types.Var]bool // have the values a program starts with
	ictx       []*Term
	depth      int
	frames     []*Frame
	globals    map[*types.Var]*Obj
	ginits     map[*Obj]Value
	nobj       int
	nfresh     map[string]int
	kinds      map[string]int
	fl         *floats
	inputs     map[string]*Term // named inputs for counterexamples
	uses       []*Term
	called     map[string]bool // contracts relied on
	inlined    map[string]bool
	trusted    map[string]bool
	spec       int // >0: executing ghost code, mathematical arithmetic
	curDecl    *ast.FuncDecl
	utcNames   map[string]bool
	stale      map[*Obj]bool // lists a logged call was applied to
	consumed   map[*Term]bool
	given      map[*Term]bool // the conjuncts of the precondition
	general    int            // >0: within an arbitrary iteration of a loop
	keyWritten map[*Obj]bool
	fromNested bool
	nested     map[*Obj]bool // arrays of lists put inside another
	openFlag   map[*Obj]*Obj // whether a file of the file system is open
	ctr        *Contract
	env0       *BEnv
	warn       []string
	defs       []*Term
	starUses   []string
	panicCond  *Term
	symMemo    map[*Term]map[string]int
	cutMemo    map[*Term]bool
	ground     *ground
	foldDepth  int
}

type Frame struct {
	vars    map[types.Object]*Obj
	results []*Obj
	sig     *types.Signature
	fn      *types.Func
	parent  *Frame
}

type Exit struct {
	st    *State
	kind  int // 1 return, 2 break, 3 continue
	label string
	vals  []Value
}

var unitCount int

func newUnit(v *Verifier, name string) *Unit {
	unitCount++
	u := &Unit{id: unitCount, v: v, name: name, globals: map[*types.Var]*Obj{}, ginits: map[*Obj]Value{}, nfresh: map[string]int{},
		kinds: map[string]int{}, inputs: map[string]*Term{}, called: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, symMemo: map[*Term]map[string]int{}, utcNames: map[string]bool{}, consumed: map[*Term]bool{}, keyWritten: map[*Obj]bool{}, stale: map[*Obj]bool{}, nested: map[*Obj]bool{}}
	u.fl = newFloats(u)
	u.env0 = newBEnv(nil)
	return u
}

func (u *Unit) fresh(base string, s Sort) *Term {
	u.nfresh[base]++
	n := fmt.Sprintf("%s!%d.%d", base, u.id, u.nfresh[base])
	if len(u.ictx) > 0 {
		return UF(n, s, u.ictx...)
	}
	return Var(n, s)
}

func (u *Unit) newObj(name string, t types.Type) *Obj {
	u.nobj++
	return &Obj{id: u.nobj, name: name, typ: t}
}

// fact records something true in every state.
func (u *Unit) fact(t *Term) {
	if t.isTrue() {
		return
	}
	u.facts = append(u.facts, t)
}

// defFact records a fact about a defined symbol; it survives trial runs of loops.
func (u *Unit) defFact(sym *Term, t *Term) {
	if !t.isTrue() {
		u.defs = append(u.defs, t)
	}
}

// factAt records something that holds under st's path condition.
func (u *Unit) factAt(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	u.fact(Implies(And(st.pc...), t))
	// the current state and its descendants know it outright
	st.env = newBEnv(st.env)
	st.env.assume(t)
}

func (u *Unit) pos(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := u.v.p.fset.Position(n.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// require adds an obligation in state st.
func (u *Unit) require(st *State, kind, desc string, at ast.Node, goal *Term) {
	if u.quiet > 0 || u.spec > 0 {
		return
	}
	if st.dead() {
		return
	}
	u.kinds[kind]++
	o := &Obl{unit: u, kind: kind, desc: desc, pos: u.pos(at), pc: append([]*Term(nil), st.pc...), env: st.env, goal: goal, nf: len(u.facts), n: u.kinds[kind]}
	o.uses = u.uses
	if goal.isTrue() {
		o.status, o.by, o.trivial = "proved", "simplifier", true
	} else if v, k := st.env.decide(goal); k && v {
		o.status, o.by = "proved", "interval"
	}
	u.obls = append(u.obls, o)
}

// ---- state access

func (u *Unit) get(st *State, o *Obj) Value {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if v, ok := u.ginits[o]; ok {
		return v
	}
	fail("object %s has no value", o.name)
	return nil
}

func (u *Unit) readPath(st *State, v Value, path []PElem) Value {
	for _, p := range path {
		if p.idx != nil {
			switch x := v.(type) {
			case *Seq:
				v = x.at(p.idx)
			case *SliceV:
				v = u.seqOf(st, x).at(p.idx)
			default:
				fail("index into %T", v)
			}
			continue
		}
		if t, ok := v.(TimeV); ok && p.field < 0 {
			if p.field == -1 {
				v = t.ns
			} else {
				v = t.loc
			}
			continue
		}
		s, ok := v.(*StructV)
		if !ok {
			if po, ok := v.(*Poison); ok {
				fail("use of %s", po.why)
			}
			fail("field of %T", v)
		}
		v = s.f[p.field]
	}
	if po, ok := v.(*Poison); ok {
		fail("use of %s", po.why)
	}
	return v
}

func (u *Unit) writePath(v Value, path []PElem, f func(Value) Value) Value {
	if len(path) == 0 {
		return f(v)
	}
	p := path[0]
	if p.idx != nil {
		switch x := v.(type) {
		case *Seq:
			return x.set(p.idx, func(o Value) Value { return u.writePath(o, path[1:], f) })
		case *SliceV:
			if x.inline {
				if x.alias {
					fail("write to a list read out of an element of another")
				}
				return &SliceV{typ: x.typ, isnil: x.isnil, inline: true, inl: x.inl.set(p.idx, func(o Value) Value { return u.writePath(o, path[1:], f) })}
			}
			fail("write through a nested slice reference")
		}
		fail("indexed write into %T", v)
	}
	if t, ok := v.(TimeV); ok && p.field < 0 {
		if p.field == -1 {
			t.ns = f(t.ns).(*Term)
		} else {
			t.loc = f(t.loc).(*Term)
		}
		return t
	}
	s, ok := v.(*StructV)
	if !ok {
		fail("field write into %T", v)
	}
	r := &StructV{s.typ, append([]Value(nil), s.f...)}
	r.f[p.field] = u.writePath(s.f[p.field], path[1:], f)
	return r
}

func (u *Unit) load(st *State, p *PtrV, at ast.Node) Value {
	var res Value
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		if a.place == nil {
			u.require(st, "nil", "pointer is not nil", at, Not(a.g))
			continue
		}
		v := u.readPath(st, u.get(st, a.place.obj), a.place.path)
		if a.place.inList() {
			v = aliased(v)
		}
		if res == nil {
			res = v
		} else {
			res = mergeV(a.g, u.inlineSlices(st, v), u.inlineSlices(st, res))
		}
	}
	if res == nil {
		fail("load through a nil pointer")
	}
	return res
}

func (u *Unit) store(st *State, p *PtrV, v Value, at ast.Node) {
	for _, a := range p.alts {
		if a.place == nil {
			u.require(st, "nil", "pointer is not nil", at, Not(a.g))
			continue
		}
		if o := a.place.obj; o.key != nil {
			u.keyedWrite(o)
		}
		if o := a.place.obj; len(a.place.path) > 0 && a.place.path[0].idx != nil {
			if o.prefix != nil && u.beyond(st, a.place.path[0].idx, o.prefix) {
				// an element this list added: its base does not reach it
				for _, b := range o.bases {
					u.grown(st, b, o)
				}
			} else {
				if o.shared {
					fail("write to a slice that may share its backing array (%s)", o.name)
				}
				u.written(st, o)
			}
		} else if o.shared && len(a.place.path) > 0 {
			fail("write to a slice that may share its backing array (%s)", o.name)
		}
		g := a.g
		if len(p.alts) == 1 {
			g = TTrue
		}
		if a.place.inList() {
			v = u.nestSlices(st, v)
			u.nestedWrite(st, a.place)
		}
		old := u.get(st, a.place.obj)
		st.heap[a.place.obj] = u.writePath(old, a.place.path, func(o Value) Value {
			if g.isTrue() {
				return v
			}
			return mergeV(g, u.inlineSlices(st, v), u.inlineSlices(st, o))
		})
	}
}

// ancestors: the arrays a backing array may be, itself included.
func (o *Obj) ancestors(m map[*Obj]bool) map[*Obj]bool {
	if !m[o] {
		m[o] = true
		for _, b := range o.bases {
			b.ancestors(m)
		}
	}
	return m
}

// grown: the room behind base is written (by an append to it, or to an
// element of keep). Other lists that grew from base may lie there.
func (u *Unit) grown(st *State, base, keep *Obj) {
	for y := range st.heap {
		// (a re-sliced list ends within its base)
		if len(y.bases) > 0 && y.name != "reslice" && y != base && y != keep && y.ancestors(map[*Obj]bool{})[base] && (keep == nil || !keep.ancestors(map[*Obj]bool{})[y]) {
			st.heap[y] = &Poison{"a list whose array an append to its base may have overwritten"}
		}
	}
}

// inList: the place is an element of a list, or inside one.
func (p *Place) inList() bool {
	for _, x := range p.path {
		if x.idx != nil {
			return true
		}
	}
	return false
}

// aliased marks the lists inside a value read out of a list: they share
// their arrays with the element's.
func aliased(v Value) Value {
	switch x := v.(type) {
	case *SliceV:
		if x.inline && !x.alias {
			r := *x
			r.alias = true
			return &r
		}
	case *StructV:
		var r *StructV
		for i, f := range x.f {
			if n := aliased(f); n != f {
				if r == nil {
					r = &StructV{x.typ, append([]Value(nil), x.f...)}
				}
				r.f[i] = n
			}
		}
		if r != nil {
			return r
		}
	}
	return v
}

// nestSlices is inlineSlices for a value that goes into a list: the element
// shares its lists' arrays with what they came from.
func (u *Unit) nestSlices(st *State, v Value) Value {
	u.noteNested(v)
	return u.inlineSlices(st, v)
}

func (u *Unit) noteNested(v Value) {
	switch x := v.(type) {
	case *SliceV:
		if !x.inline && x.obj != nil {
			u.nested[x.obj] = true
		}
	case *StructV:
		for _, f := range x.f {
			u.noteNested(f)
		}
	case *IfaceV:
		for _, a := range x.alts {
			u.noteNested(a.v)
		}
	}
}

// nestedWrite: an element of a list inside a list changes; what was read out
// of the list before may share its array.
func (u *Unit) nestedWrite(st *State, pl *Place) {
	k := 0
	for _, x := range pl.path {
		if x.idx != nil {
			k++
		}
	}
	if k == 0 || k == 1 && pl.path[0].idx != nil {
		return
	}
	if u.fromNested {
		fail("write to a list inside a list, which a re-sliced list may share")
	}
	var shut func(v Value) Value
	shut = func(v Value) Value {
		switch x := v.(type) {
		case *SliceV:
			if x.alias {
				return &Poison{"a list read out of another, written since"}
			}
		case *StructV:
			r := &StructV{x.typ, make([]Value, len(x.f))}
			same := true
			for i, f := range x.f {
				r.f[i] = shut(f)
				same = same && r.f[i] == f
			}
			if !same {
				return r
			}
		}
		return v
	}
	mine := map[*Obj]bool{}
	for y := range u.nested {
		y.ancestors(mine)
	}
	for o, v := range st.heap {
		for a := range o.ancestors(map[*Obj]bool{}) {
			if o != pl.obj && mine[a] {
				v = &Poison{"a list put inside another, written there since"}
				st.heap[o] = v
				break
			}
		}
		if o != pl.obj {
			if n := shut(v); n != v {
				st.heap[o] = n
			}
		}
	}
}

// written: an element of o changes; lists that may share its array are not known any more.
func (u *Unit) written(st *State, o *Obj) {
	mine := o.ancestors(map[*Obj]bool{})
	for y := range u.nested {
		for a := range y.ancestors(map[*Obj]bool{}) {
			if mine[a] {
				fail("write to a list that an element of another may share (%s)", o.name)
			}
		}
	}
	for y := range st.heap {
		if y == o || len(y.bases) == 0 && !mine[y] {
			continue
		}
		for a := range y.ancestors(map[*Obj]bool{}) {
			if mine[a] {
				st.heap[y] = &Poison{"a list whose array may have been written through another"}
				break
			}
		}
	}
}

func (u *Unit) beyond(st *State, idx, n *Term) bool {
	if v, k := st.env.decide(Ge(idx, n)); k {
		return v
	}
	return u.v.proveNow(u, st.pc, Ge(idx, n), 3*time.Second)
}

func single(pl *Place) *PtrV { return &PtrV{[]PtrAlt{{TTrue, pl}}} }

func (p *PtrV) extend(el PElem) *PtrV {
	r := &PtrV{}
	for _, a := range p.alts {
		if a.place == nil {
			r.alts = append(r.alts, a)
			continue
		}
		np := append(append([]PElem(nil), a.place.path...), el)
		r.alts = append(r.alts, PtrAlt{a.g, &Place{a.place.obj, np}})
	}
	return r
}

// seqOf gives the sequence a slice value denotes.
func (u *Unit) seqOf(st *State, s *SliceV) *Seq {
	if s.inline {
		return s.inl
	}
	if s.obj == nil {
		return &Seq{}
	}
	switch q := u.get(st, s.obj).(type) {
	case *Seq:
		return q
	case *Poison:
		fail("%s", q.why)
	}
	fail("slice backing")
	return nil
}

// inlineSlices turns slice references inside a value into inline sequences (value semantics).
func (u *Unit) inlineSlices(st *State, v Value) Value {
	switch x := v.(type) {
	case *SliceV:
		if !x.inline {
			return &SliceV{typ: x.typ, isnil: x.isnil, inline: true, inl: u.seqOf(st, x)}
		}
	case *StructV:
		var r *StructV
		for i, f := range x.f {
			n := u.inlineSlices(st, f)
			if !veq(n, f) {
				if r == nil {
					r = &StructV{x.typ, append([]Value(nil), x.f...)}
				}
				r.f[i] = n
			}
		}
		if r != nil {
			return r
		}
	case *IfaceV:
		r := &IfaceV{typ: x.typ}
		for _, a := range x.alts {
			nv := a.v
			if nv != nil {
				nv = u.inlineSlices(st, nv)
			}
			r.alts = append(r.alts, IfaceAlt{a.g, a.typ, nv})
		}
		return r
	}
	return v
}

// ---- merging states

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

type outcome struct {
	st   *State
	vals []Value
}

// merge joins outcomes that are mutually exclusive.
func (u *Unit) merge(os []outcome) *outcome {
	var live []outcome
	for _, o := range os {
		if o.st != nil && !o.st.dead() {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		return nil
	}
	for len(live) > 1 {
		// join the neighbouring pair with the longest common path condition
		bi, bl := 0, -1
		for i := 0; i+1 < len(live); i++ {
			if n := commonPrefix(live[i].st.pc, live[i+1].st.pc); n >= bl {
				bi, bl = i, n
			}
		}
		m := u.merge2(live[bi], live[bi+1])
		live = append(append(append([]outcome(nil), live[:bi]...), m), live[bi+2:]...)
	}
	return &live[0]
}

func (u *Unit) merge2(a, b outcome) outcome {
	n := commonPrefix(a.st.pc, b.st.pc)
	ca, cb := And(a.st.pc[n:]...), And(b.st.pc[n:]...)
	cond := ca
	if len(cb.args) < len(ca.args) || (ca.op == OAnd && cb.op != OAnd) {
		cond = Not(cb)
	}
	st := &State{heap: map[*Obj]Value{}, pc: append([]*Term(nil), a.st.pc[:n]...), defers: a.st.defers}
	st.defers = u.mergeDefers(cond, a.st.defers, b.st.defers)
	// environment: the nearest common ancestor
	anc := map[*BEnv]bool{}
	for e := a.st.env; e != nil; e = e.parent {
		anc[e] = true
	}
	e := b.st.env
	for e != nil && !anc[e] {
		e = e.parent
	}
	if e == nil {
		e = u.env0
	}
	st.env = e
	if d := Or(ca, cb); !d.isTrue() {
		st.assume(d)
	}
	fix := func(v Value) Value { return u.fixSlices(a.st, b.st, st, cond, v) }
	for o, va := range a.st.heap {
		vb, ok := b.st.heap[o]
		if !ok {
			if g, isg := u.ginits[o]; isg {
				vb = g
			} else {
				st.heap[o] = va
				continue
			}
		}
		if veq(va, vb) {
			st.heap[o] = va
		} else {
			st.heap[o] = fix(mergeV(cond, va, vb))
		}
	}
	for o, vb := range b.st.heap {
		if _, ok := a.st.heap[o]; !ok {
			if g, isg := u.ginits[o]; isg {
				st.heap[o] = fix(mergeV(cond, g, vb))
			} else {
				st.heap[o] = vb
			}
		}
	}
	r := outcome{st: st}
	for i := range a.vals {
		r.vals = append(r.vals, fix(mergeV(cond, a.vals[i], b.vals[i])))
	}
	return r
}

// mergeDefers: what was deferred on one of two paths is called on that path.
func (u *Unit) mergeDefers(cond *Term, a, b []*deferral) []*deferral {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	if n == len(a) && n == len(b) {
		return a
	}
	var fr *Frame
	for _, d := range append(append([]*deferral(nil), a[n:]...), b[n:]...) {
		if fr != nil && fr != d.fr {
			fail("calls deferred by different functions")
		}
		fr = d.fr
	}
	run := func(ds []*deferral) func(*State) Value {
		return func(s *State) Value {
			return u.sub(s, func(p **State) Value {
				for i := len(ds) - 1; i >= 0 && *p != nil; i-- {
					ds[i].call(p)
				}
				return TTrue
			})
		}
	}
	both := &deferral{fr, func(p **State) Value {
		*p, _ = u.branch(*p, cond, run(a[n:]), run(b[n:]))
		return nil
	}}
	return append(a[:n:n], both)
}

// fixSlices gives joined slices a joined backing object.
func (u *Unit) fixSlices(sa, sb, st *State, c *Term, v Value) Value {
	switch x := v.(type) {
	case *mergedSlice:
		if x.a.obj == x.b.obj && !x.a.inline && !x.b.inline {
			return &SliceV{typ: x.a.typ, obj: x.a.obj, isnil: Ite(x.c, x.a.isnil, x.b.isnil)}
		}
		o := u.newObj("joined", x.a.typ)
		for _, b := range []*Obj{x.a.obj, x.b.obj} {
			if b != nil {
				o.bases = append(o.bases, b)
			}
		}
		st.heap[o] = mergeSeq(x.c, u.seqOf(sa, x.a), u.seqOf(sb, x.b))
		o.shared = u.aliasRisk(x.a) || u.aliasRisk(x.b)
		return &SliceV{typ: x.a.typ, obj: o, isnil: Ite(x.c, x.a.isnil, x.b.isnil)}
	case *StructV:
		r := &StructV{x.typ, make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = u.fixSlices(sa, sb, st, c, x.f[i])
		}
		return r
	case *TupleV:
		r := &TupleV{make([]Value, len(x.vs))}
		for i := range x.vs {
			r.vs[i] = u.fixSlices(sa, sb, st, c, x.vs[i])
		}
		return r
	}
	return v
}

// aliasRisk: a caller-visible backing array joined with something else must
// not be written through the join.
func (u *Unit) aliasRisk(s *SliceV) bool {
	return s.obj != nil
}

// branch runs the two sides of a condition and joins them.
func (u *Unit) branch(st *State, c *Term, f, g func(*State) Value) (*State, Value) {
	if v, k := st.env.decide(c); k {
		if v {
			c = TTrue
		} else {
			c = TFalse
		}
	}
	if c.isTrue() {
		v := f(st)
		return st, v
	}
	if c.isFalse() {
		v := g(st)
		return st, v
	}
	a, b := st.clone(), st.clone()
	a.assume(c)
	b.assume(Not(c))
	var os []outcome
	if !a.dead() {
		v := f(a)
		if a.heap != nil {
			os = append(os, outcome{a, []Value{v}})
		}
	}
	if !b.dead() {
		v := g(b)
		if b.heap != nil {
			os = append(os, outcome{b, []Value{v}})
		}
	}
	m := u.merge(os)
	if m == nil {
		return nil, nil
	}
	return m.st, m.vals[0]
}

// ---- statements

func (u *Unit) execBlock(fr *Frame, st *State, list []ast.Stmt) (*State, []Exit) {
	var exits []Exit
	for k, s := range list {
		if st == nil {
			break
		}
		var ex []Exit
		if s, ok := s.(*ast.IfStmt); ok && k+1 < len(list) && u.writesElement(list[k+1:]) {
			na, nb, ex := u.execIf(fr, st, s)
			exits = append(exits, ex...)
			if na == nil || nb == nil || na.dead() || nb.dead() || !u.otherBacking(na, nb) {
				st = u.join(na, nb)
				continue
			}
			// the two lists live in different arrays: an element written
			// next goes to one of them
			na, ex = u.execBlock(fr, na, list[k+1:])
			exits = append(exits, ex...)
			nb, ex = u.execBlock(fr, nb, list[k+1:])
			exits = append(exits, ex...)
			return u.join(na, nb), exits
		}
		st, ex = u.exec(fr, st, s)
		exits = append(exits, ex...)
		if st != nil && st.dead() {
			st = nil
		}
	}
	return st, exits
}

// execIf gives the states after the two branches; one is nil when the
// condition is decided.
func (u *Unit) execIf(fr *Frame, st *State, s *ast.IfStmt) (*State, *State, []Exit) {
	if s.Init != nil {
		var ex []Exit
		st, ex = u.exec(fr, st, s.Init)
		if st == nil {
			return nil, nil, ex
		}
	}
	c := u.evalBool(fr, &st, s.Cond)
	if st == nil {
		return nil, nil, nil
	}
	if v, k := st.env.decide(c); k {
		c = BoolC(v)
	}
	if c.isTrue() {
		na, ex := u.exec(fr, st, s.Body)
		return na, nil, ex
	}
	if c.isFalse() {
		if s.Else == nil {
			return nil, st, nil
		}
		nb, ex := u.exec(fr, st, s.Else)
		return nil, nb, ex
	}
	a, b := st.clone(), st.clone()
	a.assume(c)
	b.assume(Not(c))
	na, exits := u.exec(fr, a, s.Body)
	nb := b
	if s.Else != nil {
		var ex []Exit
		nb, ex = u.exec(fr, b, s.Else)
		exits = append(exits, ex...)
	}
	return na, nb, exits
}

// writesElement: whether statements write an element of a slice, or take its address.
func (u *Unit) writesElement(list []ast.Stmt) bool {
	slice := func(e ast.Expr) bool {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				_, ok := u.v.p.info.TypeOf(x.X).Underlying().(*types.Slice)
				return ok
			}
			return false
		}
	}
	hit := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					hit = hit || slice(l)
				}
			case *ast.IncDecStmt:
				hit = hit || slice(x.X)
			case *ast.UnaryExpr:
				hit = hit || x.Op == token.AND && slice(x.X)
			}
			return !hit
		})
	}
	return hit
}

// otherBacking: whether some list lives in different arrays in two states.
func (u *Unit) otherBacking(a, b *State) bool {
	var differ func(x, y Value) bool
	differ = func(x, y Value) bool {
		switch x := x.(type) {
		case *SliceV:
			y, ok := y.(*SliceV)
			return ok && !x.inline && !y.inline && x.obj != y.obj && (u.aliasRisk(x) || u.aliasRisk(y))
		case *StructV:
			y, ok := y.(*StructV)
			if ok && len(x.f) == len(y.f) {
				for i := range x.f {
					if differ(x.f[i], y.f[i]) {
						return true
					}
				}
			}
		}
		return false
	}
	for o, x := range a.heap {
		if y, ok := b.heap[o]; ok && x != y && differ(x, y) {
			return true
		}
	}
	return false
}

func (u *Unit) declare(fr *Frame, st *State, id *ast.Ident, v Value) {
	if id.Name == "_" {
		return
	}
	obj := u.v.p.info.Defs[id]
	if obj == nil {
		fail("no definition for %s", id.Name)
	}
	o := u.newObj(id.Name, obj.Type())
	fr.vars[obj] = o
	st.heap[o] = u.convertTo(st, v, obj.Type())
}

func (u *Unit) exec(fr *Frame, st *State, s ast.Stmt) (*State, []Exit) {
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		return st, nil
	case *ast.BlockStmt:
		return u.execBlock(fr, st, s.List)
	case *ast.ExprStmt:
		p := &st
		u.eval(fr, p, s.X)
		return *p, nil
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return st, nil
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				v := u.eval(fr, &st, vs.Values[0])
				tv := v.(*TupleV)
				for i, n := range vs.Names {
					u.declare(fr, st, n, tv.vs[i])
				}
				continue
			}
			for i, n := range vs.Names {
				var v Value
				if len(vs.Values) > 0 {
					v = u.eval(fr, &st, vs.Values[i])
					if st == nil {
						return nil, nil
					}
				} else if d := u.v.p.info.Defs[n]; d != nil {
					v = u.zero(d.Type())
				}
				u.declare(fr, st, n, v)
			}
		}
		return st, nil
	case *ast.AssignStmt:
		return u.execAssign(fr, st, s), nil
	case *ast.IncDecStmt:
		pl := u.addr(fr, &st, s.X)
		old := u.load(st, pl, s)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		t := u.v.p.info.TypeOf(s.X)
		one := IntC(1)
		if isFloat(t) {
			one = RealC(1)
		}
		u.store(st, pl, u.arith(st, op, old.(*Term), one, t, s), s)
		return st, nil
	case *ast.ReturnStmt:
		var vals []Value
		if len(s.Results) == 0 {
			for _, o := range fr.results {
				vals = append(vals, u.get(st, o))
			}
		} else if len(s.Results) == 1 && fr.sig.Results().Len() > 1 {
			v := u.eval(fr, &st, s.Results[0])
			if st == nil {
				return nil, nil
			}
			tv := v.(*TupleV)
			for i, x := range tv.vs {
				vals = append(vals, u.convertTo(st, x, fr.sig.Results().At(i).Type()))
			}
		} else {
			for i, e := range s.Results {
				v := u.eval(fr, &st, e)
				if st == nil {
					return nil, nil
				}
				vals = append(vals, u.convertTo(st, v, fr.sig.Results().At(i).Type()))
			}
		}
		// deferred calls may read and change named results
		if len(fr.results) > 0 {
			for i, o := range fr.results {
				st.heap[o] = vals[i]
			}
		}
		return nil, []Exit{{st, 1, "", vals}}
	case *ast.IfStmt:
		na, nb, ex := u.execIf(fr, st, s)
		return u.join(na, nb), ex
	case *ast.SwitchStmt:
		return u.execSwitch(fr, st, s)
	case *ast.TypeSwitchStmt:
		return u.execTypeSwitch(fr, st, s)
	case *ast.ForStmt:
		return u.execFor(fr, st, s, "")
	case *ast.RangeStmt:
		return u.execRange(fr, st, s, "")
	case *ast.LabeledStmt:
		switch l := s.Stmt.(type) {
		case *ast.ForStmt:
			return u.execFor(fr, st, l, s.Label.Name)
		case *ast.RangeStmt:
			return u.execRange(fr, st, l, s.Label.Name)
		case *ast.SwitchStmt:
			return u.exec(fr, st, l)
		}
		return u.exec(fr, st, s.Stmt)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return nil, []Exit{{st, 2, l, nil}}
		case token.CONTINUE:
			return nil, []Exit{{st, 3, l, nil}}
		case token.FALLTHROUGH:
			return nil, []Exit{{st, 4, "", nil}}
		}
		fail("goto")
	case *ast.DeferStmt:
		if len(u.ictx) > 0 {
			fail("defer in a loop")
		}
		if tv := u.v.p.info.Types[s.Call.Fun]; tv.IsType() || tv.IsBuiltin() {
			fail("deferred conversion or builtin")
		}
		p := &st
		f := u.prepareCall(fr, p, s.Call)
		if st == nil {
			return nil, nil
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], &deferral{fr, f})
		return st, nil
	}
	fail("statement %T", s)
	return nil, nil
}

func (u *Unit) join(a, b *State) *State {
	var os []outcome
	if a != nil {
		os = append(os, outcome{st: a})
	}
	if b != nil {
		os = append(os, outcome{st: b})
	}
	m := u.merge(os)
	if m == nil {
		return nil
	}
	return m.st
}

func (u *Unit) execAssign(fr *Frame, st *State, s *ast.AssignStmt) *State {
	info := u.v.p.info
	assign := func(l ast.Expr, v Value) {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE && info.Defs[id] != nil {
				u.declare(fr, st, id, v)
				return
			}
		}
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
			if _, ok := info.TypeOf(ix.X).Underlying().(*types.Map); ok {
				mp := u.addr(fr, &st, ix.X)
				k := u.evalTerm(fr, &st, ix.Index)
				m, ok := u.load(st, mp, l).(*MapV)
				if !ok {
					fail("map write")
				}
				u.store(st, mp, mapSet(m, k, u.convertTo(st, v, info.TypeOf(l))), l)
				return
			}
		}
		pl := u.addr(fr, &st, l)
		if st == nil {
			return
		}
		u.store(st, pl, u.convertTo(st, v, info.TypeOf(l)), s)
	}
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		pl := u.addr(fr, &st, s.Lhs[0])
		r := u.eval(fr, &st, s.Rhs[0])
		if st == nil {
			return nil
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}[s.Tok]
		if op == 0 {
			fail("assignment operator %s", s.Tok)
		}
		old := u.load(st, pl, s)
		t := info.TypeOf(s.Lhs[0])
		u.store(st, pl, u.arith(st, op, old.(*Term), u.convertTo(st, r, t).(*Term), t, s), s)
		return st
	}
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		v := u.evalMulti(fr, &st, s.Rhs[0])
		if st == nil {
			return nil
		}
		for i, l := range s.Lhs {
			assign(l, v.vs[i])
			if st == nil {
				return nil
			}
		}
		return st
	}
	vals := make([]Value, len(s.Rhs))
	for i, r := range s.Rhs {
		vals[i] = u.eval(fr, &st, r)
		if st == nil {
			return nil
		}
	}
	for i, l := range s.Lhs {
		assign(l, vals[i])
		if st == nil {
			return nil
		}
	}
	return st
}

func (u *Unit) execSwitch(fr *Frame, st *State, s *ast.SwitchStmt) (*State, []Exit) {
	if s.Init != nil {
		st, _ = u.exec(fr, st, s.Init)
	}
	var tag Value
	if s.Tag != nil {
		tag = u.eval(fr, &st, s.Tag)
		if st == nil {
			return nil, nil
		}
	}
	var exits []Exit
	var outs []outcome
	cur := st
	var def *ast.CaseClause
	clauses := s.Body.List
	run := func(x *State, idx int) {
		for {
			cc := clauses[idx].(*ast.CaseClause)
			n, ex := u.execBlock(fr, x, cc.Body)
			var next *State
			for _, e := range ex {
				switch {
				case e.kind == 2 && e.label == "":
					outs = append(outs, outcome{st: e.st})
				case e.kind == 4:
					next = e.st
				default:
					exits = append(exits, e)
				}
			}
			if n != nil {
				outs = append(outs, outcome{st: n})
			}
			if next == nil {
				return
			}
			x = next
			idx++
		}
	}
	defIdx := -1
	for i, c := range clauses {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def, defIdx = cc, i
			continue
		}
		if cur == nil {
			break
		}
		cond := TFalse
		for _, e := range cc.List {
			if tag == nil {
				cond = Or(cond, u.evalBool(fr, &cur, e))
			} else {
				v := u.eval(fr, &cur, e)
				cond = Or(cond, u.equal(cur, tag, v))
			}
		}
		if v, k := cur.env.decide(cond); k {
			cond = BoolC(v)
		}
		if cond.isFalse() {
			continue
		}
		x := cur.clone()
		x.assume(cond)
		if cond.isTrue() {
			cur = nil
		} else {
			cur = cur.clone()
			cur.assume(Not(cond))
			if cur.dead() {
				cur = nil
			}
		}
		run(x, i)
	}
	if cur != nil {
		if def != nil {
			run(cur, defIdx)
		} else {
			outs = append(outs, outcome{st: cur})
		}
	}
	m := u.merge(outs)
	if m == nil {
		return nil, exits
	}
	return m.st, exits
}

func (u *Unit) execTypeSwitch(fr *Frame, st *State, s *ast.TypeSwitchStmt) (*State, []Exit) {
	if s.Init != nil {
		st, _ = u.exec(fr, st, s.Init)
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v, ok := u.eval(fr, &st, x).(*IfaceV)
	if !ok {
		fail("type switch on an unknown interface value")
	}
	var exits []Exit
	var outs []outcome
	rest := TTrue
	var def *ast.CaseClause
	run := func(cc *ast.CaseClause, g *Term, val Value) {
		y := st.clone()
		y.assume(g)
		if y.dead() {
			return
		}
		if obj := u.v.p.info.Implicits[cc]; obj != nil {
			o := u.newObj(obj.Name(), obj.Type())
			fr.vars[obj] = o
			y.heap[o] = val
		}
		n, ex := u.execBlock(fr, y, cc.Body)
		for _, e := range ex {
			if e.kind == 2 && e.label == "" {
				outs = append(outs, outcome{st: e.st})
			} else {
				exits = append(exits, e)
			}
		}
		if n != nil {
			outs = append(outs, outcome{st: n})
		}
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		g := TFalse
		var val Value = v
		for _, e := range cc.List {
			t := u.v.p.info.TypeOf(e)
			for _, a := range v.alts {
				hit := false
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
					hit = a.typ == nil
				} else if it, ok := t.Underlying().(*types.Interface); ok {
					hit = a.typ != nil && types.Implements(a.typ, it)
				} else {
					hit = a.typ != nil && types.Identical(a.typ, t)
					if hit && len(cc.List) == 1 {
						val = a.v
					}
				}
				if hit {
					g = Or(g, And(rest, a.g))
				}
			}
		}
		rest = And(rest, Not(g))
		run(cc, g, val)
	}
	if def != nil {
		run(def, rest, v)
	} else {
		y := st.clone()
		y.assume(rest)
		if !y.dead() {
			outs = append(outs, outcome{st: y})
		}
	}
	m := u.merge(outs)
	if m == nil {
		return nil, exits
	}
	return m.st, exits
}

// ---- places

func (u *Unit) lookupVar(fr *Frame, obj types.Object) *Obj {
	for f := fr; f != nil; f = f.parent {
		if o, ok := f.vars[obj]; ok {
			return o
		}
	}
	if v, ok := obj.(*types.Var); ok && v.Parent() == u.v.p.pkg.Scope() {
		return u.global(v)
	}
	fail("variable %s is not in scope of the verifier", obj.Name())
	return nil
}

// global gives the object of a package-level variable; its initial value is
// its initialiser when nothing can ever change it, and arbitrary otherwise.
func (u *Unit) global(v *types.Var) *Obj {
	if o, ok := u.globals[v]; ok {
		return o
	}
	o := &Obj{id: -1, name: v.Name(), typ: v.Type(), global: true}
	u.globals[v] = o
	if m, ok := u.fileMap(v); ok {
		u.ginits[o] = m
		return o
	}
	if u.initial || u.shipped[v] || !v.Exported() && !u.v.p.gwrit[v] {
		u.initialise(v, o)
		if (u.v.p.iwrit[v] || (u.initial || u.shipped[v]) && len(u.v.p.inits) > 0) && !u.inInit {
			u.runInits()
		}
	} else {
		st := &State{heap: map[*Obj]Value{}, env: u.env0}
		val := u.symbolic(st, "global "+v.Name(), v.Type())
		for k, w := range st.heap {
			k.global = true
			u.ginits[k] = w
		}
		u.ginits[o] = val
		if u.v.p.gwrit[v] {
			u.warn = append(u.warn, "reads package variable "+v.Name()+", which the code modifies")
		}
	}
	return o
}

// initialise gives a package-level variable the value of its initialiser.
func (u *Unit) initialise(v *types.Var, o *Obj) {
	init := u.v.p.ginit[v]
	if init == nil {
		u.ginits[o] = u.zero(v.Type())
		return
	}
	st := &State{heap: map[*Obj]Value{}, env: u.env0}
	q := u.quiet
	u.quiet++
	defer func() { u.quiet = q }()
	var val Value
	if i, ok := u.v.p.gtuple[v]; ok {
		t := u.evalMulti(&Frame{vars: map[types.Object]*Obj{}}, &st, init)
		if t == nil || i >= len(t.vs) {
			fail("the initialiser of %s", v.Name())
		}
		val = t.vs[i]
	} else {
		val = u.eval(&Frame{vars: map[types.Object]*Obj{}}, &st, init)
	}
	val = u.convertTo(st, val, v.Type())
	for k, w := range st.heap { // backing arrays of literals
		u.ginits[k] = w
	}
	u.ginits[o] = val
}

// runInits runs the init functions of the package, which nothing else calls,
// from the values of the initialisers.
func (u *Unit) runInits() {
	u.inInit = true
	q := u.quiet
	u.quiet++
	defer func() { u.inInit = false; u.quiet = q }()
	for w := range u.v.p.iwrit {
		if !w.Exported() && !u.v.p.gwrit[w] || u.initial || u.shipped[w] {
			if _, ok := u.globals[w]; !ok {
				u.global(w)
			}
		}
	}
	// they run in the order of the files, sorted by name, and within one of the text
	st := &State{heap: map[*Obj]Value{}, env: u.env0}
	for _, fn := range u.v.p.inits {
		decl := u.v.p.funcs[fn]
		sig := fn.Type().(*types.Signature)
		u.runBody(&Frame{vars: map[types.Object]*Obj{}, sig: sig, fn: fn}, &st, sig, decl.Type, decl.Body, nil, nil, nil)
		if st == nil {
			fail("init does not return")
		}
	}
	moving := map[*Obj]bool{}
	for w, o := range u.globals {
		moving[o] = !u.initial && !u.shipped[w] && (w.Exported() || u.v.p.gwrit[w])
	}
	for k, w := range st.heap {
		if !moving[k] {
			u.ginits[k] = w
		}
	}
}

// isOnce: a sync.Once is whether it has run.
func isOnce(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Once" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// isBuilder: a builder of text is the text so far.
func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return k == "strings.Builder" || k == "bytes.Buffer"
}

// fileMap represents a package map of pointers that is never assigned and whose
// literal gives every key its own new object: an object per key.
func (u *Unit) fileMap(v *types.Var) (*MapV, bool) {
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok || v.Exported() || u.v.p.gwrit[v] || u.v.p.iwrit[v] {
		return nil, false
	}
	pt, ok := mt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	lit, ok := u.v.p.ginit[v].(*ast.CompositeLit)
	if !ok {
		return nil, false
	}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil, false
		}
		val := ast.Unparen(kv.Value)
		if un, ok := val.(*ast.UnaryExpr); ok && un.Op == token.AND {
			val = un.X
		}
		if _, ok := val.(*ast.CompositeLit); !ok {
			return nil, false
		}
	}
	objs := map[*Term]*Obj{}
	m := &MapV{typ: v.Type(), tag: "objects"}
	m.dom = func(k *Term) *Term { return UF(v.Name()+".has", SBool, k) }
	m.val = func(k *Term) Value {
		o := objs[k]
		if o == nil {
			for k2, o2 := range objs {
				if u.keyWritten[o2] && !u.differ(k, k2) {
					fail("two entries of %s that may be the same", v.Name())
				}
			}
			o = &Obj{id: -3, key: k, name: v.Name() + "[...]", typ: pt.Elem(), global: true}
			st := &State{heap: map[*Obj]Value{}, env: u.env0}
			u.ginits[o] = u.symbolic(st, v.Name(), pt.Elem(), k)
			objs[k] = o
		}
		return single(&Place{obj: o})
	}
	return m, true
}

// differ: two keys are distinct, by the precondition if not by their form.
func (u *Unit) differ(a, b *Term) bool {
	e := Eq(a, b)
	return e.isFalse() || u.given[Not(e)]
}

// keyedWrite: no other entry in use can be the one that changes.
func (u *Unit) keyedWrite(o *Obj) {
	if u.general > 0 {
		fail("an entry of %s is changed in a loop", o.name)
	}
	u.keyWritten[o] = true
	for o2 := range u.ginits {
		if o2 != o && o2.key != nil && o2.name == o.name && !u.differ(o.key, o2.key) {
			fail("two entries of %s that may be the same", o.name)
		}
	}
}

func (u *Unit) addr(fr *Frame, st **State, e ast.Expr) *PtrV {
	info := u.v.p.info
	switch x := e.(type) {
	case *ast.ParenExpr:
		return u.addr(fr, st, x.X)
	case *ast.Ident:
		return single(&Place{obj: u.lookupVar(fr, info.ObjectOf(x))})
	case *ast.StarExpr:
		v := u.eval(fr, st, x.X)
		if p, ok := v.(*PtrV); ok {
			return p
		}
		fail("dereference of %T", v)
	case *ast.SelectorExpr:
		if sel := info.Selections[x]; sel != nil {
			p, _ := u.selectPlace(fr, st, x, sel.Index())
			return p
		}
		// package-qualified variable
		if v, ok := info.Uses[x.Sel].(*types.Var); ok {
			fail("package variable %s.%s", v.Pkg().Path(), v.Name())
		}
	case *ast.IndexExpr:
		switch t := info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice:
			i := u.evalTerm(fr, st, x.Index)
			if *st == nil {
				return &PtrV{}
			}
			v := u.eval(fr, st, x.X)
			s, ok := v.(*SliceV)
			if !ok {
				fail("index into %T", v)
			}
			u.require(*st, "bounds", "index in range", x, And(Ge(i, IntC(0)), Lt(i, u.seqOf(*st, s).length())))
			if s.inline {
				return u.addr(fr, st, x.X).extend(PElem{idx: i})
			}
			return single(&Place{s.obj, []PElem{{idx: i}}})
		case *types.Array:
			i := u.evalTerm(fr, st, x.Index)
			u.require(*st, "bounds", "index in range", x, And(Ge(i, IntC(0)), Lt(i, IntC(t.Len()))))
			return u.addr(fr, st, x.X).extend(PElem{idx: i})
		}
	case *ast.CompositeLit:
		v := u.eval(fr, st, x)
		o := u.newObj("lit", info.TypeOf(x))
		(*st).heap[o] = v
		return single(&Place{obj: o})
	}
	// not addressable: put the value in a temporary
	v := u.eval(fr, st, e)
	if *st == nil {
		return &PtrV{}
	}
	o := u.newObj("tmp", info.TypeOf(e))
	(*st).heap[o] = v
	return single(&Place{obj: o})
}

// selectPlace follows a field selection path, dereferencing as Go does.
func (u *Unit) selectPlace(fr *Frame, st **State, x *ast.SelectorExpr, index []int) (*PtrV, types.Type) {
	info := u.v.p.info
	t := info.TypeOf(x.X)
	var p *PtrV
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		v := u.eval(fr, st, x.X)
		q, ok := v.(*PtrV)
		if !ok {
			fail("field of %T", v)
		}
		p, t = q, pt.Elem()
	} else {
		p = u.addr(fr, st, x.X)
	}
	return u.followPath(*st, p, t, index, x)
}

func (u *Unit) followPath(st *State, p *PtrV, t types.Type, index []int, at ast.Node) (*PtrV, types.Type) {
	for _, i := range index {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			q, ok := u.load(st, p, at).(*PtrV)
			if !ok {
				fail("embedded pointer")
			}
			p, t = q, pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			fail("field of %s", t)
		}
		p, t = p.extend(PElem{field: i}), s.Field(i).Type()
	}
	return p, t
}

// ---- expressions

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (u *Unit) evalBool(fr *Frame, st **State, e ast.Expr) *Term {
	t := u.evalTerm(fr, st, e)
	if *st == nil {
		return TFalse
	}
	if t.sort != SBool {
		fail("boolean expected")
	}
	return t
}

func (u *Unit) evalTerm(fr *Frame, st **State, e ast.Expr) *Term {
	v := u.eval(fr, st, e)
	if *st == nil {
		return TFalse
	}
	if t, ok := v.(*Term); ok {
		return t
	}
	fail("scalar expected, got %T", v)
	return nil
}

func (u *Unit) constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return BoolC(constant.BoolVal(v))
	case constant.String:
		return StrC(constant.StringVal(v))
	}
	s, ok := constRat(v)
	if !ok {
		fail("constant %s", v)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		fail("constant %s", v)
	}
	b, _ := t.Underlying().(*types.Basic)
	if b != nil && b.Info()&types.IsInteger != 0 || b != nil && b.Kind() == types.UntypedRune {
		return Num(r, SInt)
	}
	if b != nil && (b.Info()&types.IsFloat != 0) {
		if b.Kind() == types.UntypedFloat {
			return Num(r, SReal)
		}
		return Num(roundRat(r), SReal)
	}
	if r.IsInt() && b == nil {
		return Num(r, SInt)
	}
	return Num(r, SReal)
}

func roundRat(r *big.Rat) *big.Rat {
	f, _ := r.Float64()
	o := new(big.Rat).SetFloat64(f)
	if o == nil {
		fail("constant out of float range")
	}
	return o
}

func (u *Unit) evalMulti(fr *Frame, st **State, e ast.Expr) *TupleV {
	info := u.v.p.info
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr: // v, ok := m[k]
		if mt, ok := info.TypeOf(x.X).Underlying().(*types.Map); ok {
			m := u.eval(fr, st, x.X)
			k := u.evalTerm(fr, st, x.Index)
			v, ok := u.mapGet(m, k, mt)
			return &TupleV{[]Value{v, ok}}
		}
	case *ast.TypeAssertExpr:
		v := u.eval(fr, st, x.X)
		t := info.TypeOf(x.Type)
		iv, ok := v.(*IfaceV)
		if !ok {
			fail("type assertion on %T", v)
		}
		g := TFalse
		var val Value = u.zero(t)
		for _, a := range iv.alts {
			if a.typ == nil {
				continue
			}
			if it, ok := t.Underlying().(*types.Interface); ok {
				if types.Implements(a.typ, it) {
					g = Or(g, a.g)
					val = v
				}
			} else if types.Identical(a.typ, t) {
				g = a.g
				val = mergeV(a.g, a.v, val)
			}
		}
		return &TupleV{[]Value{val, g}}
	}
	v := u.eval(fr, st, e)
	if *st == nil {
		return nil
	}
	if t, ok := v.(*TupleV); ok {
		return t
	}
	fail("tuple expected")
	return nil
}

func (u *Unit) eval(fr *Frame, st **State, e ast.Expr) Value {
	info := u.v.p.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return u.constTerm(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return u.eval(fr, st, x.X)
	case *ast.Ident:
		obj := info.ObjectOf(x)
		switch o := obj.(type) {
		case *types.Nil:
			return &OpaqueV{typ: nil, isnil: TTrue, id: UF("nil", "Opq")}
		case *types.Func:
			return &FuncV{fn: o, isnil: TFalse}
		}
		v := u.get(*st, u.lookupVar(fr, obj))
		if p, ok := v.(*Poison); ok {
			fail("use of %s (%s)", x.Name, p.why)
		}
		return v
	case *ast.BasicLit:
		fail("literal")
	case *ast.FuncLit:
		return &FuncV{lit: x, fr: fr, isnil: TFalse}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return u.addr(fr, st, x.X)
		case token.NOT:
			return Not(u.evalBool(fr, st, x.X))
		case token.SUB:
			v := u.evalTerm(fr, st, x.X)
			if *st == nil {
				return TFalse
			}
			r := Neg(v)
			u.checkRange(*st, r, info.TypeOf(e), e)
			return r
		case token.ADD:
			return u.eval(fr, st, x.X)
		}
		fail("operator %s", x.Op)
	case *ast.StarExpr:
		return u.load(*st, u.addr(fr, st, x), x)
	case *ast.BinaryExpr:
		return u.evalBinary(fr, st, x)
	case *ast.SelectorExpr:
		if sel := info.Selections[x]; sel != nil {
			switch sel.Kind() {
			case types.FieldVal:
				// value of a field of a non-addressable value
				p, _ := u.selectPlace(fr, st, x, sel.Index())
				if *st == nil {
					return TFalse
				}
				return u.load(*st, p, x)
			case types.MethodVal:
				fn := sel.Obj().(*types.Func)
				f := &FuncV{fn: fn, recv: u.receiver(fr, st, x, sel), isnil: TFalse}
				f.iface = types.IsInterface(sel.Recv()) || isEmbeddedIface(sel)
				if f.iface && *st != nil {
					// the method of a nil interface value cannot be taken
					if iv, ok := f.recv.(*IfaceV); ok {
						for _, a := range iv.alts {
							if a.typ == nil {
								u.require(*st, "nil", "interface value is not nil", x, Not(a.g))
							}
						}
					}
				}
				return f
			case types.MethodExpr:
				fn := sel.Obj().(*types.Func)
				if len(sel.Index()) == 1 {
					_, ptr := sel.Recv().Underlying().(*types.Pointer)
					_, wants := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
					iface := types.IsInterface(sel.Recv())
					return &FuncV{fn: fn, mexpr: true, iface: iface, deref: !iface && ptr && !wants, isnil: TFalse}
				}
			}
			fail("selection")
		}
		switch o := info.Uses[x.Sel].(type) {
		case *types.Func:
			return &FuncV{fn: o, isnil: TFalse}
		case *types.Var:
			return u.libVar(o)
		}
		fail("selector %s", x.Sel.Name)
	case *ast.IndexExpr:
		switch t := info.TypeOf(x.X).Underlying().(type) {
		case *types.Map:
			m := u.eval(fr, st, x.X)
			k := u.evalTerm(fr, st, x.Index)
			if *st == nil {
				return TFalse
			}
			v, _ := u.mapGet(m, k, t)
			return v
		case *types.Slice:
			v := u.eval(fr, st, x.X)
			i := u.evalTerm(fr, st, x.Index)
			if *st == nil {
				return TFalse
			}
			s, ok := v.(*SliceV)
			if !ok {
				fail("index into %T", v)
			}
			q := u.seqOf(*st, s)
			u.require(*st, "bounds", "index in range", x, And(Ge(i, IntC(0)), Lt(i, q.length())))
			r := aliased(q.at(i))
			if p, ok := r.(*Poison); ok {
				fail("%s", p.why)
			}
			return r
		case *types.Array:
			return u.load(*st, u.addr(fr, st, x), x)
		}
		fail("index of %s", info.TypeOf(x.X))
	case *ast.SliceExpr:
		return u.evalSlice(fr, st, x)
	case *ast.CallExpr:
		return u.evalCall(fr, st, x)
	case *ast.CompositeLit:
		return u.evalComposite(fr, st, x)
	case *ast.TypeAssertExpr:
		t := u.evalMulti(fr, st, x)
		u.require(*st, "assert", "type assertion holds", x, t.vs[1].(*Term))
		return t.vs[0]
	}
	fail("expression %T", e)
	return nil
}

func (u *Unit) receiver(fr *Frame, st **State, x *ast.SelectorExpr, sel *types.Selection) Value {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	if types.IsInterface(sel.Recv()) {
		return u.eval(fr, st, x.X)
	}
	wantPtr := false
	if sig.Recv() != nil {
		_, wantPtr = sig.Recv().Type().(*types.Pointer)
	}
	path := sel.Index()[:len(sel.Index())-1]
	t := u.v.p.info.TypeOf(x.X)
	_, havePtr := t.Underlying().(*types.Pointer)
	if len(path) == 0 {
		if havePtr {
			v := u.eval(fr, st, x.X)
			if *st == nil || wantPtr {
				return v
			}
			return u.load(*st, v.(*PtrV), x)
		}
		if wantPtr {
			return u.addr(fr, st, x.X)
		}
		return u.eval(fr, st, x.X)
	}
	p, ft := u.selectPlace(fr, st, x, path)
	_, isPtr := ft.Underlying().(*types.Pointer)
	if types.IsInterface(ft) {
		return u.load(*st, p, x)
	}
	if isPtr {
		v := u.load(*st, p, x)
		if wantPtr {
			return v
		}
		return u.load(*st, v.(*PtrV), x)
	}
	if wantPtr {
		return p
	}
	return u.load(*st, p, x)
}

func (u *Unit) evalBinary(fr *Frame, st **State, x *ast.BinaryExpr) Value {
	info := u.v.p.info
	switch x.Op {
	case token.LAND, token.LOR:
		a := u.evalBool(fr, st, x.X)
		if *st == nil {
			return TFalse
		}
		right := func(s *State) Value {
			p := &s
			orig := s
			r := u.evalBool(fr, p, x.Y)
			if *p == nil {
				orig.heap = nil
				return TFalse
			}
			*orig = **p
			return r
		}
		k := TFalse
		f, g := right, func(*State) Value { return k }
		if x.Op == token.LOR {
			k = TTrue
			f, g = func(*State) Value { return k }, right
		}
		ns, v := u.branch(*st, a, f, g)
		*st = ns
		if ns == nil {
			return TFalse
		}
		return v
	}
	a := u.eval(fr, st, x.X)
	if *st == nil {
		return TFalse
	}
	b := u.eval(fr, st, x.Y)
	if *st == nil {
		return TFalse
	}
	switch x.Op {
	case token.EQL:
		return u.equal(*st, a, b)
	case token.NEQ:
		return Not(u.equal(*st, a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		fail("operands of %s", x.Op)
	}
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ta.sort == SStr {
			return UF("strcmp:"+x.Op.String(), SBool, ta, tb)
		}
		switch x.Op {
		case token.LSS:
			return Lt(ta, tb)
		case token.LEQ:
			return Le(ta, tb)
		case token.GTR:
			return Gt(ta, tb)
		default:
			return Ge(ta, tb)
		}
	}
	return u.arith(*st, x.Op, ta, tb, info.TypeOf(x), x)
}

// equal compares two values of any modelled kind.
func (u *Unit) equal(st *State, a, b Value) *Term {
	if o, ok := b.(*OpaqueV); ok && o.typ == nil && o.isnil.isTrue() {
		a, b = b, a
	}
	if o, ok := a.(*OpaqueV); ok && o.typ == nil && o.isnil.isTrue() {
		if s, ok := b.(*SliceV); ok && !s.isnil.isTrue() && !s.isnil.isFalse() {
			// a nil list is empty
			u.factAt(st, Implies(s.isnil, Eq(u.seqOf(st, s).length(), IntC(0))))
		}
		return u.isNil(b)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case TimeV:
		if y, ok := b.(TimeV); ok {
			return And(Eq(x.ns, y.ns), Eq(x.loc, y.loc))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := TTrue
			for i := range x.f {
				r = And(r, u.equal(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			r := TFalse
			for _, p := range x.alts {
				for _, q := range y.alts {
					r = Or(r, And(p.g, q.g, placeEqT(p.place, q.place)))
				}
			}
			return r
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok {
			return Eq(x.id, y.id)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := TFalse
			for _, p := range x.alts {
				for _, q := range y.alts {
					if sameType(p.typ, q.typ) {
						c := TTrue
						if p.typ != nil {
							c = u.equal(st, p.v, q.v)
						}
						r = Or(r, And(p.g, q.g, c))
					}
				}
			}
			return r
		}
	}
	for _, v := range []Value{a, b} {
		if p, ok := v.(*Poison); ok {
			fail("comparison of a %s", p.why)
		}
	}
	fail("comparison of %T and %T", a, b)
	return nil
}

func placeEqT(a, b *Place) *Term {
	if a == nil || b == nil {
		return BoolC(a == b)
	}
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return TFalse
	}
	r := TTrue
	for i := range a.path {
		x, y := a.path[i], b.path[i]
		if (x.idx == nil) != (y.idx == nil) {
			return TFalse
		}
		if x.idx != nil {
			r = And(r, Eq(x.idx, y.idx))
		} else if x.field != y.field {
			return TFalse
		}
	}
	return r
}

func (u *Unit) isNil(v Value) *Term {
	switch x := v.(type) {
	case *PtrV:
		r := TFalse
		for _, a := range x.alts {
			if a.place == nil {
				r = Or(r, a.g)
			}
		}
		return r
	case *OpaqueV:
		return x.isnil
	case *IfaceV:
		r := TFalse
		for _, a := range x.alts {
			if a.typ == nil {
				r = Or(r, a.g)
			}
		}
		return r
	case *SliceV:
		return x.isnil
	case *FuncV:
		if x.isnil != nil {
			return x.isnil
		}
		return TFalse
	case *MapV:
		return TFalse
	}
	fail("nil comparison of %T", v)
	return nil
}

var intRange = map[types.BasicKind][2]*big.Int{}

func init() {
	b := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
	for _, k := range []types.BasicKind{types.Int, types.Int64} {
		intRange[k] = [2]*big.Int{b("-9223372036854775808"), b("9223372036854775807")}
	}
	intRange[types.Int32] = [2]*big.Int{b("-2147483648"), b("2147483647")}
	intRange[types.Int16] = [2]*big.Int{b("-32768"), b("32767")}
	intRange[types.Int8] = [2]*big.Int{b("-128"), b("127")}
	for _, k := range []types.BasicKind{types.Uint, types.Uint64, types.Uintptr} {
		intRange[k] = [2]*big.Int{b("0"), b("18446744073709551615")}
	}
	intRange[types.Uint32] = [2]*big.Int{b("0"), b("4294967295")}
	intRange[types.Uint16] = [2]*big.Int{b("0"), b("65535")}
	intRange[types.Uint8] = [2]*big.Int{b("0"), b("255")}
}

func rangeOf(t types.Type) (lo, hi *Term, ok bool) {
	if t == nil {
		return
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	r, ok := intRange[b.Kind()]
	if !ok {
		return nil, nil, false
	}
	return BigC(r[0]), BigC(r[1]), true
}

func (u *Unit) checkRange(st *State, t *Term, typ types.Type, at ast.Node) {
	if t.sort != SInt || u.spec > 0 {
		return
	}
	lo, hi, ok := rangeOf(typ)
	if !ok {
		return
	}
	if v := st.env.iv(t); v.within(lo.rat, hi.rat) {
		u.v.stats.rangeByInterval++
		return
	}
	u.require(st, "overflow", "integer result fits its type", at, And(Le(lo, t), Le(t, hi)))
}

func (u *Unit) arith(st *State, op token.Token, a, b *Term, t types.Type, at ast.Node) *Term {
	if a.sort == SStr {
		if op == token.ADD {
			return concat(a, b)
		}
		fail("string operator %s", op)
	}
	if t != nil && isFloat(t) || a.sort == SReal || b.sort == SReal {
		if a.sort == SInt {
			a = ToReal(a)
		}
		if b.sort == SInt {
			b = ToReal(b)
		}
		var x *Term
		switch op {
		case token.ADD:
			x = Add(a, b)
		case token.SUB:
			x = Sub(a, b)
		case token.MUL:
			x = Mul(a, b)
		case token.QUO:
			if !b.isNum() {
				u.require(st, "div", "divisor is not zero", at, Not(Eq(b, RealC(0))))
			} else if b.rat.Sign() == 0 {
				fail("division by constant zero")
			}
			x = RDiv(a, b)
		default:
			fail("float operator %s", op)
		}
		if bk, ok := t.Underlying().(*types.Basic); ok && bk.Kind() == types.Float32 {
			fail("float32 arithmetic")
		}
		return u.fl.round(st, x, at)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = Add(a, b)
	case token.SUB:
		r = Sub(a, b)
	case token.MUL:
		r = Mul(a, b)
	case token.QUO, token.REM:
		if !b.isNum() {
			u.require(st, "div", "divisor is not zero", at, Not(Eq(b, IntC(0))))
		} else if b.rat.Sign() == 0 {
			fail("division by constant zero")
		}
		q, m := u.truncDiv(st, a, b)
		if op == token.QUO {
			r = q
		} else {
			r = m
		}
	case token.SHL:
		if n, ok := b.intVal(); ok && n >= 0 && n < 63 {
			r = MulC(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))), a)
		}
	case token.SHR:
		if n, ok := b.intVal(); ok && n >= 0 && n < 63 {
			r = FDiv(a, BigC(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		}
	case token.AND:
		// x & (2^k - 1) on a non-negative value
		if n, ok := b.intVal(); ok && n > 0 && n&(n+1) == 0 {
			r = FMod(a, IntC(n+1))
		}
	}
	if r == nil {
		fail("integer operator %s", op)
	}
	u.checkRange(st, r, t, at)
	return r
}

// truncDiv is Go's truncated division in terms of floor division.
func (u *Unit) truncDiv(st *State, a, b *Term) (q, m *Term) {
	nb := b
	sb := 0
	if b.isNum() {
		sb = b.rat.Sign()
	} else if v := st.env.iv(b); v.lo != nil && v.lo.Sign() > 0 {
		sb = 1
	} else if v.hi != nil && v.hi.Sign() < 0 {
		sb = -1
	}
	div := func(x, y *Term) *Term { return FDiv(x, y) }
	if sb == 0 {
		// sign unknown: |a| div |b| with the signs put back
		ab := Ite(Ge(b, IntC(0)), b, Neg(b))
		aa := Ite(Ge(a, IntC(0)), a, Neg(a))
		d := div(aa, ab)
		q = Ite(Eq(Ge(a, IntC(0)), Ge(b, IntC(0))), d, Neg(d))
		return q, Sub(a, Mul(b, q))
	}
	if sb < 0 {
		nb = Neg(b)
	}
	iv := st.env.iv(a)
	switch {
	case iv.lo != nil && iv.lo.Sign() >= 0:
		q, m = div(a, nb), FMod(a, nb)
	case iv.hi != nil && iv.hi.Sign() <= 0:
		q, m = Neg(div(Neg(a), nb)), Neg(FMod(Neg(a), nb))
	default:
		c := Ge(a, IntC(0))
		q = Ite(c, div(a, nb), Neg(div(Neg(a), nb)))
		m = Ite(c, FMod(a, nb), Neg(FMod(Neg(a), nb)))
	}
	if sb < 0 {
		q = Neg(q)
	}
	return q, m
}

func (u *Unit) evalComposite(fr *Frame, st **State, x *ast.CompositeLit) Value {
	info := u.v.p.info
	t := info.TypeOf(x)
	if isBuilder(t) {
		return StrC("")
	}
	elem := func(e ast.Expr, et types.Type) Value {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			if pt, ok := et.Underlying().(*types.Pointer); ok {
				_ = pt
				v := u.evalComposite(fr, st, cl)
				o := u.newObj("lit", pt.Elem())
				(*st).heap[o] = v
				return single(&Place{obj: o})
			}
		}
		return u.convertTo(*st, u.eval(fr, st, e), et)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok { // &T{} elided in a map or slice literal
		t = pt.Elem()
	}
	switch ut := t.Underlying().(type) {
	case *types.Struct:
		s := u.zero(t).(*StructV)
		s = &StructV{s.typ, append([]Value(nil), s.f...)}
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				for j := 0; j < ut.NumFields(); j++ {
					if ut.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						s.f[j] = elem(kv.Value, ut.Field(j).Type())
					}
				}
			} else {
				s.f[i] = elem(e, ut.Field(i).Type())
			}
			if *st == nil {
				return TFalse
			}
		}
		return s
	case *types.Slice:
		q := u.elements(st, x, ut.Elem(), -1, elem)
		if *st == nil {
			return TFalse
		}
		return u.newSlice(*st, t, q)
	case *types.Map:
		m := &MapV{typ: t}
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			k := u.evalTerm(fr, st, kv.Key)
			m.keys = append(m.keys, k)
			m.vals = append(m.vals, elem(kv.Value, ut.Elem()))
		}
		return closedMap(u, m, ut)
	case *types.Array:
		q := u.elements(st, x, ut.Elem(), ut.Len(), elem)
		if *st == nil {
			return TFalse
		}
		for i := range q.parts {
			q.parts[i].v = u.nestSlices(*st, q.parts[i].v)
		}
		return q
	}
	fail("literal of %s", t)
	return nil
}

// elements: those of a list or array literal, in place; n < 0 for a list.
func (u *Unit) elements(st **State, x *ast.CompositeLit, et types.Type, n int64, elem func(ast.Expr, types.Type) Value) *Seq {
	vals := map[int64]Value{}
	next, end := int64(0), max(n, 0)
	for _, e := range x.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			k, exact := constant.Int64Val(constant.ToInt(u.v.p.info.Types[kv.Key].Value))
			if !exact {
				fail("index of a literal")
			}
			next, e = k, kv.Value
		}
		v := elem(e, et)
		if *st == nil {
			return nil
		}
		vals[next] = v
		next++
		end = max(end, next)
	}
	if end > 100000 {
		fail("very long literal")
	}
	q := &Seq{}
	for i := int64(0); i < end; i++ {
		v, ok := vals[i]
		if !ok {
			v = u.zero(et)
		}
		q.parts = append(q.parts, item(TTrue, v))
	}
	return q
}

func (u *Unit) newSlice(st *State, t types.Type, q *Seq) *SliceV {
	o := u.newObj("slice", t)
	for i := range q.parts {
		if !q.parts[i].isGen() {
			q.parts[i].v = u.nestSlices(st, q.parts[i].v)
		}
	}
	st.heap[o] = q
	return &SliceV{typ: t, isnil: TFalse, obj: o}
}

func closedMap(u *Unit, m *MapV, mt *types.Map) *MapV {
	idx := map[*Term]int{}
	for i, k := range m.keys {
		idx[k] = i
	}
	m.dom = func(k *Term) *Term {
		if k.op == OConst || k.op == OStrC {
			_, ok := idx[k]
			return BoolC(ok)
		}
		r := TFalse
		for _, x := range m.keys {
			r = Or(r, Eq(k, x))
		}
		return r
	}
	m.val = func(k *Term) Value {
		if i, ok := idx[k]; ok {
			return m.vals[i]
		}
		r := Value(u.zero(mt.Elem()))
		for i := len(m.keys) - 1; i >= 0; i-- {
			r = mergeV(Eq(k, m.keys[i]), m.vals[i], r)
		}
		return r
	}
	return m
}

func mapSet(m *MapV, k *Term, v Value) *MapV {
	return &MapV{typ: m.typ, tag: "set",
		dom: func(x *Term) *Term { return Or(Eq(x, k), m.dom(x)) },
		val: func(x *Term) Value { return mergeV(Eq(x, k), v, m.val(x)) }}
}

func (u *Unit) mapGet(m Value, k *Term, mt *types.Map) (Value, *Term) {
	x, ok := m.(*MapV)
	if !ok {
		if o, isop := m.(*OpaqueV); isop && o.isnil.isTrue() {
			return u.zero(mt.Elem()), TFalse
		}
		fail("map value %T", m)
	}
	d := x.dom(k)
	if d.isFalse() {
		return u.zero(mt.Elem()), d
	}
	return mergeV(d, x.val(k), u.zero(mt.Elem())), d
}

func (u *Unit) evalSlice(fr *Frame, st **State, x *ast.SliceExpr) Value {
	v := u.eval(fr, st, x.X)
	s, ok := v.(*SliceV)
	if !ok {
		if t, ok := v.(*Term); ok && t.sort == SStr {
			var a, b *Term = IntC(0), nil
			if x.Low != nil {
				a = u.evalTerm(fr, st, x.Low)
			}
			if x.High != nil {
				b = u.evalTerm(fr, st, x.High)
			} else {
				b = strlen(t)
			}
			u.require(*st, "bounds", "substring in range", x, And(Le(IntC(0), a), Le(a, b), Le(b, strlen(t))))
			return UF("substr", SStr, t, a, b)
		}
		fail("slicing of %T", v)
	}
	q := u.seqOf(*st, s)
	if x.Low == nil && x.High == nil {
		return s
	}
	lo := IntC(0)
	if x.Low != nil {
		lo = u.evalTerm(fr, st, x.Low)
	}
	n := q.length()
	hi := n
	if x.High != nil {
		hi = u.evalTerm(fr, st, x.High)
	}
	u.require(*st, "bounds", "slice bounds in range", x, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)))
	r := &Seq{}
	r.parts = append(r.parts, Part{n: Sub(hi, lo), b: func(i *Term) []Part { return []Part{item(TTrue, q.at(Add(i, lo)))} }})
	if a, ok := lo.intVal(); ok && a == 0 {
		if b, ok := hi.intVal(); ok && b == 0 {
			r.parts = nil
		}
	}
	o := u.newObj("reslice", s.typ)
	o.shared = true
	if s.obj != nil {
		o.bases = []*Obj{s.obj}
	} else {
		u.fromNested = true
	}
	(*st).heap[o] = r
	return &SliceV{typ: s.typ, isnil: And(s.isnil), obj: o}
}

// ---- zero, symbolic and converted values

const zeroTimeNS = "-62135596800000000000"

var locUTC = UF("UTC", SLoc)

func (u *Unit) zero(t types.Type) Value {
	if isTime(t) {
		r, _ := new(big.Rat).SetString(zeroTimeNS)
		return TimeV{Num(r, SInt), locUTC}
	}
	if isBuilder(t) {
		return StrC("")
	}
	if isOnce(t) {
		return TFalse
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return TFalse
		case x.Info()&types.IsInteger != 0:
			return IntC(0)
		case x.Info()&types.IsFloat != 0:
			return RealC(0)
		case x.Info()&types.IsString != 0:
			return StrC("")
		case x.Kind() == types.UntypedNil:
			return &OpaqueV{isnil: TTrue, id: UF("nil", "Opq")}
		}
	case *types.Struct:
		s := &StructV{t, make([]Value, x.NumFields())}
		for i := range s.f {
			s.f[i] = u.zero(x.Field(i).Type())
		}
		return s
	case *types.Pointer:
		return &PtrV{[]PtrAlt{{TTrue, nil}}}
	case *types.Slice:
		return &SliceV{typ: t, isnil: TTrue, inline: true, inl: &Seq{}}
	case *types.Interface:
		if u.closedWorld(t) != nil || fileIface(t) {
			return &IfaceV{typ: t, alts: []IfaceAlt{{TTrue, nil, nil}}}
		}
		return &OpaqueV{typ: t, isnil: TTrue, id: UF("nil", "Opq")}
	case *types.Map:
		return &MapV{typ: t, dom: func(*Term) *Term { return TFalse }, val: func(*Term) Value { return u.zero(x.Elem()) }}
	case *types.Signature:
		return &FuncV{isnil: TTrue}
	case *types.Array:
		el := x.Elem()
		q := &Seq{}
		if x.Len() <= 64 {
			for i := int64(0); i < x.Len(); i++ {
				q.parts = append(q.parts, item(TTrue, u.zero(el)))
			}
			return q
		}
		q.parts = []Part{{n: IntC(x.Len()), b: func(*Term) []Part { return []Part{item(TTrue, u.zero(el))} }}}
		return q
	}
	fail("zero value of %s", t)
	return nil
}

// closedWorld lists the package's own types that implement an interface of the package.
func (u *Unit) closedWorld(t types.Type) []types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != u.v.p.pkg {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []types.Type
	sc := u.v.p.pkg.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			r = append(r, tn.Type())
		}
	}
	return r
}

func (u *Unit) symbolic(st *State, name string, t types.Type, args ...*Term) Value {
	mk := func(n string, s Sort) *Term {
		if len(args) == 0 {
			return Var(n, s)
		}
		return UF(n, s, args...)
	}
	if isTime(t) {
		if k := strings.Index(name, "[]."); k >= 0 && u.utcNames[name[:k]] && strings.HasSuffix(name, ".Date") && strings.HasPrefix(name, "result of ") && strings.Count(name[k+3:], ".") <= 1 {
			return TimeV{mk(name+".ns", SInt), locUTC}
		}
		if u.utcNames[name] || u.utcNames[strings.TrimSuffix(name, "[].Date")] || len(args) == 0 && strings.Count(name, ".") == 2 && u.utcNames[name[:strings.IndexByte(name, '.')]] && strings.HasSuffix(name, ".Date") {
			return TimeV{mk(name+".ns", SInt), locUTC}
		}
		return TimeV{mk(name+".ns", SInt), mk(name+".loc", SLoc)}
	}
	if isOnce(t) {
		return mk(name+".done", SBool)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return mk(name, SBool)
		case x.Info()&types.IsInteger != 0:
			v := mk(name, SInt)
			if lo, hi, ok := rangeOf(t); ok {
				if len(args) == 0 {
					st.env.set(v, Iv{lo.rat, hi.rat})
					u.fact(And(Le(lo, v), Le(v, hi)))
				} else {
					ufRange[name] = func(*Term, *BEnv) Iv { return Iv{lo.rat, hi.rat} }
				}
			}
			return v
		case x.Info()&types.IsFloat != 0:
			v := mk(name, SReal)
			u.fl.isFloat[v] = true
			return v
		case x.Info()&types.IsString != 0:
			return mk(name, SStr)
		}
	case *types.Struct:
		s := &StructV{t, make([]Value, x.NumFields())}
		for i := range s.f {
			s.f[i] = u.symbolic(st, name+"."+x.Field(i).Name(), x.Field(i).Type(), args...)
		}
		return s
	case *types.Pointer:
		if len(args) > 0 {
			return &OpaqueV{typ: t, isnil: mk(name+".isnil", SBool), id: mk(name+".ptr", "Opq")}
		}
		o := u.newObj("*"+name, x.Elem())
		o.param = true
		st.heap[o] = u.symbolic(st, name, x.Elem())
		return single(&Place{obj: o})
	case *types.Slice:
		n := mk(name+".len", SInt)
		if len(args) == 0 {
			st.env.set(n, Iv{rat0, big.NewRat(1<<40, 1)})
			u.fact(And(Ge(n, IntC(0)), Le(n, IntC(1<<40))))
		} else {
			ufRange[name+".len"] = func(*Term, *BEnv) Iv { return Iv{rat0, big.NewRat(1<<40, 1)} }
		}
		el := x.Elem()
		q := &Seq{[]Part{{n: n, b: func(i *Term) []Part {
			return []Part{item(TTrue, u.symbolic(st, name+"[]", el, append(append([]*Term(nil), args...), i)...))}
		}}}}
		isnil := mk(name+".isnil", SBool)
		if len(args) > 0 {
			return &SliceV{typ: t, isnil: isnil, inline: true, inl: q}
		}
		u.fact(Implies(isnil, Eq(n, IntC(0))))
		o := u.newObj(name, t)
		o.param = true
		st.heap[o] = q
		return &SliceV{typ: t, isnil: isnil, obj: o}
	case *types.Interface:
		if ts := u.closedWorld(t); ts != nil {
			v := &IfaceV{typ: t}
			k := mk(name+".kind", SInt)
			for i, ct := range ts {
				g := Eq(k, IntC(int64(i)))
				if i == len(ts)-1 {
					g = TTrue
					for _, a := range v.alts {
						g = And(g, Not(a.g))
					}
				}
				v.alts = append(v.alts, IfaceAlt{g, ct, u.symbolic(st, name+"."+ct.(*types.Named).Obj().Name(), ct, args...)})
			}
			return v
		}
		return &OpaqueV{typ: t, isnil: mk(name+".isnil", SBool), id: mk(name+".id", "Opq")}
	case *types.Map:
		ks := sortOf(x.Key())
		_ = ks
		m := &MapV{typ: t, tag: name}
		el := x.Elem()
		m.dom = func(k *Term) *Term { return UF(name+".has", SBool, append(append([]*Term(nil), args...), k)...) }
		m.val = func(k *Term) Value {
			return u.symbolic(st, name+".at", el, append(append([]*Term(nil), args...), k)...)
		}
		return m
	case *types.Signature:
		return &OpaqueV{typ: t, isnil: mk(name+".isnil", SBool), id: mk(name+".id", "Opq")}
	case *types.Array:
		el := x.Elem()
		q := &Seq{[]Part{{n: IntC(x.Len()), b: func(i *Term) []Part {
			return []Part{item(TTrue, u.symbolic(st, name+"[]", el, append(append([]*Term(nil), args...), i)...))}
		}}}}
		return q
	}
	fail("symbolic value of %s", t)
	return nil
}

func sortOf(t types.Type) Sort {
	switch {
	case isInt(t):
		return SInt
	case isFloat(t):
		return SReal
	case isString(t):
		return SStr
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return SBool
	}
	return "Opq"
}

// convertTo adapts a value to a static type (untyped constants, nil, interfaces).
func (u *Unit) convertTo(st *State, v Value, t types.Type) Value {
	if t == nil {
		return v
	}
	switch x := v.(type) {
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 && u.spec == 0 {
			fail("float32 value")
		}
		if x.sort == SInt && isFloat(t) {
			return u.fl.round(st, ToReal(x), nil)
		}
		if x.sort == SReal && isFloat(t) && x.isNum() {
			return Num(roundRat(x.rat), SReal)
		}
		if x.sort == SReal && isInt(t) && x.isNum() && x.rat.IsInt() {
			return Num(x.rat, SInt)
		}
	case *OpaqueV:
		if x.typ == nil && x.isnil.isTrue() {
			return u.zero(t)
		}
	case *PtrV:
		if len(x.alts) == 1 && x.alts[0].place == nil {
			return u.zero(t)
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		switch v.(type) {
		case *IfaceV, *OpaqueV:
			return v
		}
		ct := valueType(v)
		if u.closedWorld(t) != nil && ct == nil {
			fail("dynamic type of %T", v)
		}
		if u.closedWorld(t) != nil || fileIface(t) && ct != nil {
			return &IfaceV{typ: t, alts: []IfaceAlt{{TTrue, ct, v}}}
		}
		return &OpaqueV{typ: t, isnil: TFalse, id: u.fresh("boxed", "Opq")}
	}
	if s, ok := v.(*StructV); ok && !sameType(s.typ, t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return &StructV{t, s.f}
		}
	}
	if s, ok := v.(*SliceV); ok && !sameType(s.typ, t) {
		c := *s
		c.typ = t
		return &c
	}
	return v
}

func valueType(v Value) types.Type {
	switch x := v.(type) {
	case *StructV:
		return x.typ
	case *SliceV:
		return x.typ
	case *PtrV:
		var t types.Type
		for _, a := range x.alts {
			if a.place == nil {
				continue // a nil pointer of the same type
			}
			p := placeType(a.place)
			if p == nil || t != nil && !types.Identical(t, p) {
				return nil
			}
			t = p
		}
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	return nil
}

func placeType(p *Place) types.Type {
	t := p.obj.typ
	for _, e := range p.path {
		if t == nil {
			return nil
		}
		switch x := t.Underlying().(type) {
		case *types.Struct:
			if e.idx != nil || e.field >= x.NumFields() {
				return nil
			}
			t = x.Field(e.field).Type()
		case *types.Slice:
			t = x.Elem()
		case *types.Array:
			t = x.Elem()
		default:
			return nil
		}
	}
	return t
}

// fileIface: interfaces of the standard library whose dynamic types are kept
// (a file system, an open file, what describes a file).
func fileIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "net/http.FileSystem", "net/http.File", "os.FileInfo", "io/fs.FileInfo", "io/fs.FS", "io/fs.File":
		return true
	}
	return false
}

func concat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		if t.op == OUF && t.name == "concat" {
			ps = append(ps, t.args...)
		} else {
			ps = append(ps, t)
		}
	}
	var out []*Term
	for _, p := range ps {
		if p.op == OStrC && p.name == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].op == OStrC && p.op == OStrC {
			out[n-1] = StrC(out[n-1].name + p.name)
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return StrC("")
	case 1:
		return out[0]
	}
	return UF("concat", SStr, out...)
}

func strlen(t *Term) *Term {
	if t.op == OStrC {
		return IntC(int64(len(t.name)))
	}
	if t.op == OIte {
		return Ite(t.args[0], strlen(t.args[1]), strlen(t.args[2]))
	}
	return UF("strlen", SInt, t)
}

func init() {
	ufRange["strlen"] = func(*Term, *BEnv) Iv { return Iv{rat0, big.NewRat(1<<50, 1)} }
}
