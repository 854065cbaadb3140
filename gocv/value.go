package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"reflect"
)

// Symbolic values. Scalars are *Term.
type Value interface{}

type StructV struct {
	typ types.Type
	f   []Value
}

// TimeV is a time.Time: nanoseconds since 1970-01-01 UTC and a location.
type TimeV struct{ ns, loc *Term }

type TupleV struct{ vs []Value }

type FuncV struct {
	lit   *ast.FuncLit
	fn    *types.Func
	recv  Value // bound receiver (method value)
	iface bool  // a method of an interface
	mexpr bool  // a method expression: the receiver is the first argument
	deref bool  // a method of T called as one of *T
	fr    *Frame
	alts  []FuncAlt
	isnil *Term
}
type FuncAlt struct {
	g *Term
	f *FuncV
}

// PtrV is a guarded choice of places; exactly one guard holds.
type PtrV struct{ alts []PtrAlt }
type PtrAlt struct {
	g     *Term
	place *Place // nil: nil pointer
}

// Place is an object with a path into it.
type Place struct {
	obj  *Obj
	path []PElem
}
type PElem struct {
	field int
	idx   *Term // non-nil: sequence element
}

type Obj struct {
	id     int
	name   string
	typ    types.Type
	global bool
	param  bool
	shared bool   // backing array that another slice value may alias
	key    *Term  // of an entry of a package map of objects
	bases  []*Obj // what a backing array was appended to: it may share theirs
	prefix *Term  // how much of it may be theirs
}

// SliceV refers to a backing object whose heap value is a Seq; an inline slice
// (stored inside another sequence's element) carries its sequence itself.
type SliceV struct {
	typ    types.Type
	isnil  *Term
	obj    *Obj
	inl    *Seq
	inline bool
	alias  bool // read out of a list whose element keeps it
}

// IfaceV is a guarded choice of dynamic types. A nil typ is the nil interface.
type IfaceV struct {
	typ  types.Type
	alts []IfaceAlt
}
type IfaceAlt struct {
	g   *Term
	typ types.Type
	v   Value
}

// OpaqueV is a value about which nothing is known but whether it is nil.
type OpaqueV struct {
	typ   types.Type
	isnil *Term
	id    *Term
}

// MapV has symbolic domain and values, plus updates.
type MapV struct {
	typ  types.Type
	dom  func(k *Term) *Term
	val  func(k *Term) Value
	keys []*Term // known constant keys when closed
	vals []Value
	tag  string
}

// Seq is a concatenation of guarded items and comprehensions.
type Seq struct{ parts []Part }
type Part struct {
	g *Term // item guard
	v Value // item value
	n *Term // comprehension: for i in 0..n-1 concatenate body(i)
	b func(i *Term) []Part
	c *Term // cached count
}

type State struct {
	heap map[*Obj]Value
	pc   []*Term
	env  *BEnv

	defers []*deferral // calls to make on return, of all active functions
}

type deferral struct {
	fr   *Frame
	call func(**State) Value
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, append([]*Term(nil), s.pc...), s.env, s.defers}
}

func (s *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
	s.env = newBEnv(s.env)
	s.env.assume(t)
	// substitution facts from equalities are left to the solver
}

func (s *State) dead() bool {
	for _, t := range s.pc {
		if t.isFalse() {
			return true
		}
	}
	return false
}

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- merging

func veq(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !veq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TimeV:
		y, ok := b.(TimeV)
		return ok && x == y
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !placeEq(x.alts[i].place, y.alts[i].place) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !veq(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.isnil == y.isnil && x.obj == y.obj && x.inl == y.inl
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return ok && x.isnil == y.isnil && x.id == y.id
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameType(x.alts[i].typ, y.alts[i].typ) || !veq(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *LogV:
		y, ok := b.(*LogV)
		return ok && (x == y || x.sorted == nil && y.sorted == nil && veq(x.v, y.v))
	case nil:
		return b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return a == b
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return types.Identical(a, b)
}

func placeEq(a, b *Place) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// mergeV is "if c then a else b".
func mergeV(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if veq(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{x.typ, make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = mergeV(c, x.f[i], y.f[i])
			}
			return r
		}
	case TimeV:
		if y, ok := b.(TimeV); ok {
			return TimeV{Ite(c, x.ns, y.ns), Ite(c, x.loc, y.loc)}
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.vs) == len(y.vs) {
			r := &TupleV{make([]Value, len(x.vs))}
			for i := range x.vs {
				r.vs[i] = mergeV(c, x.vs[i], y.vs[i])
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			r := &PtrV{}
			add := func(g *Term, p *Place) {
				if g.isFalse() {
					return
				}
				for i := range r.alts {
					if placeEq(r.alts[i].place, p) {
						r.alts[i].g = Or(r.alts[i].g, g)
						return
					}
				}
				r.alts = append(r.alts, PtrAlt{g, p})
			}
			for _, p := range x.alts {
				add(And(c, p.g), p.place)
			}
			for _, p := range y.alts {
				add(And(Not(c), p.g), p.place)
			}
			return r
		}
	case *OpaqueV:
		switch y := b.(type) {
		case *OpaqueV:
			return &OpaqueV{x.typ, Ite(c, x.isnil, y.isnil), Ite(c, x.id, y.id)}
		case *IfaceV:
			return mergeV(c, a, ifaceToOpaque(y))
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := &IfaceV{typ: x.typ}
			add := func(p IfaceAlt) {
				if p.g.isFalse() {
					return
				}
				for i := range r.alts {
					if sameType(r.alts[i].typ, p.typ) {
						r.alts[i].v = mergeV(p.g, p.v, r.alts[i].v)
						r.alts[i].g = Or(r.alts[i].g, p.g)
						return
					}
				}
				r.alts = append(r.alts, p)
			}
			for _, p := range x.alts {
				add(IfaceAlt{And(c, p.g), p.typ, p.v})
			}
			for _, p := range y.alts {
				add(IfaceAlt{And(Not(c), p.g), p.typ, p.v})
			}
			return r
		}
		if y, ok := b.(*OpaqueV); ok {
			return mergeV(c, ifaceToOpaque(x), y)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.inline || y.inline {
				if x.inline && y.inline {
					return &SliceV{typ: x.typ, isnil: Ite(c, x.isnil, y.isnil), inl: mergeSeq(c, x.inl, y.inl), inline: true, alias: x.alias || y.alias}
				}
			}
			return &mergedSlice{c, x, y}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			return &FuncV{alts: []FuncAlt{{c, x}, {Not(c), y}}}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x.tag == "" || y != nil {
			xx, yy := x, y
			return &MapV{typ: x.typ, tag: "merge", dom: func(k *Term) *Term { return Ite(c, xx.dom(k), yy.dom(k)) },
				val: func(k *Term) Value { return mergeV(c, xx.val(k), yy.val(k)) }}
		}
	case *Seq:
		if y, ok := b.(*Seq); ok {
			return mergeSeq(c, x, y)
		}
	case *LogV:
		if y, ok := b.(*LogV); ok && x.sorted == nil && y.sorted == nil {
			return &LogV{v: mergeV(c, x.v, y.v)}
		}
	case *Poison:
		return a
	}
	if _, ok := b.(*Poison); ok {
		return b
	}
	return &Poison{fmt.Sprintf("merge of %T and %T", a, b)}
}

// Poison marks a value that could not be represented; using it is unsupported.
type Poison struct{ why string }

// mergedSlice is resolved by mergeStates, which can allocate a joined backing.
type mergedSlice struct {
	c    *Term
	a, b *SliceV
}

var mixed int

func ifaceToOpaque(x *IfaceV) *OpaqueV {
	n := TFalse
	mixed++
	id := Var(fmt.Sprint("opaque:mixed!", mixed), "Opq")
	for _, a := range x.alts {
		if a.typ == nil {
			n = Or(n, a.g)
		} else if o, ok := a.v.(*OpaqueV); ok {
			id = Ite(a.g, o.id, id)
		}
	}
	return &OpaqueV{x.typ, n, id}
}

// ---- sequences

func item(g *Term, v Value) Part { return Part{g: g, v: v} }

func (p *Part) isGen() bool { return p.b != nil }

// simple reports a comprehension that yields exactly one item per index.
func (p *Part) simple() (func(i *Term) Value, bool) {
	if p.b == nil {
		return nil, false
	}
	i := Var("?simple", SInt)
	ps := p.b(i)
	if len(ps) == 1 && !ps[0].isGen() && ps[0].g.isTrue() {
		return func(i *Term) Value { return p.b(i)[0].v }, true
	}
	return nil, false
}

func (p *Part) count() *Term {
	if !p.isGen() {
		return Ite(p.g, IntC(1), IntC(0))
	}
	if _, ok := p.simple(); ok {
		return p.n
	}
	if p.c == nil {
		// the count of a filtered comprehension is named by its structure
		p.c = UF("count:"+partKey(*p), SInt, partFree(*p)...)
	}
	return p.c
}

func (s *Seq) length() *Term {
	if logsInUse && logged(s.parts) {
		fail("length of a list known only by the calls that made it")
	}
	return s.rawLength()
}

func (s *Seq) rawLength() *Term {
	l := IntC(0)
	for i := range s.parts {
		l = Add(l, s.parts[i].count())
	}
	return l
}

// at gives the element at index i (assumed in range).
func (s *Seq) at(i *Term) Value {
	// a fixed position before anything of unknown length
	if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(s.parts)) {
		fixed := true
		for k := int64(0); k <= n && fixed; k++ {
			fixed = !s.parts[k].isGen() && s.parts[k].g.isTrue()
		}
		if fixed {
			return s.parts[n].v
		}
	}
	off := IntC(0)
	type cand struct {
		c *Term
		v Value
	}
	var cs []cand
	for k := range s.parts {
		p := &s.parts[k]
		n := p.count()
		lo := off
		off = Add(off, n)
		in := And(Le(lo, i), Lt(i, off))
		if in.isFalse() {
			continue
		}
		if !p.isGen() {
			cs = append(cs, cand{in, p.v})
			continue
		}
		f, ok := p.simple()
		if !ok {
			if in.isFalse() {
				continue
			}
			return &Poison{"element of a filtered list"}
		}
		cs = append(cs, cand{in, f(Sub(i, lo))})
	}
	if len(cs) == 0 {
		return &Poison{"element of an empty list"}
	}
	v := cs[len(cs)-1].v
	for k := len(cs) - 2; k >= 0; k-- {
		v = mergeV(cs[k].c, cs[k].v, v)
	}
	return v
}

// set replaces the element at index i.
func (s *Seq) set(i *Term, f func(old Value) Value) *Seq {
	r := &Seq{}
	off := IntC(0)
	for k := range s.parts {
		p := s.parts[k]
		n := p.count()
		lo := off
		off = Add(off, n)
		in := And(Le(lo, i), Lt(i, off))
		if in.isFalse() {
			r.parts = append(r.parts, p)
			continue
		}
		if !p.isGen() {
			r.parts = append(r.parts, item(p.g, mergeV(And(p.g, Eq(lo, i)), f(p.v), p.v)))
			continue
		}
		g, ok := p.simple()
		if !ok {
			fail("write into a filtered list")
		}
		r.parts = append(r.parts, Part{n: p.n, b: func(j *Term) []Part {
			old := g(j)
			return []Part{item(TTrue, mergeV(Eq(Add(j, lo), i), f(old), old))}
		}})
	}
	return r
}

func partEq(a, b Part) bool {
	if a.isGen() != b.isGen() {
		return false
	}
	if !a.isGen() {
		return a.g == b.g && veq(a.v, b.v)
	}
	if a.n != b.n {
		return false
	}
	i := Var("?peq", SInt)
	x, y := a.b(i), b.b(i)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !partEq(x[k], y[k]) {
			return false
		}
	}
	return true
}

func mergeSeq(c *Term, a, b *Seq) *Seq {
	if a == b {
		return a
	}
	r := &Seq{}
	i := 0
	for i < len(a.parts) && i < len(b.parts) && partEq(a.parts[i], b.parts[i]) {
		r.parts = append(r.parts, a.parts[i])
		i++
	}
	// pointwise merge of equally shaped parts
	if len(a.parts) == len(b.parts) {
		ok := true
		var m []Part
		for k := i; k < len(a.parts); k++ {
			x, y := a.parts[k], b.parts[k]
			if x.isGen() != y.isGen() {
				ok = false
				break
			}
			if !x.isGen() {
				if x.g != y.g {
					ok = false
					break
				}
				m = append(m, item(x.g, mergeV(c, x.v, y.v)))
				continue
			}
			f, ok1 := x.simple()
			g, ok2 := y.simple()
			if !ok1 || !ok2 || x.n != y.n {
				ok = false
				break
			}
			m = append(m, Part{n: x.n, b: func(j *Term) []Part { return []Part{item(TTrue, mergeV(c, f(j), g(j)))} }})
		}
		if ok {
			r.parts = append(r.parts, m...)
			return r
		}
	}
	guard := func(ps []Part, g *Term) {
		for _, p := range ps {
			if p.isGen() {
				q := p
				n := Ite(g, q.n, IntC(0))
				r.parts = append(r.parts, Part{n: n, b: q.b})
			} else {
				r.parts = append(r.parts, item(And(g, p.g), p.v))
			}
		}
	}
	guard(a.parts[i:], c)
	guard(b.parts[i:], Not(c))
	return r
}

// partKey/partFree name a comprehension by structure with its free terms as
// arguments (used only for the length of filtered lists).
func partKey(p Part) string {
	i := Var("?key", SInt)
	return keyOf([]Part{{n: p.n, b: p.b}}, i, 0)
}
func keyOf(ps []Part, i *Term, d int) string {
	s := ""
	for _, p := range ps {
		if p.isGen() {
			j := Var(fmt.Sprintf("?key%d", d), SInt)
			s += fmt.Sprintf("G(%d){%s}", p.n.id, keyOf(p.b(j), j, d+1))
		} else {
			s += fmt.Sprintf("I(%d)", p.g.id)
		}
	}
	return s
}
func partFree(p Part) []*Term { return nil }
