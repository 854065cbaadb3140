package main

import "math/big"

// Iv is a closed interval; nil means unbounded.
type Iv struct{ lo, hi *big.Rat }

func ivConst(r *big.Rat) Iv { return Iv{r, r} }
func minR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func (a Iv) union(b Iv) Iv { return Iv{minR(a.lo, b.lo), maxR(a.hi, b.hi)} }
func (a Iv) meet(b Iv) Iv {
	r := a
	if r.lo == nil || (b.lo != nil && b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if r.hi == nil || (b.hi != nil && b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}
func (a Iv) scale(k *big.Rat) Iv {
	f := func(x *big.Rat) *big.Rat {
		if x == nil {
			return nil
		}
		return new(big.Rat).Mul(x, k)
	}
	if k.Sign() >= 0 {
		return Iv{f(a.lo), f(a.hi)}
	}
	return Iv{f(a.hi), f(a.lo)}
}
func (a Iv) add(b Iv) Iv {
	f := func(x, y *big.Rat) *big.Rat {
		if x == nil || y == nil {
			return nil
		}
		return new(big.Rat).Add(x, y)
	}
	return Iv{f(a.lo, b.lo), f(a.hi, b.hi)}
}
func (a Iv) maxAbs() *big.Rat {
	if a.lo == nil || a.hi == nil {
		return nil
	}
	return maxR(new(big.Rat).Abs(a.lo), new(big.Rat).Abs(a.hi))
}
func (a Iv) within(lo, hi *big.Rat) bool {
	return a.lo != nil && a.hi != nil && a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0
}

// BEnv holds known bounds for terms (atoms, and sums without their constant).
type BEnv struct {
	b      map[*Term]Iv
	parent *BEnv
	memo   map[*Term]Iv
	depth  int  // of nested conditional values
	work   *int // intervals computed, here and in related environments
}

func newBEnv(parent *BEnv) *BEnv {
	d, w := 0, new(int)
	if parent != nil {
		d, w = parent.depth, parent.work
	}
	return &BEnv{map[*Term]Iv{}, parent, map[*Term]Iv{}, d, w}
}

func (e *BEnv) look(t *Term) Iv {
	r := Iv{}
	for x := e; x != nil; x = x.parent {
		if v, ok := x.b[t]; ok {
			r = r.meet(v)
		}
	}
	return r
}

func (e *BEnv) set(t *Term, v Iv) {
	e.b[t] = e.b[t].meet(v)
	if _, ok := e.b[t]; !ok {
		e.b[t] = v
	}
	e.memo = map[*Term]Iv{}
}

// assume records the bounds implied by a literal or conjunction.
func (e *BEnv) assume(t *Term) {
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			e.assume(a)
		}
	case OLe0, OLt0:
		e.bound(t.args[0], false)
	case OEq0:
		e.bound(t.args[0], false)
		e.bound(Neg(t.args[0]), false)
	case OVar, OUF:
		e.set(t, Iv{rat1, rat1})
	case ONot:
		if a := t.args[0]; a.op == OVar || a.op == OUF {
			e.set(a, Iv{rat0, rat0})
		} else if a.op == OOr {
			for _, b := range a.args {
				e.assume(Not(b))
			}
		}
	}
}

// bound records L <= 0.
func (e *BEnv) bound(l *Term, _ bool) {
	as, cs, c := linOf(l)
	if len(as) == 0 {
		return
	}
	if len(as) == 1 {
		v := new(big.Rat).Quo(new(big.Rat).Neg(c), cs[0])
		if as[0].sort == SInt {
			if cs[0].Sign() > 0 {
				v = new(big.Rat).SetInt(floorRat(v))
			} else {
				v = new(big.Rat).Neg(new(big.Rat).SetInt(floorRat(new(big.Rat).Neg(v))))
			}
		}
		if cs[0].Sign() > 0 {
			e.set(as[0], Iv{nil, v})
		} else {
			e.set(as[0], Iv{v, nil})
		}
		return
	}
	key, f, neg := linKey(l)
	v := new(big.Rat).Mul(new(big.Rat).Neg(c), f)
	if neg { // -key <= v
		e.set(key, Iv{new(big.Rat).Neg(v), nil})
	} else {
		e.set(key, Iv{nil, v})
	}
	// derive single-atom bounds from the others' known bounds
	if len(as) <= 4 {
		for i, a := range as {
			rest := ivConst(c)
			for j, b := range as {
				if j != i {
					rest = rest.add(e.iv(b).scale(cs[j]))
				}
			}
			if rest.lo == nil {
				continue
			}
			v := new(big.Rat).Quo(new(big.Rat).Neg(rest.lo), cs[i])
			if cs[i].Sign() > 0 {
				e.set(a, Iv{nil, v})
			} else {
				e.set(a, Iv{v, nil})
			}
		}
	}
}

// linKey gives the constant-free part of l scaled to leading coefficient 1.
func linKey(l *Term) (key *Term, f *big.Rat, neg bool) {
	as, cs, _ := linOf(l)
	f = new(big.Rat).Inv(new(big.Rat).Abs(cs[0]))
	neg = cs[0].Sign() < 0
	g := f
	if neg {
		g = new(big.Rat).Neg(f)
	}
	k := newLin(SReal)
	for i, a := range as {
		k.addAtom(new(big.Rat).Mul(cs[i], g), a)
	}
	return k.term(), f, neg
}

// varRange gives the range of a particular symbol.
var varRange = map[*Term]func(e *BEnv) Iv{}

// ufRange gives the range of an uninterpreted function application.
var ufRange = map[string]func(t *Term, e *BEnv) Iv{}

func (e *BEnv) iv(t *Term) Iv {
	if t.sort != SInt && t.sort != SReal {
		return Iv{}
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	e.memo[t] = Iv{} // cut cycles
	*e.work++
	v := e.iv1(t)
	if t.op != OConst && t.op != OLin {
		v = v.meet(e.look(t))
	}
	if t.sort == SInt && integral(t) {
		v = v.round()
	}
	e.memo[t] = v
	return v
}

// integral: the keys of bounds may have fractional coefficients.
func integral(t *Term) bool {
	if t.op == OLin {
		for _, k := range t.coef {
			if !k.IsInt() {
				return false
			}
		}
		return t.rat.IsInt()
	}
	return true
}

// round tightens the bounds of an integer.
func (v Iv) round() Iv {
	if v.lo != nil && !v.lo.IsInt() {
		v.lo = new(big.Rat).SetInt(ceilRat(v.lo))
	}
	if v.hi != nil && !v.hi.IsInt() {
		v.hi = new(big.Rat).SetInt(floorRat(v.hi))
	}
	return v
}

func (e *BEnv) iv1(t *Term) Iv {
	switch t.op {
	case OConst:
		return ivConst(t.rat)
	case OLin:
		r := ivConst(t.rat)
		for i, a := range t.args {
			r = r.add(e.iv(a).scale(t.coef[i]))
		}
		for i, a := range t.args {
			// |q|*(y - floor(y)) is within 0..|q|
			if a.op == OToReal && a.args[0].op == OToInt && t.coef[i].Sign() < 0 {
				y := a.args[0].args[0]
				q := new(big.Rat).Neg(t.coef[i])
				rest := Sub(t, MulC(q, Sub(y, a)))
				if n := len(rest.args); rest.op != OLin || n < len(t.args)-1 {
					r = r.meet(e.iv(rest).add(Iv{rat0, q}))
				}
			}
		}
		if len(t.args) > 1 {
			key, f, neg := linKey(t)
			k := e.look(key)
			if k.lo != nil || k.hi != nil {
				g := new(big.Rat).Inv(f)
				if neg {
					g = new(big.Rat).Neg(g)
				}
				r = r.meet(k.scale(g).add(ivConst(t.rat)))
			}
		}
		return r
	case OMul:
		a, b := e.iv(t.args[0]), e.iv(t.args[1])
		if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
			return Iv{}
		}
		r := Iv{}
		for i, x := range []*big.Rat{a.lo, a.hi} {
			for j, y := range []*big.Rat{b.lo, b.hi} {
				p := new(big.Rat).Mul(x, y)
				if i+j == 0 {
					r = Iv{p, p}
				} else {
					r = Iv{minR(r.lo, p), maxR(r.hi, p)}
				}
			}
		}
		return r
	case OIDiv:
		a := e.iv(t.args[0]).scale(new(big.Rat).Inv(t.args[1].rat))
		return ivFloor(a)
	case OIMod:
		hi := new(big.Rat).Sub(t.args[1].rat, rat1)
		a := e.iv(t.args[0])
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(hi) <= 0 {
			return a
		}
		return Iv{rat0, hi}
	case OToReal:
		return e.iv(t.args[0])
	case OToInt:
		return ivFloor(e.iv(t.args[0]))
	case OIte:
		if e.depth > 6 {
			return e.iv(t.args[1]).union(e.iv(t.args[2]))
		}
		e1, e2 := newBEnv(e), newBEnv(e)
		e1.depth, e2.depth = e.depth+1, e.depth+1
		e1.assume(t.args[0])
		e2.assume(Not(t.args[0]))
		return e1.iv(t.args[1]).union(e2.iv(t.args[2]))
	case OVar:
		if f, ok := varRange[t]; ok {
			return f(e)
		}
	case OUF:
		if f, ok := varRange[t]; ok {
			return f(e)
		}
		if f, ok := ufRange[t.name]; ok {
			return f(t, e)
		}
	}
	return Iv{}
}

func ivFloor(a Iv) Iv {
	f := func(x *big.Rat) *big.Rat {
		if x == nil {
			return nil
		}
		return new(big.Rat).SetInt(floorRat(x))
	}
	return Iv{f(a.lo), f(a.hi)}
}

// decide tries to settle a boolean term by interval reasoning alone.
func (e *BEnv) decide(t *Term) (val, known bool) {
	switch t.op {
	case OTrue:
		return true, true
	case OFalse:
		return false, true
	case OLe0:
		v := e.iv(t.args[0])
		if v.hi != nil && v.hi.Sign() <= 0 {
			return true, true
		}
		if v.lo != nil && v.lo.Sign() > 0 {
			return false, true
		}
	case OLt0:
		v := e.iv(t.args[0])
		if v.hi != nil && v.hi.Sign() < 0 {
			return true, true
		}
		if v.lo != nil && v.lo.Sign() >= 0 {
			return false, true
		}
	case OEq0:
		v := e.iv(t.args[0])
		if v.hi != nil && v.hi.Sign() < 0 || v.lo != nil && v.lo.Sign() > 0 {
			return false, true
		}
		if v.hi != nil && v.lo != nil && v.hi.Sign() == 0 && v.lo.Sign() == 0 {
			return true, true
		}
	case OVar, OUF:
		if t.sort == SBool && !t.bound {
			if v := e.look(t); v.lo != nil && v.hi != nil {
				return v.lo.Sign() > 0, true
			}
		}
	case ONot:
		v, k := e.decide(t.args[0])
		return !v, k
	case OAnd, OOr:
		all := true
		for _, a := range t.args {
			v, k := e.decide(a)
			if k && v == (t.op == OOr) {
				return v, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return t.op == OAnd, true
		}
	case OIte:
		if t.sort == SBool {
			if c, k := e.decide(t.args[0]); k {
				if c {
					return e.decide(t.args[1])
				}
				return e.decide(t.args[2])
			}
		}
	}
	return false, false
}

// simplify removes what intervals settle from a fact.
func (e *BEnv) simplify(t *Term) *Term {
	switch t.op {
	case OAnd, OOr:
		if t.bound {
			return t
		}
		var as []*Term
		for _, a := range t.args {
			as = append(as, e.simplify(a))
		}
		return nary(t.op, as)
	case ONot:
		return Not(e.simplify(t.args[0]))
	case OLe0, OLt0, OEq0:
		if t.bound || !e.floaty(t) {
			return t
		}
		if v, k := e.decide(t); k {
			return BoolC(v)
		}
	}
	return t
}

// floaty: about rounded values or parts of them only, whose ranges are stated anyway.
func (e *BEnv) floaty(t *Term) bool {
	return t.args[0].sort == SReal
}
