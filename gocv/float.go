package main

import (
	"fmt"
	"go/ast"
	"math"
	"math/big"
)

// float64 arithmetic over the reals. A result is exact when it is integral and
// at most 2^53; otherwise it is a new real r within half an ulp of the exact
// value x, with the properties of round-to-nearest the proofs need. Assumed:
// no underflow (subnormal results), no fused multiply-add, finite inputs.

type floats struct {
	u       *Unit
	isFloat map[*Term]bool  // terms known to be float64 values
	def     map[*Term]*fdef // rounded value -> exact value
	memo    map[*Term]*Term // exact value -> rounded value
	floors  map[*Term]bool  // floor facts already given
	sins    []*Term
	side    map[*Term]bool // facts about signs, monotony and exactness: not needed when errors suffice
}

type fdef struct {
	x    *Term
	seen map[int]bool
	rng  map[string]bool
}

// bounds gives |x| <= m in st and the rounding error that implies.
func (d *fdef) bounds(st *State) (m, err *big.Rat) {
	m = st.env.iv(d.x).maxAbs()
	if m == nil {
		return nil, nil
	}
	if m.Sign() == 0 {
		m = big.NewRat(1, 1)
	}
	return m, pow2(ceilLog2(m) - 54)
}

func newFloats(u *Unit) *floats {
	return &floats{u, map[*Term]bool{}, map[*Term]*fdef{}, map[*Term]*Term{}, map[*Term]bool{}, nil, map[*Term]bool{}}
}

var two53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))

func pow2(k int) *big.Rat {
	if k >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
	}
	return new(big.Rat).Inv(pow2(-k))
}

// ceilLog2 gives k with m <= 2^k.
func ceilLog2(m *big.Rat) int {
	k := m.Num().BitLen() - m.Denom().BitLen()
	for pow2(k).Cmp(m) < 0 {
		k++
	}
	for k > -1100 && pow2(k-1).Cmp(m) >= 0 {
		k--
	}
	return k
}

func (f *floats) round(st *State, x *Term, at ast.Node) *Term {
	if f.u.spec > 0 {
		return x
	}
	if x.isNum() {
		return Num(roundRat(x.rat), SReal)
	}
	if f.isFloat[x] {
		return x
	}
	if x.op == OIte {
		a, b := x.args[1], x.args[2]
		if (a.isNum() || f.isFloat[a]) && (b.isNum() || f.isFloat[b]) {
			return x
		}
	}
	iv := st.env.iv(x)
	m := iv.maxAbs()
	if _, ok := realIntegral(x); ok && m != nil && m.Cmp(two53) <= 0 {
		return x
	}
	// negation of a float is a float
	if n := Neg(x); f.isFloat[n] {
		return x
	}
	if _, ok := realIntegral(x); ok && m == nil {
		// an integer of unknown size: exact up to 2^53, and no smaller beyond
		r, ok := f.memo[x]
		if !ok {
			r = f.u.fresh("fl", SReal)
			f.memo[x] = r
			f.isFloat[r] = true
			f.def[r] = &fdef{x: x}
			lim := Num(two53, SReal)
			f.u.defFact(r, Implies(And(Le(x, lim), Ge(x, Neg(lim))), Eq(r, x)))
			f.u.defFact(r, Implies(Ge(x, lim), Ge(r, lim)))
			f.u.defFact(r, Implies(Le(x, Neg(lim)), Le(r, Neg(lim))))
		}
		return r
	}
	if m == nil {
		fail("no bound on the magnitude of a float result at %s", f.u.pos(at))
	}
	r, ok := f.memo[x]
	if !ok {
		r = f.u.fresh("fl", SReal)
		f.memo[x] = r
		f.isFloat[r] = true
		f.def[r] = &fdef{x: x}
		// rounding is monotone: r's bounds are the rounded bounds of x
		varRange[r] = func(e *BEnv) Iv {
			v := e.iv(x)
			if v.lo != nil {
				v.lo = roundRat(v.lo)
			}
			if v.hi != nil {
				v.hi = roundRat(v.hi)
			}
			return v
		}
		f.sideFact(r, Implies(Ge(x, RealC(0)), Ge(r, RealC(0))))
		f.sideFact(r, Implies(Le(x, RealC(0)), Le(r, RealC(0))))
		if _, _, ok := asFraction(x); ok {
			// integers up to 2^53 are exact
			k := ToReal(ToInt(x))
			lim := Num(two53, SReal)
			f.u.defFact(r, Implies(And(Eq(x, k), Le(x, lim), Ge(x, Neg(lim))), Eq(r, x)))
		}
	}
	f.errFact(r, m)
	f.rangeFact(r, iv)
	if m.Cmp(big.NewRat(1<<20, 1)) < 0 {
		f.rangeFact(r, Iv{rat0, big.NewRat(360, 1)})
		f.rangeFact(r, Iv{rat0, rat1})
	}
	// v - floor(v) is exact unless v is in -1..0
	as, cs, c := linOf(x)
	if len(as) == 2 && c.Sign() == 0 {
		for i := range as {
			v, g := as[i], as[1-i]
			// adding or subtracting zero is exact
			if k := new(big.Rat).Abs(cs[i]); f.isFloat[v] && k.Cmp(rat1) == 0 {
				if z := st.env.iv(g); (z.lo == nil || z.lo.Sign() <= 0) && (z.hi == nil || z.hi.Sign() >= 0) {
					f.u.defFact(r, Implies(Eq(g, RealC(0)), Eq(r, x)))
				}
			}
			if f.isFloat[v] && cs[i].Cmp(rat1) == 0 && cs[1-i].Cmp(big.NewRat(-1, 1)) == 0 && g == ToReal(ToInt(v)) {
				f.u.defFact(r, Implies(Or(Ge(v, RealC(0)), Le(v, RealC(-1))), Eq(r, x)))
			}
		}
	}
	return r
}

// errFact: within half an ulp of the exact value, for exact values up to m.
func (f *floats) sideFact(sym, t *Term) {
	f.side[t] = true
	f.u.defFact(sym, t)
}

func (f *floats) errFact(r *Term, m *big.Rat) {
	d := f.def[r]
	if m.Sign() == 0 {
		m = big.NewRat(1, 1)
	}
	k := ceilLog2(m)
	if d.seen[k] {
		return
	}
	if d.seen == nil {
		d.seen = map[int]bool{}
	}
	d.seen[k] = true
	err, lim := Num(pow2(k-54), SReal), Num(pow2(k), SReal)
	e := Sub(r, d.x)
	f.u.defFact(r, Implies(And(Le(d.x, lim), Ge(d.x, Neg(lim))), And(Le(e, err), Le(Neg(e), err))))
}

// rangeFact: bounds that are floats carry over.
func (f *floats) rangeFact(r *Term, iv Iv) {
	d := f.def[r]
	if iv.lo == nil || iv.hi == nil {
		return
	}
	key := iv.lo.RatString() + ".." + iv.hi.RatString()
	if d.rng == nil {
		d.rng = map[string]bool{}
	}
	if d.rng[key] {
		return
	}
	d.rng[key] = true
	f.sideFact(r, Implies(Ge(d.x, Num(iv.lo, SReal)), Ge(r, Num(roundRat(iv.lo), SReal))))
	f.sideFact(r, Implies(Le(d.x, Num(iv.hi, SReal)), Le(r, Num(roundRat(iv.hi), SReal))))
}

// floor gives the Int floor of a float value, adding what rounding implies.
func (f *floats) floor(st *State, r *Term) *Term {
	if r.sort == SInt {
		return r
	}
	if i, ok := realIntegral(r); ok {
		return i
	}
	if f.u.spec == 0 {
		if r.op == OIte {
			return Ite(r.args[0], f.floor(st, r.args[1]), f.floor(st, r.args[2]))
		}
		if c := f.chainOf(st, r); c != nil && c.exactFloor() {
			return ToInt(Add(MulC(c.ratio, ToReal(c.n)), ToReal(c.i)))
		}
	}
	if d := f.def[r]; f.u.spec == 0 && d != nil {
		// floor(v/c) is not disturbed by rounding v/c, for a float64 v and a positive integer c
		as, cs, c := linOf(d.x)
		if len(as) == 1 && c.Sign() == 0 && f.isFloat[as[0]] && cs[0].Sign() > 0 && new(big.Rat).Inv(cs[0]).IsInt() {
			if m, _ := d.bounds(st); m != nil && m.Cmp(two53) <= 0 {
				return ToInt(d.x)
			}
		}
	}
	t := ToInt(r)
	if f.u.spec == 0 && !f.floors[r] {
		f.floors[r] = true
		f.floorFacts(r)
	}
	return t
}

// A chain of roundings that starts from a fraction: the exact value is
// ratio*n + i with n, i integers, the float64 differs from it by at most err,
// and every intermediate exact value is an integer whenever all of dens divide n.
type chain struct {
	n     *Term
	ratio *big.Rat
	i     *Term
	err   *big.Rat
	dens  []*big.Int
}

// chainOf follows r = fl(c*r1 + i) down to a rounded fraction.
func (f *floats) chainOf(st *State, r *Term) *chain {
	d := f.def[r]
	if d == nil {
		return nil
	}
	m, e := d.bounds(st)
	if m == nil || m.Cmp(two53) > 0 {
		return nil
	}
	if num, den, ok := asFraction(d.x); ok {
		// separate a common factor of the numerator
		_, cs, c := linOf(num)
		g := new(big.Int).Abs(c.Num())
		for _, k := range cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k.Num()))
		}
		if g.Sign() == 0 {
			return nil
		}
		gr := new(big.Rat).SetInt(g)
		n := MulC(new(big.Rat).Inv(gr), num)
		q := new(big.Rat).Quo(gr, den.rat)
		return &chain{n: n, ratio: q, i: IntC(0), err: e, dens: []*big.Int{q.Denom()}}
	}
	as, cs, c := linOf(d.x)
	var sub *chain
	ip := newLin(SInt)
	if !c.IsInt() {
		return nil
	}
	ip.c = c
	var k *big.Rat
	for j, a := range as {
		if ia, ok := realIntegral(a); ok && cs[j].IsInt() {
			ip.add(cs[j], ia)
			continue
		}
		if sub != nil {
			return nil
		}
		if sub = f.chainOf(st, a); sub == nil {
			return nil
		}
		k = cs[j]
	}
	if sub == nil {
		return nil
	}
	if !k.IsInt() && !(sub.i.isNum() && sub.i.rat.Sign() == 0) {
		return nil
	}
	ki := IntC(0)
	if k.IsInt() {
		ki = MulC(k, sub.i)
	}
	q := new(big.Rat).Mul(k, sub.ratio)
	err := new(big.Rat).Add(e, new(big.Rat).Mul(new(big.Rat).Abs(k), sub.err))
	return &chain{n: sub.n, ratio: q, i: Add(ip.term(), ki), err: err, dens: append(append([]*big.Int(nil), sub.dens...), q.Denom())}
}

// exactFloor: the float64 lies strictly between the integers around the exact
// value when that is not an integer, and equals it when it is.
func (c *chain) exactFloor() bool {
	last := c.ratio.Denom()
	if c.err.Cmp(new(big.Rat).SetFrac(big.NewInt(1), last)) >= 0 {
		return false
	}
	for _, d := range c.dens {
		if new(big.Int).Mod(last, d).Sign() != 0 {
			return false
		}
	}
	return true
}

func (f *floats) floorFacts(r *Term) {
	d := f.def[r]
	if d == nil {
		return
	}
	u := f.u
	x := d.x
	k := ToInt(x)
	kr := ToReal(k)
	k1 := Add(kr, RealC(1))
	eps := Num(pow2(-53), SReal)
	// monotone rounding keeps r between the neighbouring integers, and integers are exact
	u.defFact(r, And(Le(kr, r), Le(r, k1)))
	u.defFact(r, Implies(Eq(x, kr), Eq(r, kr)))
	// r reaches k+1 only from within half an ulp of it
	pos, neg := Gt(k1, RealC(0)), Lt(k1, RealC(0))
	lim := Sub(k1, Mul(eps, k1)) // k1(1-2^-53) for k1>0
	f.sideFact(r, Implies(And(pos, Le(x, lim)), Lt(r, k1)))
	lim2 := Add(k1, Mul(eps, k1))
	f.sideFact(r, Implies(And(neg, Lt(x, lim2)), Lt(r, k1)))
	f.sideFact(r, Implies(And(Eq(k1, RealC(0)), Lt(x, RealC(0))), Lt(r, RealC(0))))
	// spacing of the float64 operand: x = c*v with 1/c an integer
	as, cs, c := linOf(x)
	if len(as) == 1 && c.Sign() == 0 && f.isFloat[as[0]] && new(big.Rat).Inv(cs[0]).IsInt() && cs[0].Sign() > 0 {
		f.spacing(as[0], MulC(new(big.Rat).Inv(cs[0]), k1))
	}
	if len(as) == 1 && c.Sign() == 0 && f.isFloat[as[0]] && cs[0].IsInt() {
		f.spacing(as[0], RealC(1))
	}
}

// spacing: the largest float64 below an integer n is at least |n|*2^-53 away.
func (f *floats) spacing(v, n *Term) {
	eps := Num(pow2(-53), SReal)
	d := Mul(eps, n)
	f.sideFact(v, Implies(And(Lt(v, n), Gt(n, RealC(0))), Le(v, Sub(n, d))))
	f.sideFact(v, Implies(And(Lt(v, n), Lt(n, RealC(0))), Lt(v, Add(n, d))))
}

// toInt is the Go conversion int(x): truncation toward zero.
func (f *floats) toInt(st *State, x *Term) *Term {
	if i, ok := realIntegral(x); ok {
		return i
	}
	if iv := st.env.iv(x); iv.lo != nil && iv.lo.Sign() >= 0 {
		return f.floor(st, x)
	}
	nx := Neg(x)
	if f.isFloat[x] {
		f.isFloat[nx] = true
		if d := f.def[x]; d != nil && f.def[nx] == nil {
			f.def[nx] = &fdef{x: Neg(d.x)}
		}
	}
	return Ite(Ge(x, RealC(0)), f.floor(st, x), Neg(f.floor(st, nx)))
}

// sin: SINR is the mathematical sine; math.Sin is assumed within 1e-13 of it.
func (f *floats) sin(st *State, x *Term) *Term {
	f.u.trusted["math.Sin within 1e-13 of the sine"] = true
	if x.isNum() {
		v, _ := x.rat.Float64()
		return Num(new(big.Rat).SetFloat64(math.Sin(v)), SReal)
	}
	if r, ok := f.memo[UF("gosin", SReal, x)]; ok {
		return r
	}
	r := f.u.fresh("sin", SReal)
	f.memo[UF("gosin", SReal, x)] = r
	f.isFloat[r] = true
	s := sinTerm(x)
	tol := Num(big.NewRat(1, 10000000000000), SReal)
	f.u.defFact(r, And(Le(Sub(r, s), tol), Le(Sub(s, r), tol), Le(r, RealC(1)), Ge(r, RealC(-1))))
	varRange[r] = func(*BEnv) Iv { return Iv{big.NewRat(-1, 1), big.NewRat(1, 1)} }
	return r
}

// sinTerm normalises sin(-x) to -sin(x).
func sinTerm(x *Term) *Term {
	if x.isNum() && x.rat.Sign() == 0 {
		return RealC(0)
	}
	_, cs, c := linOf(x)
	if len(cs) > 0 && cs[0].Sign() < 0 || len(cs) == 0 && c.Sign() < 0 {
		return Neg(UF("SINR", SReal, Neg(x)))
	}
	return UF("SINR", SReal, x)
}

func init() {
	ufRange["SINR"] = func(*Term, *BEnv) Iv { return Iv{big.NewRat(-1, 1), big.NewRat(1, 1)} }
}

var _ = fmt.Sprint
