package main

// Hash-consed SMT terms over Int, Real, Bool and uninterpreted sorts, with a
// normalising simplifier. Sums are kept as linear combinations.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SLoc  Sort = "Loc"
)

type Op uint8

const (
	OConst  Op = iota // numeric constant
	OTrue             // true
	OFalse            // false
	OStrC             // string constant
	OVar              // free or bound variable
	OUF               // uninterpreted function application
	OLin              // linear combination: sum coef[i]*args[i] + rat
	OMul              // nonlinear product
	ODivR             // nonlinear real division
	OIDiv             // integer floor division by a positive constant (args[1])
	OIMod             // integer modulus by a positive constant
	ONDiv             // general euclidean division
	ONMod             // general euclidean modulus
	OToReal           // Int -> Real
	OToInt            // floor : Real -> Int
	OIte              //
	OAnd              //
	OOr               //
	ONot              //
	OLe0              // args[0] <= 0
	OLt0              // args[0] < 0 (Real only)
	OEq0              // args[0] = 0
	OEq               // generic equality
	OForall           // name = bound variable names, args[0] = body, args[1:] = bound vars
	OExists           //
)

type Term struct {
	id    int
	op    Op
	args  []*Term
	coef  []*big.Rat
	rat   *big.Rat
	name  string
	sort  Sort
	bound bool // contains a bound variable
}

var (
	tmu     sync.Mutex
	tcons   = map[string]*Term{}
	tnext   = 0
	rat0    = new(big.Rat)
	rat1    = big.NewRat(1, 1)
	TTrue   = mkTerm(OTrue, nil, nil, nil, "", SBool)
	TFalse  = mkTerm(OFalse, nil, nil, nil, "", SBool)
	fresh   = map[string]int{}
	freshMu sync.Mutex
)

func mkTerm(op Op, args []*Term, coef []*big.Rat, rat *big.Rat, name string, s Sort) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|", op, name, s)
	if rat != nil {
		b.WriteString(rat.RatString())
	}
	for i, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
		if coef != nil {
			b.WriteByte('*')
			b.WriteString(coef[i].RatString())
		}
	}
	k := b.String()
	tmu.Lock()
	defer tmu.Unlock()
	if t, ok := tcons[k]; ok {
		return t
	}
	t := &Term{id: tnext, op: op, args: args, coef: coef, rat: rat, name: name, sort: s}
	tnext++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if op == OVar && strings.HasPrefix(name, "?") {
		t.bound = true
	}
	if op == OForall || op == OExists {
		t.bound = false
		fv := map[*Term]bool{}
		boundFree(args[0], fv)
		for _, v := range args[1:] {
			delete(fv, v)
		}
		t.bound = len(fv) > 0
	}
	tcons[k] = t
	return t
}

func boundFree(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func Var(name string, s Sort) *Term { return mkTerm(OVar, nil, nil, nil, name, s) }
func Fresh(base string, s Sort) *Term {
	freshMu.Lock()
	fresh[base]++
	n := fresh[base]
	freshMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", base, n), s)
}
func BoundVar(base string, s Sort) *Term { return Fresh("?"+base, s) }
func Num(r *big.Rat, s Sort) *Term {
	if s == SInt && !r.IsInt() {
		fail("the integer %s", r)
	}
	return mkTerm(OConst, nil, nil, r, "", s)
}
func IntC(n int64) *Term    { return Num(big.NewRat(n, 1), SInt) }
func RealC(n int64) *Term   { return Num(big.NewRat(n, 1), SReal) }
func BigC(n *big.Int) *Term { return Num(new(big.Rat).SetInt(n), SInt) }
func StrC(s string) *Term   { return mkTerm(OStrC, nil, nil, nil, s, SStr) }
func BoolC(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func (t *Term) isNum() bool  { return t.op == OConst }
func (t *Term) isTrue() bool { return t == TTrue }
func (t *Term) isFalse() bool {
	return t == TFalse
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

func UF(name string, s Sort, args ...*Term) *Term {
	return mkTerm(OUF, args, nil, nil, name, s)
}

// ---- linear arithmetic

type lin struct {
	m map[*Term]*big.Rat
	c *big.Rat
	s Sort
}

func newLin(s Sort) *lin { return &lin{map[*Term]*big.Rat{}, new(big.Rat), s} }

func (l *lin) add(k *big.Rat, t *Term) *lin {
	switch t.op {
	case OConst:
		l.c = new(big.Rat).Add(l.c, new(big.Rat).Mul(k, t.rat))
	case OLin:
		l.c = new(big.Rat).Add(l.c, new(big.Rat).Mul(k, t.rat))
		for i, a := range t.args {
			l.addAtom(new(big.Rat).Mul(k, t.coef[i]), a)
		}
	default:
		l.addAtom(k, t)
	}
	return l
}
func (l *lin) addAtom(k *big.Rat, a *Term) {
	if o, ok := l.m[a]; ok {
		k = new(big.Rat).Add(o, k)
	}
	if k.Sign() == 0 {
		delete(l.m, a)
	} else {
		l.m[a] = k
	}
}
func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return Num(l.c, l.s)
	}
	as := make([]*Term, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(rat1) == 0 {
		return as[0]
	}
	cs := make([]*big.Rat, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mkTerm(OLin, as, cs, l.c, "", l.s)
}

// linOf views any numeric term as atoms/coefs/const.
func linOf(t *Term) ([]*Term, []*big.Rat, *big.Rat) {
	switch t.op {
	case OConst:
		return nil, nil, t.rat
	case OLin:
		return t.args, t.coef, t.rat
	}
	return []*Term{t}, []*big.Rat{rat1}, rat0
}

func checkNum(ts ...*Term) {
	for _, t := range ts {
		if t.sort != SInt && t.sort != SReal {
			panic(fmt.Sprintf("numeric term expected, got %s : %s", t, t.sort))
		}
	}
}

func coerce(a, b *Term) (*Term, *Term) {
	checkNum(a, b)
	if a.sort != b.sort {
		if a.sort == SInt {
			a = ToReal(a)
		} else {
			b = ToReal(b)
		}
	}
	return a, b
}

func Add(a, b *Term) *Term {
	a, b = coerce(a, b)
	return newLin(a.sort).add(rat1, a).add(rat1, b).term()
}
func Sub(a, b *Term) *Term {
	a, b = coerce(a, b)
	return newLin(a.sort).add(rat1, a).add(big.NewRat(-1, 1), b).term()
}
func Neg(a *Term) *Term { return MulC(big.NewRat(-1, 1), a) }
func MulC(k *big.Rat, a *Term) *Term {
	return newLin(a.sort).add(k, a).term()
}
func Mul(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a.isNum() {
		return MulC(a.rat, b)
	}
	if b.isNum() {
		return MulC(b.rat, a)
	}
	if a.op == OIte && (a.args[1].isNum() || a.args[2].isNum()) {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isNum() || b.args[2].isNum()) {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	// pull out constant factors of single-atom products
	as, ac, ak := linOf(a)
	bs, bc, bk := linOf(b)
	if ak.Sign() == 0 && bk.Sign() == 0 && len(as) == 1 && len(bs) == 1 && (ac[0].Cmp(rat1) != 0 || bc[0].Cmp(rat1) != 0) {
		return MulC(new(big.Rat).Mul(ac[0], bc[0]), Mul(as[0], bs[0]))
	}
	// distribute an ite with linear choice (n * ite(c, 1, -1)) hidden in sums is left alone
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OMul, []*Term{a, b}, nil, nil, "", a.sort)
}
func RDiv(a, b *Term) *Term {
	if a.sort == SInt {
		a = ToReal(a)
	}
	if b.sort == SInt {
		b = ToReal(b)
	}
	if b.isNum() && b.rat.Sign() != 0 {
		return MulC(new(big.Rat).Inv(b.rat), a)
	}
	return mkTerm(ODivR, []*Term{a, b}, nil, nil, "", SReal)
}

func floorRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func ceilRat(r *big.Rat) *big.Int {
	return new(big.Int).Neg(floorRat(new(big.Rat).Neg(r)))
}

// FDiv is floor division (SMT div for a positive divisor).
func FDiv(a, b *Term) *Term {
	if !b.isNum() {
		return mkTerm(ONDiv, []*Term{a, b}, nil, nil, "", SInt)
	}
	if b.rat.Sign() < 0 { // floor(a/b) = floor(-a/-b)
		return FDiv(Neg(a), Num(new(big.Rat).Neg(b.rat), SInt))
	}
	if b.rat.Sign() == 0 {
		return mkTerm(ONDiv, []*Term{a, b}, nil, nil, "", SInt)
	}
	if b.rat.Cmp(rat1) == 0 {
		return a
	}
	q, r := splitDiv(a, b.rat)
	if r.isNum() {
		return Add(q, BigC(floorRat(new(big.Rat).Quo(r.rat, b.rat))))
	}
	if r.op == OIte && (r.args[1].isNum() || r.args[2].isNum()) {
		return Add(q, Ite(r.args[0], FDiv(r.args[1], b), FDiv(r.args[2], b)))
	}
	return Add(q, mkTerm(OIDiv, []*Term{r, b}, nil, nil, "", SInt))
}

// FMod is the modulus with the sign of the (positive) divisor.
func FMod(a, b *Term) *Term {
	if !b.isNum() || b.rat.Sign() <= 0 {
		return mkTerm(ONMod, []*Term{a, b}, nil, nil, "", SInt)
	}
	_, r := splitDiv(a, b.rat)
	if r.isNum() {
		f := BigC(floorRat(new(big.Rat).Quo(r.rat, b.rat)))
		return Sub(r, MulC(b.rat, f))
	}
	if r.op == OIMod && r.args[1] == b {
		return r
	}
	if r.op == OIte && (r.args[1].isNum() || r.args[2].isNum()) {
		return Ite(r.args[0], FMod(r.args[1], b), FMod(r.args[2], b))
	}
	return mkTerm(OIMod, []*Term{r, b}, nil, nil, "", SInt)
}

// splitDiv writes a = k*q + r with the coefficients of r reduced to 0..k-1.
func splitDiv(a *Term, k *big.Rat) (q, r *Term) {
	as, cs, c := linOf(a)
	lq, lr := newLin(SInt), newLin(SInt)
	for i, t := range as {
		if !cs[i].IsInt() {
			lr.add(cs[i], t)
			continue
		}
		f := new(big.Rat).SetInt(floorRat(new(big.Rat).Quo(cs[i], k)))
		lq.add(f, t)
		lr.add(new(big.Rat).Sub(cs[i], new(big.Rat).Mul(f, k)), t)
	}
	f := new(big.Rat).SetInt(floorRat(new(big.Rat).Quo(c, k)))
	lq.c = new(big.Rat).Add(lq.c, f)
	lr.c = new(big.Rat).Add(lr.c, new(big.Rat).Sub(c, new(big.Rat).Mul(f, k)))
	return lq.term(), lr.term()
}

func ToReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	switch t.op {
	case OConst:
		return Num(t.rat, SReal)
	case OLin:
		l := newLin(SReal)
		for i, a := range t.args {
			l.add(t.coef[i], ToReal(a))
		}
		l.c = new(big.Rat).Add(l.c, t.rat)
		return l.term()
	case OIte:
		if t.args[1].isNum() || t.args[2].isNum() {
			return Ite(t.args[0], ToReal(t.args[1]), ToReal(t.args[2]))
		}
	}
	return mkTerm(OToReal, []*Term{t}, nil, nil, "", SReal)
}

// realIntegral returns the Int term equal to t when t is syntactically integral.
func realIntegral(t *Term) (*Term, bool) {
	switch t.op {
	case OConst:
		if t.rat.IsInt() {
			return Num(t.rat, SInt), true
		}
		return nil, false
	case OToReal:
		return t.args[0], true
	case OIte:
		a, ok1 := realIntegral(t.args[1])
		b, ok2 := realIntegral(t.args[2])
		if ok1 && ok2 {
			return Ite(t.args[0], a, b), true
		}
		return nil, false
	case OLin:
		if !t.rat.IsInt() {
			return nil, false
		}
		l := newLin(SInt)
		l.c = t.rat
		for i, a := range t.args {
			ia, ok := realIntegral(a)
			if !ok || !t.coef[i].IsInt() {
				return nil, false
			}
			l.add(t.coef[i], ia)
		}
		return l.term(), true
	case OMul:
		a, ok1 := realIntegral(t.args[0])
		b, ok2 := realIntegral(t.args[1])
		if ok1 && ok2 {
			return Mul(a, b), true
		}
	}
	return nil, false
}

// ToInt is floor.
func ToInt(t *Term) *Term {
	if t.sort == SInt {
		return t
	}
	if i, ok := realIntegral(t); ok {
		return i
	}
	as, cs, c := linOf(t)
	ip, rp := newLin(SInt), newLin(SReal)
	for i, a := range as {
		if ia, ok := realIntegral(a); ok && cs[i].IsInt() {
			ip.add(cs[i], ia)
		} else {
			rp.add(cs[i], a)
		}
	}
	f := new(big.Rat).SetInt(floorRat(c))
	ip.c = new(big.Rat).Add(ip.c, f)
	rp.c = new(big.Rat).Add(rp.c, new(big.Rat).Sub(c, f))
	r := rp.term()
	if r.isNum() {
		return Add(ip.term(), BigC(floorRat(r.rat)))
	}
	// rational multiple of an integer combination: floor(p/q) is integer division
	if n, d, ok := asFraction(r); ok {
		return Add(ip.term(), FDiv(n, d))
	}
	return Add(ip.term(), mkTerm(OToInt, []*Term{r}, nil, nil, "", SInt))
}

// asFraction writes a real linear combination of integral atoms as n/d.
func asFraction(t *Term) (n, d *Term, ok bool) {
	as, cs, c := linOf(t)
	den := new(big.Int).Set(c.Denom())
	for i, a := range as {
		if _, k := realIntegral(a); !k {
			return nil, nil, false
		}
		g := new(big.Int).GCD(nil, nil, den, cs[i].Denom())
		den.Mul(den, new(big.Int).Div(cs[i].Denom(), g))
	}
	if den.BitLen() > 64 {
		return nil, nil, false
	}
	dr := new(big.Rat).SetInt(den)
	l := newLin(SInt)
	l.c = new(big.Rat).Mul(c, dr)
	for i, a := range as {
		ia, _ := realIntegral(a)
		l.add(new(big.Rat).Mul(cs[i], dr), ia)
	}
	return l.term(), Num(dr, SInt), true
}

// ---- booleans

func Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return t.args[0]
	case OLe0:
		if t.args[0].sort == SInt {
			return le0(Sub(IntC(1), t.args[0]))
		}
		return lt0(Neg(t.args[0]))
	case OLt0:
		return le0(Neg(t.args[0]))
	}
	return mkTerm(ONot, []*Term{t}, nil, nil, "", SBool)
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }

func nary(op Op, ts []*Term) *Term {
	unit, zero := TTrue, TFalse
	if op == OOr {
		unit, zero = TFalse, TTrue
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.sort != SBool {
			panic("boolean term expected: " + t.String())
		}
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// absorption: in And, drop Or-terms that contain a present literal; simplify complements
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	res := out[:0:0]
	for _, t := range out {
		if t.op == dual {
			drop := false
			var keep []*Term
			for _, a := range t.args {
				if seen[a] && a != t {
					drop = true
					break
				}
				if !seen[Not(a)] {
					keep = append(keep, a)
				}
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(t.args) {
				changed = true
				res = append(res, nary(dual, keep))
				continue
			}
		}
		res = append(res, t)
	}
	if changed {
		return nary(op, res)
	}
	// (a & b) | (a & !b) = a ; (a | b) & (a | !b) = a
	if len(out) == 2 && out[0].op == dual && out[1].op == dual {
		if t := mergePair(out[0], out[1], op, dual); t != nil {
			return t
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkTerm(op, out, nil, nil, "", SBool)
}

func mergePair(a, b *Term, op, dual Op) *Term {
	if len(a.args) != len(b.args) {
		return nil
	}
	inb := map[*Term]bool{}
	for _, t := range b.args {
		inb[t] = true
	}
	var diff *Term
	var common []*Term
	for _, t := range a.args {
		if inb[t] {
			common = append(common, t)
		} else if diff == nil && inb[Not(t)] {
			diff = t
		} else {
			return nil
		}
	}
	if diff == nil {
		return nil
	}
	return nary(dual, common)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func le0(t *Term) *Term {
	if t.isNum() {
		return BoolC(t.rat.Sign() <= 0)
	}
	if r := pushIte(t, le0); r != nil {
		return r
	}
	t = scaleLin(t, false)
	return mkTerm(OLe0, []*Term{t}, nil, nil, "", SBool)
}
func lt0(t *Term) *Term {
	if t.isNum() {
		return BoolC(t.rat.Sign() < 0)
	}
	if t.sort == SInt {
		return le0(Add(t, IntC(1)))
	}
	if r := pushIte(t, lt0); r != nil {
		return r
	}
	t = scaleLin(t, false)
	return mkTerm(OLt0, []*Term{t}, nil, nil, "", SBool)
}
func eq0(t *Term) *Term {
	if t.isNum() {
		return BoolC(t.rat.Sign() == 0)
	}
	if r := pushIte(t, eq0); r != nil {
		return r
	}
	t = scaleLin(t, true)
	if t.sort == SInt && !t.ratInt() {
		return TFalse
	}
	return mkTerm(OEq0, []*Term{t}, nil, nil, "", SBool)
}
func (t *Term) ratInt() bool { return t.op != OLin || t.rat.IsInt() }

// scaleLin divides by the gcd of the coefficients (positive scaling; for
// equalities also fixes the sign), tightening integer inequalities.
func scaleLin(t *Term, isEq bool) *Term {
	as, cs, c := linOf(t)
	var g *big.Int
	den := big.NewInt(1)
	for _, k := range cs {
		q := new(big.Int).GCD(nil, nil, den, k.Denom())
		den.Mul(den, new(big.Int).Div(k.Denom(), q))
	}
	dr := new(big.Rat).SetInt(den)
	for _, k := range cs {
		n := new(big.Rat).Mul(k, dr).Num()
		n = new(big.Int).Abs(n)
		if g == nil {
			g = n
		} else {
			g = new(big.Int).GCD(nil, nil, g, n)
		}
	}
	f := new(big.Rat).Quo(dr, new(big.Rat).SetInt(g))
	if isEq && cs[0].Sign() < 0 {
		f = new(big.Rat).Neg(f)
	}
	if f.Cmp(rat1) == 0 && (t.sort != SInt || c.IsInt()) {
		return t
	}
	l := newLin(t.sort)
	for i, a := range as {
		l.add(new(big.Rat).Mul(cs[i], f), a)
	}
	k := new(big.Rat).Mul(c, f)
	if t.sort == SInt && !isEq {
		// L + k <= 0  <=>  L + ceil(k) <= 0
		k = new(big.Rat).Neg(new(big.Rat).SetInt(floorRat(new(big.Rat).Neg(k))))
	}
	l.c = new(big.Rat).Add(l.c, k)
	return l.term()
}

// pushIte distributes a comparison over an ite atom when a branch folds.
func pushIte(t *Term, f func(*Term) *Term) *Term {
	as, cs, c := linOf(t)
	n := 0
	for i, a := range as {
		if a.op != OIte {
			continue
		}
		n++
		if n > 2 {
			return nil
		}
		rest := func(br *Term) *Term {
			l := newLin(t.sort)
			for j, b := range as {
				if j != i {
					l.add(cs[j], b)
				}
			}
			l.c = new(big.Rat).Add(l.c, c)
			l.add(cs[i], br)
			return l.term()
		}
		x, y := rest(a.args[1]), rest(a.args[2])
		if len(as) > 1 && !(x.isNum() || y.isNum()) {
			continue
		}
		fx, fy := f(x), f(y)
		if fx.op <= OFalse || fy.op <= OFalse || fx == fy {
			return Ite(a.args[0], fx, fy)
		}
	}
	return nil
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return lt0(Sub(a, b)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if (a.sort == SInt || a.sort == SReal) && (b.sort == SInt || b.sort == SReal) {
		return eq0(Sub(a, b))
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("= on %s and %s (%s, %s)", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
	}
	if a.op == OStrC && b.op == OStrC {
		return TFalse // different constants: hash-consed
	}
	if a.op == OIte {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte {
		x, y := Eq(a, b.args[1]), Eq(a, b.args[2])
		if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
			return Ite(b.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OEq, []*Term{a, b}, nil, nil, "", SBool)
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		a, b = coerce(a, b)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
		if a == Not(b) {
			return Eq(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	nc := Not(c)
	if a.op == OIte && a.args[0] == nc {
		return Ite(c, a.args[2], b)
	}
	if b.op == OIte && b.args[0] == nc {
		return Ite(c, a, b.args[1])
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return Ite(And(nc, b.args[0]), b.args[1], a)
	}
	if nc.id < c.id {
		return mkTerm(OIte, []*Term{nc, b, a}, nil, nil, "", a.sort)
	}
	return mkTerm(OIte, []*Term{c, a, b}, nil, nil, "", a.sort)
}

func Quant(op Op, vs []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	fv := map[*Term]bool{}
	boundFree(body, fv)
	var used []*Term
	for _, v := range vs {
		if fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mkTerm(op, append([]*Term{body}, used...), nil, nil, "", SBool)
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OUF:
		return UF(t.name, t.sort, a...)
	case OLin:
		l := newLin(t.sort)
		l.c = t.rat
		for i := range a {
			l.add(t.coef[i], a[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODivR:
		return RDiv(a[0], a[1])
	case OIDiv, ONDiv:
		return FDiv(a[0], a[1])
	case OIMod, ONMod:
		return FMod(a[0], a[1])
	case OToReal:
		return ToReal(a[0])
	case OToInt:
		return ToInt(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case ONot:
		return Not(a[0])
	case OLe0:
		return le0(a[0])
	case OLt0:
		return lt0(a[0])
	case OEq0:
		return eq0(a[0])
	case OEq:
		return Eq(a[0], a[1])
	case OForall, OExists:
		return Quant(t.op, t.args[1:], a[0])
	}
	panic("rebuild")
}

// Walk visits every subterm once.
func Walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		Walk(a, seen, f)
	}
}

// ---- printing

func ratSMT(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var o string
	if s == SInt {
		if !a.IsInt() {
			fail("the integer %s", r)
		}
		o = a.Num().String()
	} else if a.IsInt() {
		o = a.Num().String() + ".0"
	} else {
		o = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + o + ")"
	}
	return o
}

func symSMT(n string) string {
	ok := n != ""
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.?", c)) {
			ok = false
		}
	}
	if ok && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.NewReplacer("|", "/", "\\", "/").Replace(n) + "|"
}

type printer struct {
	names map[*Term]string
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.def(t)
}
func (p *printer) list(h string, ts []*Term) string {
	var b strings.Builder
	b.WriteString("(" + h)
	for _, a := range ts {
		b.WriteString(" " + p.str(a))
	}
	b.WriteString(")")
	return b.String()
}
func (p *printer) def(t *Term) string {
	switch t.op {
	case OConst:
		return ratSMT(t.rat, t.sort)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OStrC:
		return symSMT("str:" + t.name)
	case OVar:
		return symSMT(t.name)
	case OUF:
		if len(t.args) == 0 {
			return symSMT(t.name)
		}
		return p.list(symSMT(t.name), t.args)
	case OLin:
		var b strings.Builder
		b.WriteString("(+")
		n := 0
		for i, a := range t.args {
			n++
			if t.coef[i].Cmp(rat1) == 0 {
				b.WriteString(" " + p.str(a))
			} else {
				b.WriteString(" (* " + ratSMT(t.coef[i], t.sort) + " " + p.str(a) + ")")
			}
		}
		if t.rat.Sign() != 0 {
			n++
			b.WriteString(" " + ratSMT(t.rat, t.sort))
		}
		b.WriteString(")")
		if n == 1 {
			s := b.String()
			return s[3 : len(s)-1]
		}
		return b.String()
	case OMul:
		return p.list("*", t.args)
	case ODivR:
		return p.list("/", t.args)
	case OIDiv, ONDiv:
		return p.list("div", t.args)
	case OIMod, ONMod:
		return p.list("mod", t.args)
	case OToReal:
		return p.list("to_real", t.args)
	case OToInt:
		return p.list("to_int", t.args)
	case OIte:
		return p.list("ite", t.args)
	case OAnd:
		return p.list("and", t.args)
	case OOr:
		return p.list("or", t.args)
	case ONot:
		return p.list("not", t.args)
	case OLe0, OLt0, OEq0:
		z := "0"
		if t.args[0].sort == SReal {
			z = "0.0"
		}
		return "(" + map[Op]string{OLe0: "<=", OLt0: "<", OEq0: "="}[t.op] + " " + p.str(t.args[0]) + " " + z + ")"
	case OEq:
		return p.list("=", t.args)
	case OForall, OExists:
		var b strings.Builder
		b.WriteString(map[Op]string{OForall: "(forall (", OExists: "(exists ("}[t.op])
		for _, v := range t.args[1:] {
			b.WriteString("(" + symSMT(v.name) + " " + string(v.sort) + ")")
		}
		b.WriteString(") " + p.str(t.args[0]) + ")")
		return b.String()
	}
	panic("print")
}

func (t *Term) String() string {
	p := &printer{names: map[*Term]string{}}
	s := p.def(t)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
