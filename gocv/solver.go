package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- SMT queries

type Solver struct {
	sem      chan bool
	mu       sync.Mutex
	cpu      float64
	calls    int
	scratch  map[string]qres
	deadline time.Time
	z3new    string
}

type qres struct {
	proved bool
	by     string
	secs   float64
	out    string
	model  map[string]string
	sat    bool
}

func newSolver() *Solver {
	s := &Solver{sem: make(chan bool, runtime.NumCPU()), scratch: map[string]qres{}}
	s.z3new = "z3-new"
	if _, err := exec.LookPath("z3-new"); err != nil {
		s.z3new = "z3"
	}
	return s
}

// Query is one goal in several SMT renderings of increasing detail.
type Query struct {
	texts  []string // level 0, 1, ... of unfolding; the last is the most complete
	full   bool     // the last level leaves nothing opaque
	inputs []string
	done   *qres
}

// collect the fresh symbols of a term, with the age of the newest.
type symInfo struct {
	syms []string
	max  string
}

func isFreshName(n string) bool { return strings.ContainsRune(n, '!') && !strings.HasPrefix(n, "?") }

func (u *Unit) symsOf(t *Term) map[string]int {
	if r, ok := u.symMemo[t]; ok {
		return r
	}
	r := map[string]int{}
	Walk(t, map[*Term]bool{}, func(x *Term) {
		if (x.op == OVar || x.op == OUF) && isFreshName(x.name) {
			if id, ok := r[x.name]; !ok || x.id < id {
				r[x.name] = x.id
			}
		}
	})
	u.symMemo[t] = r
	return r
}

// relevant selects the facts about symbols the goal can see.
func (u *Unit) relevant(base []*Term, facts []*Term) []*Term {
	have := map[string]bool{}
	for _, t := range base {
		for s := range u.symsOf(t) {
			have[s] = true
		}
	}
	in := make([]bool, len(facts))
	newest := make([]string, len(facts))
	for i, f := range facts {
		best := -1
		for s, id := range u.symsOf(f) {
			if id > best {
				best, newest[i] = id, s
			}
		}
	}
	for again := true; again; {
		again = false
		for i, f := range facts {
			if in[i] || newest[i] != "" && !have[newest[i]] {
				continue
			}
			in[i] = true
			again = true
			for s := range u.symsOf(f) {
				have[s] = true
			}
		}
	}
	var r []*Term
	for i, f := range facts {
		if in[i] {
			r = append(r, f)
		}
	}
	return r
}

// stringFacts: a string is empty exactly when its length is zero.
func stringFacts(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	bound := false
	lens := map[string]bool{}
	zero, empty := IntC(0), StrC("")
	is := func(t *Term) *Term { return Eq(Eq(strlen(t), zero), Eq(t, empty)) }
	for _, t := range ts {
		Walk(t, seen, func(x *Term) {
			if x.op == OUF && x.name == "strlen" {
				if x.bound {
					bound = true
				} else {
					r = append(r, is(x.args[0]), Ge(x, zero))
				}
			}
			if x.op == OUF && x.bound && !lens[x.name] && ufRange[x.name] != nil && strings.HasSuffix(x.name, ".len") {
				lens[x.name] = true
				var vs []*Term
				for _, a := range x.args {
					vs = append(vs, BoundVar("i", a.sort))
				}
				r = append(r, Quant(OForall, vs, Ge(UF(x.name, SInt, vs...), zero)))
			}
		})
	}
	if bound {
		s := BoundVar("s", SStr)
		r = append(r, Quant(OForall, []*Term{s}, is(s)))
	}
	return r
}

// opaqueApps lists the applications of opaque specification functions.
func (v *Verifier) opaqueApps(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		Walk(t, seen, func(x *Term) {
			if x.op == OUF && !x.bound && strings.HasPrefix(x.name, "spec:") {
				r = append(r, x)
			}
		})
	}
	return r
}

// query renders  facts, pc |- goal.
func (v *Verifier) query(u *Unit, pc []*Term, goal *Term, extra []*Term) *Query {
	return v.queryF(u, pc, goal, extra, u.facts, nil)
}

func (v *Verifier) queryF(u *Unit, pc []*Term, goal *Term, extra, facts []*Term, env *BEnv) *Query {
	q := &Query{}
	if goal.isTrue() {
		q.done = &qres{proved: true, by: "simplifier"}
		return q
	}
	if env == nil {
		env = newBEnv(u.env0)
		for _, p := range pc {
			env.assume(p)
		}
	}
	if val, k := env.decide(goal); k && val {
		q.done = &qres{proved: true, by: "interval"}
		return q
	}
	base := append(append([]*Term(nil), pc...), Not(goal))
	base = append(base, extra...)
	as := append(append([]*Term(nil), base...), u.relevant(base, append(append([]*Term(nil), facts...), u.defs...))...)
	var ulems []*Term
	insts := func(cur []*Term) []*Term {
		// lemma instances for every argument of an opaque application
		var r []*Term
		args := map[*Term]bool{}
		for _, a := range v.opaqueApps(cur) {
			if len(a.args) == 1 && a.args[0].sort == SInt {
				args[a.args[0]] = true
			}
		}
		var list []*Term
		for a := range args {
			list = append(list, a)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
		for _, n := range u.starUses {
			l := v.lemmas[n]
			for _, a := range list {
				se := &SEnv{u, u.specState(), u.specState(), map[string]Value{l.params[0]: a}}
				r = append(r, se.inst(l))
			}
		}
		return r
	}
	as = append(as, stringFacts(as)...)
	ulems = insts(as)
	as = append(as, ulems...)
	isBase := map[*Term]bool{}
	for _, b := range base {
		isBase[b] = true
	}
	emit := func(as []*Term) {
		as = append([]*Term(nil), as...)
		for i, a := range as {
			if !isBase[a] {
				as[i] = env.simplify(a)
			}
		}
		q.texts = append(q.texts, u.render(as, env, q))
	}
	// level 0: opaque applications with their attached facts
	have := map[*Term]bool{}
	autos := func(cur []*Term) []*Term {
		var r []*Term
		for _, a := range v.opaqueApps(cur) {
			if have[a] {
				continue
			}
			have[a] = true
			r = append(r, v.autos(u, v.specs[strings.TrimPrefix(a.name, "spec:")], a.args)...)
		}
		return r
	}
	cur := append(append([]*Term(nil), as...), autos(as)...)
	cur = append(cur, autos(cur)...)
	if len(u.fl.def) > 0 {
		// without integer division, for goals about rounding alone
		var few []*Term
		for _, a := range cur {
			if isBase[a] || !u.fl.side[a] && !hasIntDiv(env.simplify(a)) {
				few = append(few, a)
			}
		}
		if len(few) < len(cur) {
			emit(few)
		}
		if cuts := v.floatCuts(u, few, isBase, goal, env); len(cuts) > 0 {
			q.texts = append(q.texts, "")
			var c []*Term
			for _, a := range few {
				if isBase[a] {
					c = append(c, a)
				} else {
					c = append(c, env.simplify(a))
				}
			}
			q.texts[len(q.texts)-1] = u.renderS(append(c, cuts...), env, q, true)
		}
	}
	emit(cur)
	// deeper levels: definitions as equations, then substituted in place
	subst := cur
	for lev := 1; lev <= 5; lev++ {
		m := map[*Term]*Term{}
		var defs []*Term
		for _, a := range v.opaqueApps(subst) {
			f := v.specs[strings.TrimPrefix(a.name, "spec:")]
			if f.body == nil {
				continue
			}
			d := v.unfold(u, f, a.args)
			m[a] = d
			defs = append(defs, Eq(a, d))
		}
		if len(m) == 0 {
			q.full = true
			break
		}
		if lev == 1 {
			one := append(append([]*Term(nil), cur...), defs...)
			emit(append(one, autos(one)...))
		}
		var next []*Term
		for _, t := range subst {
			next = append(next, Subst(t, m))
		}
		if lev <= 2 {
			next = append(next, autos(next)...)
		}
		subst = next
		emit(subst)
	}
	return q
}

// floatCuts proves intermediate facts for goals that compare floors and sines
// of rounded values with floors and sines of exact ones: arguments of sines
// that agree to 1e-12, and order between the floors of the goal and those of
// the program. Each is proved from the error facts alone.
func (v *Verifier) floatCuts(u *Unit, few []*Term, isBase map[*Term]bool, goal *Term, env *BEnv) []*Term {
	var sines, gfl, pfl []*Term
	seen := map[*Term]bool{}
	var lin []*Term
	for _, a := range few {
		floor := false
		Walk(a, map[*Term]bool{}, func(x *Term) {
			if x.op == OToInt && !x.bound {
				floor = true
				if !isBase[a] && u.fl.isFloat[x.args[0]] && !seen[x] {
					seen[x] = true
					pfl = append(pfl, x)
				}
			}
			if x.op == OUF && x.name == "SINR" && !x.bound && !seen[x] {
				seen[x] = true
				sines = append(sines, x)
			}
		})
		if !floor && !isBase[a] {
			lin = append(lin, env.simplify(a))
		}
	}
	if len(sines) == 0 || len(sines) > 4 {
		return nil
	}
	Walk(goal, map[*Term]bool{}, func(x *Term) {
		if x.op == OToInt && !x.bound && !seen[x] {
			seen[x] = true
			gfl = append(gfl, x)
		}
	})
	if u.cutMemo == nil {
		u.cutMemo = map[*Term]bool{}
	}
	prove := func(goal *Term) bool {
		if ok, known := u.cutMemo[goal]; known {
			return ok
		}
		have := map[string]bool{}
		for s := range u.symsOf(goal) {
			have[s] = true
		}
		as := []*Term{Not(goal)}
		used := map[*Term]bool{}
		for again := true; again; {
			again = false
			for _, f := range lin {
				if used[f] || len(f.args) == 0 || len(as) > 60 {
					continue
				}
				hit := false
				for s := range u.symsOf(f) {
					hit = hit || have[s]
				}
				if hit {
					used[f] = true
					as = append(as, f)
					again = true
					for s := range u.symsOf(f) {
						have[s] = true
					}
				}
			}
		}
		q := &Query{texts: []string{u.renderS(as, env, nil, true)}}
		ok := v.runQuery(q, 2*time.Second)
		u.cutMemo[goal] = ok
		return ok
	}
	var r []*Term
	tol := Num(big.NewRat(1, 1000000000000), SReal)
	within := func(d *Term) *Term { return And(Le(d, tol), Le(Neg(d), tol)) }
	for i, a := range sines {
		for _, b := range sines[:i] {
			if prove(within(Sub(a.args[0], b.args[0]))) {
				c := within(Sub(a, b))
				r = append(r, c)
				lin = append(lin, c)
			}
		}
	}
	for i, g := range gfl {
		for _, h := range gfl[:i] {
			if d := Sub(g.args[0], h.args[0]); d.isNum() {
				lo := new(big.Rat).SetInt(floorRat(d.rat))
				// floor(h)+floor(d) <= floor(g) <= floor(h)+floor(d)+1
				e := Sub(g, Add(h, Num(lo, SInt)))
				r = append(r, And(Ge(e, IntC(0)), Le(e, IntC(1))))
			}
		}
		for _, p := range pfl {
			for off := int64(-1); off <= 1; off++ {
				b := Add(g.args[0], RealC(off))
				if prove(Le(p.args[0], b)) {
					r = append(r, Le(p, Add(g, IntC(off))))
					break
				}
			}
			for off := int64(1); off >= -1; off-- {
				b := Add(g.args[0], RealC(off))
				if prove(Ge(p.args[0], b)) {
					r = append(r, Ge(p, Add(g, IntC(off))))
					break
				}
			}
		}
	}
	return r
}

func hasIntDiv(t *Term) bool {
	hit := false
	Walk(t, map[*Term]bool{}, func(x *Term) {
		if x.op == OIDiv || x.op == OIMod || x.op == ONDiv || x.op == ONMod {
			hit = true
		}
	})
	return hit
}

// render prints the assertions as an SMT-LIB script.
func (u *Unit) render(as []*Term, env *BEnv, q *Query) string {
	return u.renderS(as, env, q, false)
}

func (u *Unit) renderS(as []*Term, env *BEnv, q *Query, noLip bool) string {
	seen := map[*Term]bool{}
	var order []*Term
	refs := map[*Term]int{}
	var sines []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
		if t.op == OUF && t.name == "SINR" && !t.bound {
			sines = append(sines, t)
		}
	}
	uniq := map[*Term]bool{}
	var list []*Term
	add := func(t *Term) {
		if !uniq[t] && !t.isTrue() {
			uniq[t] = true
			list = append(list, t)
			walk(t)
		}
	}
	for _, a := range as {
		add(a)
	}
	// ranges of uninterpreted applications
	for _, t := range append([]*Term(nil), order...) {
		if f, ok := varRange[t]; ok && !t.bound {
			iv := f(env)
			if iv.lo != nil {
				add(Ge(t, Num(iv.lo, t.sort)))
			}
			if iv.hi != nil {
				add(Le(t, Num(iv.hi, t.sort)))
			}
		}
		if t.op == OUF && !t.bound && (t.sort == SInt || t.sort == SReal) {
			if f, ok := ufRange[t.name]; ok {
				iv := f(t, env)
				if iv.lo != nil {
					add(Ge(t, Num(iv.lo, t.sort)))
				}
				if iv.hi != nil {
					add(Le(t, Num(iv.hi, t.sort)))
				}
			}
		}
	}
	// the sine is 1-Lipschitz
	if noLip {
		sines = nil
	}
	for i, a := range sines {
		for _, b := range sines[:i] {
			d := Sub(a.args[0], b.args[0])
			e := Sub(a, b)
			ad := Ite(Ge(d, RealC(0)), d, Neg(d))
			add(Le(e, ad))
			add(Le(Neg(e), ad))
		}
		ad := Ite(Ge(a.args[0], RealC(0)), a.args[0], Neg(a.args[0]))
		add(Le(a, ad))
		add(Le(Neg(a), ad))
	}
	var b strings.Builder
	sorts := map[Sort]bool{}
	var strs []string
	decl := map[string]bool{}
	p := &printer{names: map[*Term]string{}}
	need := func(s Sort) {
		if s != SInt && s != SReal && s != SBool && !sorts[s] {
			sorts[s] = true
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
		}
	}
	arity := map[string]map[string]string{}
	for _, t := range order {
		need(t.sort)
		switch t.op {
		case OStrC:
			n := symSMT("str:" + t.name)
			if !decl[n] {
				decl[n] = true
				strs = append(strs, n)
				fmt.Fprintf(&b, "(declare-fun %s () Str)\n", n)
			}
		case OVar:
			if t.bound {
				break
			}
			n := symSMT(t.name)
			if !decl[n] {
				decl[n] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", n, t.sort)
			}
		case OUF:
			var sg []string
			for _, a := range t.args {
				need(a.sort)
				sg = append(sg, string(a.sort))
			}
			key := strings.Join(sg, " ") + "->" + string(t.sort)
			if arity[t.name] == nil {
				arity[t.name] = map[string]string{}
			}
			n, ok := arity[t.name][key]
			if !ok {
				n = t.name
				if k := len(arity[t.name]); k > 0 {
					n = fmt.Sprintf("%s/%d", t.name, k)
				}
				arity[t.name][key] = n
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", symSMT(n), strings.Join(sg, " "), t.sort)
			}
			if n != t.name && !t.bound {
				// print under the overloaded name
				s := "(" + symSMT(n)
				for _, a := range t.args {
					s += " " + p.str(a)
				}
				p.names[t] = s + ")"
				if len(t.args) == 0 {
					p.names[t] = symSMT(n)
				}
			}
		}
		if !t.bound && refs[t] > 1 && len(t.args) > 0 && t.op != OForall && t.op != OExists {
			n := fmt.Sprintf("t%d", t.id)
			d := p.str(t)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, d)
			p.names[t] = n
		}
	}
	if len(strs) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(strs, " "))
	}
	for _, t := range list {
		fmt.Fprintf(&b, "(assert %s)\n", p.str(t))
	}
	b.WriteString("(check-sat)\n")
	if q != nil && q.inputs == nil {
		q.inputs = []string{}
	}
	if q != nil {
		q.inputs = q.inputs[:0]
		for n, t := range u.inputs {
			if seen[t] && t.op == OVar {
				q.inputs = append(q.inputs, n+"="+symSMT(t.name))
			}
		}
		sort.Strings(q.inputs)
	}
	return b.String()
}

type backend struct {
	name string
	cmd  []string
}

func (s *Solver) backends(ms int) []backend {
	sec := (ms + 999) / 1000
	return []backend{
		{"z3-new", []string{s.z3new, "-in", fmt.Sprintf("-T:%d", sec)}},
		{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--nl-ext-tplanes"}},
		{"z3", []string{"z3", "-in", fmt.Sprintf("-T:%d", sec)}},
	}
}

func (s *Solver) one(ctx context.Context, b backend, text string, limit time.Duration) (string, float64) {
	select {
	case s.sem <- true:
	case <-ctx.Done():
		return "cancelled", 0
	}
	defer func() { <-s.sem }()
	if !s.deadline.IsZero() {
		if left := time.Until(s.deadline); left <= 0 {
			return "out of time", 0
		} else if left < limit {
			limit = left
		}
	}
	c, cancel := context.WithTimeout(ctx, limit+2*time.Second)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(c, b.cmd[0], b.cmd[1:]...)
	if b.name == "cvc5" {
		text = "(set-logic ALL)\n" + text
	}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(start).Seconds()
	s.mu.Lock()
	s.cpu += d
	s.calls++
	s.mu.Unlock()
	o := strings.TrimSpace(out.String())
	if i := strings.IndexByte(o, '\n'); i >= 0 && (strings.HasPrefix(o, "unsat") || strings.HasPrefix(o, "sat")) {
		o = o[:i]
	}
	return o, d
}

// discharge tries the renderings and back ends in a portfolio.
func (s *Solver) discharge(q *Query, limit time.Duration, wantModel bool) qres {
	if q.done != nil {
		return *q.done
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type job struct {
		lev int
		b   backend
	}
	run := func(jobs []job, lim time.Duration) (qres, bool) {
		ctx2, cancel2 := context.WithCancel(ctx)
		defer cancel2()
		type res struct {
			j   job
			out string
			d   float64
		}
		ch := make(chan res, len(jobs))
		for _, j := range jobs {
			j := j
			go func() {
				o, d := s.one(ctx2, j.b, q.texts[j.lev], lim)
				ch <- res{j, o, d}
			}()
		}
		var last qres
		for range jobs {
			r := <-ch
			if r.out == "unsat" {
				return qres{proved: true, by: r.j.b.name, secs: r.d}, true
			}
			if r.out == "sat" {
				if r.j.lev == len(q.texts)-1 && q.full {
					return qres{sat: true, by: r.j.b.name, secs: r.d, out: "sat: the obligation has a counterexample"}, true
				}
			}
			if r.out != "cancelled" {
				last.out = fmt.Sprintf("%s (level %d): %s", r.j.b.name, r.j.lev, r.out)
			}
			last.secs += r.d
		}
		return last, false
	}
	top := len(q.texts) - 1
	quick := 1500 * time.Millisecond
	if limit < quick {
		quick = limit
	}
	bs := s.backends(int(quick / time.Millisecond))
	var first []job
	for l := range q.texts {
		first = append(first, job{l, bs[0]})
	}
	r, ok := run(first, quick)
	if !ok && limit > quick {
		bs = s.backends(int(limit / time.Millisecond))
		var jobs []job
		for l := range q.texts {
			jobs = append(jobs, job{l, bs[0]}, job{l, bs[1]})
		}
		jobs = append(jobs, job{top, bs[2]})
		if top > 0 {
			jobs = append(jobs, job{0, bs[2]})
		}
		r, ok = run(jobs, limit)
	}
	if !r.proved && wantModel {
		r.model = s.model(q, 5*time.Second)
	}
	return r
}

// model asks for values of the inputs at the deepest level.
func (s *Solver) model(q *Query, limit time.Duration) map[string]string {
	if len(q.texts) == 0 || len(q.inputs) == 0 {
		return nil
	}
	var names, syms []string
	for _, i := range q.inputs {
		k := strings.IndexByte(i, '=')
		names = append(names, i[:k])
		syms = append(syms, i[k+1:])
	}
	text := q.texts[len(q.texts)-1] + "(get-value (" + strings.Join(syms, " ") + "))\n"
	ctx, cancel := context.WithTimeout(context.Background(), limit+time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.z3new, "-in", fmt.Sprintf("-T:%d", int(limit/time.Second)))
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	o := string(out)
	if !strings.HasPrefix(o, "sat") {
		return nil
	}
	m := map[string]string{}
	for i, sy := range syms {
		k := strings.Index(o, "("+sy+" ")
		if k < 0 {
			continue
		}
		rest := o[k+len(sy)+2:]
		depth := 0
		for j, c := range rest {
			if c == '(' {
				depth++
			}
			if c == ')' {
				if depth == 0 {
					m[names[i]] = smtNum(strings.TrimSpace(rest[:j]))
					break
				}
				depth--
			}
		}
	}
	return m
}

func smtNum(s string) string {
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = strings.TrimSuffix(s[3:], ")")
	}
	if strings.HasPrefix(s, "(/ ") {
		f := strings.Fields(strings.TrimSuffix(s[3:], ")"))
		if len(f) == 2 {
			a, ok1 := new(big.Rat).SetString(f[0])
			b, ok2 := new(big.Rat).SetString(f[1])
			if ok1 && ok2 && b.Sign() != 0 {
				v, _ := new(big.Rat).Quo(a, b).Float64()
				s = fmt.Sprintf("%.17g", v)
			}
		}
	}
	if neg {
		return "-" + s
	}
	return s
}

func (v *Verifier) runQuery(q *Query, limit time.Duration) bool {
	return v.solver.discharge(q, limit, false).proved
}

// runAll decides several queries at once.
func (v *Verifier) runAll(qs []*Query, limit time.Duration) []bool {
	r := make([]bool, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r[i] = v.runQuery(qs[i], limit)
		}()
	}
	wg.Wait()
	return r
}

func (v *Verifier) proveNow(u *Unit, pc []*Term, goal *Term, limit time.Duration) bool {
	return v.runQuery(v.query(u, pc, goal, u.uses), limit)
}

// second asks the other back ends to discharge a proved query again.
func (s *Solver) second(q *Query, by string, limit time.Duration) string {
	if q == nil || q.done != nil {
		return ""
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ n, out string }
	ch := make(chan res, 64)
	n := 0
	for _, b := range s.backends(int(limit / time.Millisecond)) {
		if b.name == by {
			continue
		}
		for _, t := range q.texts {
			b, t := b, t
			n++
			go func() {
				o, _ := s.one(ctx, b, t, limit)
				ch <- res{b.name, o}
			}()
		}
	}
	for ; n > 0; n-- {
		if r := <-ch; r.out == "unsat" {
			return r.n
		}
	}
	return ""
}
