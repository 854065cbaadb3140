package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"
)

// ---- calls through contracts

// rootIdent gives the identifier a place expression starts from.
func rootIdent(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return rootIdent(x.X)
	case *ast.StarExpr:
		return rootIdent(x.X)
	case *ast.ParenExpr:
		return rootIdent(x.X)
	case *ast.IndexExpr:
		return rootIdent(x.X)
	}
	return ""
}

// specPlace evaluates a modifies expression to a place.
func (e *SEnv) specPlace(x ast.Expr) *PtrV {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.specPlace(x.X)
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			if p, ok := v.(*PtrV); ok {
				return p // modifies p: what p points to
			}
			if s, ok := v.(*SliceV); ok && s.obj != nil {
				return single(&Place{obj: s.obj}) // the elements of s
			}
		}
		if o := e.u.v.p.pkg.Scope().Lookup(x.Name); o != nil {
			if v, ok := o.(*types.Var); ok {
				return single(&Place{obj: e.u.global(v)})
			}
		}
	case *ast.IndexExpr:
		if p, ok := e.eval(x).(*PtrV); ok {
			return p
		}
	case *ast.StarExpr:
		if p, ok := e.eval(x.X).(*PtrV); ok {
			return p
		}
	case *ast.SelectorExpr:
		p := e.specPlace(x.X)
		v := e.u.load(e.st, p, nil)
		if q, ok := v.(*PtrV); ok {
			p = q
			v = e.u.load(e.st, p, nil)
		}
		if s, ok := v.(*StructV); ok {
			st := s.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.Sel.Name {
					return p.extend(PElem{field: i})
				}
			}
		}
	}
	specErr("place %s", exprStr(x))
	return nil
}

func mentionsIdent(x ast.Expr, names map[string]bool) bool {
	hit := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			hit = true
		}
		return true
	})
	return hit
}

func (c *Contract) bindArgs(recv Value, args []Value) map[string]Value {
	vars := map[string]Value{}
	names := c.names
	if c.hasRecv {
		if len(names) > 0 {
			vars[names[0]] = recv
			names = names[1:]
		}
	}
	for i, a := range args {
		if i < len(names) {
			vars[names[i]] = a
		}
	}
	return vars
}

func (v *Verifier) active(c *Contract) []Clause { return v.filter(c.ensures) }

// filter keeps the clauses that belong to the property under check.
func (v *Verifier) filter(cs []Clause) []Clause {
	var r []Clause
	for _, e := range cs {
		if e.has(v.prop) {
			r = append(r, e)
		}
	}
	return r
}

func isCallTo(x ast.Expr, name string) bool {
	c, ok := x.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == name
}

func isIdent(x ast.Expr, n string) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == n
}

func (u *Unit) applyContract(fr *Frame, st **State, c *Contract, fn *types.Func, recv Value, args []Value, call ast.Node) Value {
	u.called[c.key] = true
	vars := c.bindArgs(recv, args)
	pre := (*st).clone()
	env := &SEnv{u, *st, pre, vars}
	for _, r := range u.v.filter(c.requires) {
		u.require(*st, "pre", "precondition of "+c.key+": "+r.src, call, env.bool(r.e))
	}
	sig := fn.Type().(*types.Signature)
	clauses := u.v.active(c)
	used := make([]bool, len(clauses))
	// what may change
	bases := map[string]bool{"result": true}
	for i := 0; i < sig.Results().Len(); i++ {
		bases[fmt.Sprintf("result%d", i)] = true
	}
	for _, m := range c.modifies {
		bases[rootIdent(m.e)] = true
	}
	direct := func(target string) ast.Expr {
		for i, cl := range clauses {
			if b, ok := cl.e.(*ast.BinaryExpr); ok && b.Op == token.EQL && exprStr(b.X) == target && !mentionsIdent(b.Y, bases) {
				used[i] = true
				return b.Y
			}
		}
		return nil
	}
	for _, m := range c.modifies {
		pl := (&SEnv{u, pre, pre, vars}).specPlace(m.e)
		if y := direct(m.src); y != nil {
			v := (&SEnv{u, pre, pre, vars}).eval(y)
			old := u.load(pre, pl, nil)
			if ot, ok := old.(*Term); ok {
				v = coerceTo(v, ot.sort)
			}
			u.store(*st, pl, v, call)
			continue
		}
		u.store(*st, pl, u.havocLike(*st, u.load(pre, pl, nil), c.key+"."+m.src), call)
	}
	// results
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := "result"
		if sig.Results().Len() > 1 {
			name = fmt.Sprintf("result%d", i)
		}
		var v Value
		if y := direct(name); y != nil {
			v = (&SEnv{u, pre, pre, vars}).eval(y)
			if x, ok := v.(*Term); ok {
				v = coerceTo(x, sortOf(t))
				if isFloat(t) {
					u.fl.isFloat[v.(*Term)] = true
				}
			}
		} else if isTime(t) {
			tv := u.freshOf(*st, c.key, t).(TimeV)
			if y := direct("ns(" + name + ")"); y != nil {
				tv.ns = (&SEnv{u, pre, pre, vars}).term(y)
			}
			for k, cl := range clauses {
				if isCallTo(cl.e, "utc") && exprStr(cl.e) == "utc("+name+")" {
					tv.loc = locUTC
					used[k] = true
				}
			}
			v = tv
		} else {
			v = u.freshOf(*st, c.key, t)
			if s, ok := v.(*StructV); ok && u.ground != nil {
				e := &SEnv{u, *st, pre, map[string]Value{}}
				for k, x := range vars {
					e.vars[k] = x
				}
				v = u.solveResult(e, name, s, clauses, used)
			}
			if o, ok := v.(*OpaqueV); ok {
				if y := direct("isnil(" + name + ")"); y != nil {
					w := *o
					w.isnil = (&SEnv{u, pre, pre, vars}).bool(y)
					v = &w
				}
			}
		}
		// the list returned may be one of the caller's, grown in place
		if s, ok := v.(*SliceV); ok && s.obj != nil {
			for _, a := range args {
				if b, ok := a.(*SliceV); ok && b.obj != nil && b.obj != s.obj && types.Identical(b.typ, s.typ) {
					s.obj.bases = append(s.obj.bases, b.obj)
					u.grown(*st, b.obj, s.obj)
				}
			}
		}
		res = append(res, v)
		vars[name] = v
	}
	// a list that is given under a condition is that list under the condition,
	// and any list otherwise
	for i := range res {
		sv, ok := res[i].(*SliceV)
		if !ok || u.ground != nil {
			continue
		}
		name := "result"
		if len(res) > 1 {
			name = fmt.Sprintf("result%d", i)
		}
		for k, cl := range clauses {
			ce, ok := cl.e.(*ast.CallExpr)
			if used[k] || !ok || !isCallTo(cl.e, "implies") || len(ce.Args) != 2 || mentionsIdent(ce.Args[0], map[string]bool{name: true}) {
				continue
			}
			b, ok := ast.Unparen(ce.Args[1]).(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL || exprStr(b.X) != name || mentionsIdent(b.Y, bases) {
				continue
			}
			used[k] = true
			c := (&SEnv{u, *st, pre, vars}).bool(ce.Args[0])
			q, _ := (&SEnv{u, pre, pre, vars}).list(b.Y)
			all := append(guardParts(c, q.parts), guardParts(Not(c), u.seqOf(*st, sv).parts)...)
			v := &SliceV{typ: sv.typ, isnil: sv.isnil, inline: true, inl: &Seq{all}}
			u.factAt(*st, Implies(v.isnil, Eq(v.inl.length(), IntC(0))))
			res[i], vars[name] = v, v
			break
		}
	}
	post := &SEnv{u, *st, pre, vars}
	for i, cl := range clauses {
		if used[i] || isIdent(cl.e, "deterministic") {
			continue
		}
		u.factAt(*st, post.bool(cl.e))
	}
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return &TupleV{res}
}

func coerceTo(v Value, s Sort) Value {
	if t, ok := v.(*Term); ok {
		if s == SReal && t.sort == SInt {
			return ToReal(t)
		}
		return t
	}
	return v
}

// freshOf gives an arbitrary value of a type, as a function of the enclosing iterations.
func (u *Unit) freshOf(st *State, base string, t types.Type) Value {
	u.nfresh[base]++
	n := fmt.Sprintf("%s!%d.%d", base, u.id, u.nfresh[base])
	return u.symbolic(st, n, t, u.ictx...)
}

func (u *Unit) havocLike(st *State, old Value, base string) Value {
	switch x := old.(type) {
	case *Term:
		t := u.fresh(base, x.sort)
		if x.sort == SReal {
			u.fl.isFloat[t] = true
		}
		if x.sort == SInt {
			lo, hi, _ := rangeOf(types.Typ[types.Int])
			st.env = newBEnv(st.env)
			st.env.set(t, Iv{lo.rat, hi.rat})
			u.fact(And(Le(lo, t), Le(t, hi)))
		}
		return t
	case TimeV:
		return TimeV{u.fresh(base+".ns", SInt), u.fresh(base+".loc", SLoc)}
	case *StructV:
		r := &StructV{x.typ, make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = u.havocLike(st, x.f[i], fmt.Sprintf("%s.%d", base, i))
		}
		return r
	}
	fail("havoc of %T", old)
	return nil
}

// ---- verifying one function

type unitReport struct {
	name     string
	obls     []*Obl
	err      string // unsupported construct
	called   []string
	inlined  []string
	trusted  []string
	globals  []string
	warn     []string
	vacuous  bool
	u        *Unit
	requires []string
	cases    int64
}

func (v *Verifier) verifyContract(c *Contract) (rep *unitReport) {
	u := newUnit(v, c.key)
	u.ctr = c
	u.ground = v.ground
	rep = &unitReport{name: c.key, u: u}
	for _, r := range v.filter(c.requires) {
		rep.requires = append(rep.requires, r.src)
	}
	fn := c.fn
	decl := v.p.funcs[fn]
	sig := fn.Type().(*types.Signature)
	defer func() {
		if r := recover(); r != nil {
			us, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			rep.err = us.msg
		}
		rep.obls = u.obls
		rep.called, rep.inlined, rep.trusted = keys(u.called), keys(u.inlined), keys(u.trusted)
		rep.warn = u.warn
		for g := range u.globals {
			rep.globals = append(rep.globals, g.Name())
		}
		sort.Strings(rep.globals)
	}()
	st := &State{heap: map[*Obj]Value{}, env: newBEnv(u.env0)}
	for _, r := range v.filter(c.requires) {
		// dates known to be in UTC are so from the start
		if ce, ok := r.e.(*ast.CallExpr); ok && (isCallTo(ce, "elemutc") || isCallTo(ce, "utc")) {
			u.utcNames[exprStr(ce.Args[0])] = true
		}
	}
	if u.ground != nil {
		for _, r := range v.filter(c.requires) {
			if g := u.setting(r.e); g != nil {
				u.ginits[u.global(g)] = TFalse
			}
		}
		for i, n := range c.shipped {
			g, ok := v.p.pkg.Scope().Lookup(n).(*types.Var)
			switch {
			case !ok:
				fail("no variable %s", n)
			case i == 0:
				u.ginits[u.global(g)] = BoolC(u.ground.on)
			case u.ground.on:
				if u.shipped == nil {
					u.shipped = map[*types.Var]bool{}
				}
				u.shipped[g] = true
			}
		}
	}
	var recv Value
	if sig.Recv() != nil {
		rn := "recv"
		if c.hasRecv && len(c.names) > 0 {
			rn = c.names[0]
		}
		recv = u.symbolic(st, rn, sig.Recv().Type())
	}
	var args []Value
	names := c.names
	if c.hasRecv {
		names = names[1:]
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n := fmt.Sprintf("arg%d", i)
		if i < len(names) {
			n = names[i]
		}
		if u.ground != nil && n == u.ground.param {
			args = append(args, IntC(u.ground.val))
			continue
		}
		args = append(args, u.symbolic(st, n, sig.Params().At(i).Type()))
	}
	vars := c.bindArgs(recv, args)
	u.nameInputs(st, vars)
	entry := st.clone()
	env := &SEnv{u, entry, entry, vars}
	for _, r := range v.filter(c.requires) {
		st.assume(env.bool(r.e))
	}
	u.given = map[*Term]bool{}
	for _, t := range st.pc {
		u.given[t] = true
	}
	for _, r := range v.filter(c.invariants) {
		st.assume(env.bool(r.e))
	}
	for _, us := range v.filter(c.uses) {
		ce, ok := us.e.(*ast.CallExpr)
		if !ok {
			if id, ok := us.e.(*ast.Ident); ok && v.lemmas[id.Name] != nil {
				v.needLemma(id.Name)
				u.starUses = append(u.starUses, id.Name)
				continue
			}
			specErr("use %s", us.src)
		}
		v.needLemma(ce.Fun.(*ast.Ident).Name)
		u.uses = append(u.uses, env.bool(us.e))
	}
	if c.panics != nil {
		u.panicCond = env.bool(c.panics.e)
	}
	// the precondition must be satisfiable
	if u.ground != nil {
		for _, r := range v.filter(c.requires) {
			if env.bool(r.e).isFalse() {
				rep.vacuous = true
			}
		}
	} else if v.runQuery(v.query(u, st.pc, TFalse, u.uses), 2*time.Second) {
		rep.vacuous = true
	}
	entry.env = st.env
	preSt := &State{heap: entry.heap, env: st.env, pc: st.pc}
	nf := &Frame{vars: map[types.Object]*Obj{}, sig: sig, fn: fn}
	cur := st.clone()
	res := u.runBody(nf, &cur, sig, decl.Type, decl.Body, decl.Recv, recv, args)
	if cur == nil {
		// never returns normally: every postcondition holds vacuously
		return rep
	}
	if sig.Results().Len() == 1 {
		vars["result"] = res
	} else if tv, ok := res.(*TupleV); ok {
		for i, x := range tv.vs {
			vars[fmt.Sprintf("result%d", i)] = x
		}
	}
	post := &SEnv{u, cur, preSt, vars}
	for _, cl := range v.active(c) {
		if isIdent(cl.e, "deterministic") {
			u.checkDeterministic(cur, cl, decl)
			continue
		}
		for _, part := range conjuncts(cl.e) {
			u.require(cur, "post", exprStr(part), decl, post.bool(part))
		}
	}
	for _, cl := range v.filter(c.invariants) {
		for _, part := range conjuncts(cl.e) {
			u.require(cur, "inv", exprStr(part), decl, post.bool(part))
		}
	}
	u.checkFrame(c, preSt, cur, vars, decl)
	return rep
}

func conjuncts(x ast.Expr) []ast.Expr {
	if p, ok := x.(*ast.ParenExpr); ok {
		return conjuncts(p.X)
	}
	if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{x}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (u *Unit) nameInputs(st *State, vars map[string]Value) {
	var rec func(n string, v Value)
	rec = func(n string, v Value) {
		switch x := v.(type) {
		case *Term:
			if x.op == OVar {
				u.inputs[n] = x
			}
		case *StructV:
			s := x.typ.Underlying().(*types.Struct)
			for i := range x.f {
				rec(n+"."+s.Field(i).Name(), x.f[i])
			}
		case TimeV:
			rec(n+".ns", x.ns)
		case *PtrV:
			if len(x.alts) == 1 && x.alts[0].place != nil {
				rec(n, u.get(st, x.alts[0].place.obj))
			}
		}
	}
	for n, v := range vars {
		rec(n, v)
	}
}

// checkFrame: package variables and what the parameters point to are as they
// were, except for what the contract lists.
func (u *Unit) checkFrame(c *Contract, pre, cur *State, vars map[string]Value, at ast.Node) {
	env := &SEnv{u, pre, pre, vars}
	type mod struct {
		o    *Obj
		path []PElem
	}
	var mods []mod
	for _, m := range append(append([]Clause(nil), c.modifies...), c.hidden...) {
		pl := env.specPlace(m.e)
		for _, a := range pl.alts {
			if a.place != nil {
				mods = append(mods, mod{a.place.obj, a.place.path})
			}
		}
		// a list that may change may change in its elements
		var lists func(v Value)
		lists = func(v Value) {
			switch x := v.(type) {
			case *SliceV:
				if x.obj != nil {
					mods = append(mods, mod{x.obj, nil})
				}
			case *StructV:
				for _, f := range x.f {
					lists(f)
				}
			}
		}
		lists(u.load(pre, pl, nil))
	}
	var objs []*Obj
	for o := range cur.heap {
		if o.global || o.param {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].name != objs[j].name {
			return objs[i].name < objs[j].name
		}
		return objs[i].id < objs[j].id
	})
	for _, o := range objs {
		old, ok := pre.heap[o]
		if !ok {
			old, ok = u.ginits[o]
		}
		if !ok {
			continue
		}
		u.diffLeaves(old, cur.heap[o], nil, func(path []PElem, a, b Value) {
			for _, m := range mods {
				if m.o == o && len(m.path) <= len(path) {
					same := true
					for i := range m.path {
						if m.path[i] != path[i] {
							same = false
						}
					}
					if same {
						return
					}
				}
			}
			g := TFalse
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				g = u.seqAwareEqual(cur, a, b)
			}()
			what := o.name
			if o.global {
				what = "package variable " + o.name
			}
			what += pathStr(o.typ, path) + " is unchanged"
			if o.name == openFilesName {
				what = "every file that was opened is closed"
			}
			u.require(cur, "frame", what, at, g)
		})
	}
}

func pathStr(t types.Type, path []PElem) string {
	s := ""
	for _, p := range path {
		if st, ok := t.Underlying().(*types.Struct); ok && p.idx == nil && p.field >= 0 {
			s += "." + st.Field(p.field).Name()
			t = st.Field(p.field).Type()
		}
	}
	return s
}

// checkDeterministic: the answer is a function of the arguments and of the
// exported settings; nothing else mutable is read.
func (u *Unit) checkDeterministic(st *State, cl Clause, at ast.Node) {
	allowed := map[string]bool{"UseExceptions": true, "AdhikavaraExceptions": true}
	var bad []string
	for g := range u.globals {
		if allowed[g.Name()] || !g.Exported() && !u.v.p.gwrit[g] {
			continue
		}
		bad = append(bad, g.Name())
	}
	for t := range u.trusted {
		for _, n := range []string{"time.Now", "uuid", "rand."} {
			if strings.Contains(t, n) {
				bad = append(bad, t)
			}
		}
	}
	for k := range u.called {
		if cc := u.v.byKey(k); cc == nil || !u.v.hasDeterministic(cc) {
			bad = append(bad, "call of "+k+", not itself proved deterministic")
		}
	}
	sort.Strings(bad)
	u.require(st, "deterministic", "reads nothing but its arguments and the exceptions settings"+strings.Join(append([]string{""}, bad...), "; reads "), at, BoolC(len(bad) == 0))
}

func (v *Verifier) byKey(k string) *Contract {
	for _, c := range v.contracts {
		if c.key == k {
			return c
		}
	}
	return nil
}

func (v *Verifier) hasDeterministic(c *Contract) bool {
	for _, cl := range v.active(c) {
		if isIdent(cl.e, "deterministic") {
			return true
		}
	}
	return false
}

func (v *Verifier) needLemma(n string) {
	if v.lemmas[n] == nil {
		specErr("unknown lemma %s", n)
	}
	v.neededLemmas[n] = true
}

// ---- equality of values that may hold sequences

func (u *Unit) seqAwareEqual(st *State, a, b Value) *Term {
	if o, ok := b.(*OpaqueV); ok && o.typ == nil && o.isnil.isTrue() {
		return u.isNil(a)
	}
	switch x := a.(type) {
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return u.equal(st, x, y)
		}
		return u.seqAwareEqual(st, u.load(st, x, nil), b)
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := TTrue
			for i := range x.f {
				r = And(r, u.seqAwareEqual(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return u.seqEqual(st, u.seqOf(st, x), u.seqOf(st, y))
		}
	case *Seq:
		if y, ok := b.(*Seq); ok {
			return u.seqEqual(st, x, y)
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return u.mapEqual(st, x, y)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := TFalse
			for _, p := range x.alts {
				for _, q := range y.alts {
					if sameType(p.typ, q.typ) {
						c := TTrue
						if p.typ != nil {
							c = u.seqAwareEqual(st, p.v, q.v)
						}
						r = Or(r, And(p.g, q.g, c))
					}
				}
			}
			return r
		}
	case *FuncV:
		return TFalse
	}
	if p, ok := b.(*PtrV); ok {
		b = u.load(st, p, nil)
	}
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok && x.sort == SReal && y.sort == SInt {
			b = ToReal(y)
		} else if ok && x.sort == SInt && y.sort == SReal {
			a = ToReal(x)
		}
	}
	return u.equal(st, a, b)
}

func (u *Unit) mapEqual(st *State, x, y *MapV) *Term {
	mt := x.typ.Underlying().(*types.Map)
	k := BoundVar("k", sortOf(mt.Key()))
	d := And(Eq(x.dom(k), y.dom(k)), Or(Not(x.dom(k)), u.seqAwareEqual(st, x.val(k), y.val(k))))
	return Quant(OForall, []*Term{k}, d)
}

func (u *Unit) seqEqual(st *State, a, b *Seq) *Term {
	same := len(a.parts) == len(b.parts)
	simple := true // every position can be addressed
	gens := false
	for _, q := range []*Seq{a, b} {
		for i := range q.parts {
			p := &q.parts[i]
			if p.isGen() {
				gens = true
				if _, ok := p.simple(); !ok {
					simple = false
				}
			}
			if same && (a.parts[i].isGen() != b.parts[i].isGen() || p.isGen() && a.parts[i].n != b.parts[i].n) {
				same = false
			}
		}
	}
	if same || !simple || !gens {
		return u.listEqual(st, a.parts, b.parts)
	}
	n := a.length()
	j := BoundVar("i", SInt)
	body := u.seqAwareEqual(st, a.at(j), b.at(j))
	return And(Eq(n, b.length()), Quant(OForall, []*Term{j}, Implies(And(Ge(j, IntC(0)), Lt(j, n)), body)))
}

// ---- discharging

func (v *Verifier) discharge(rep *unitReport, limit time.Duration) {
	u := rep.u
	type job struct {
		o *Obl
		q *Query
	}
	var jobs []job
	for _, o := range rep.obls {
		if o.status != "" {
			continue
		}
		q := v.queryF(u, o.pc, o.goal, o.uses, u.facts[:o.nf], o.env)
		jobs = append(jobs, job{o, q})
	}
	ch := make(chan bool, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			r := v.solver.discharge(j.q, limit, true)
			j.o.by, j.o.secs, j.o.output, j.o.model = r.by, r.secs, r.out, r.model
			switch {
			case r.proved:
				j.o.status = "proved"
			case r.sat:
				j.o.status = "failed"
			default:
				j.o.status = "unknown"
			}
			j.o.query = j.q
			if r.proved && v.confirm {
				j.o.confirmed = v.solver.second(j.q, r.by, 20*time.Second)
			}
			ch <- true
		}()
	}
	for range jobs {
		<-ch
	}
}

// cycles reports a circular use of contracts, which partial correctness would not justify.
func cycles(reps []*unitReport) string {
	edges := map[string][]string{}
	for _, r := range reps {
		edges[r.name] = r.called
	}
	state := map[string]int{}
	var path []string
	var found string
	var visit func(n string)
	visit = func(n string) {
		if found != "" || state[n] == 2 {
			return
		}
		if state[n] == 1 {
			found = strings.Join(append(path, n), " -> ")
			return
		}
		state[n] = 1
		path = append(path, n)
		for _, m := range edges[n] {
			visit(m)
		}
		path = path[:len(path)-1]
		state[n] = 2
	}
	for _, r := range reps {
		visit(r.name)
	}
	return found
}
