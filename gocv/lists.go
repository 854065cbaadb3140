package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"time"
)

// Lists in specifications: cat(l, ...), gen(i, n, l), when(c, l), one(v, ...).

func (e *SEnv) list(x ast.Expr) (*Seq, types.Type) {
	v := e.eval(x)
	if p, ok := v.(*PtrV); ok {
		v = e.u.load(e.st, p, nil)
	}
	if p, ok := v.(*Poison); ok {
		specErr("list %s: %s", exprStr(x), p.why)
	}
	s, ok := v.(*SliceV)
	if !ok {
		specErr("list expected in %s, got %T", exprStr(x), v)
	}
	return e.u.seqOf(e.st, s), s.typ
}

func listV(q *Seq, t types.Type) *SliceV {
	return &SliceV{typ: t, isnil: TFalse, inline: true, inl: q}
}

// extra holds specification builtins beyond the core.
func (e *SEnv) extra(name string, x *ast.CallExpr) (Value, bool) {
	u := e.u
	switch name {
	case "cat":
		r := &Seq{}
		var t types.Type
		for _, a := range x.Args {
			q, qt := e.list(a)
			if t == nil {
				t = qt
			}
			r.parts = append(r.parts, q.parts...)
		}
		return listV(r, t), true
	case "one":
		r := &Seq{}
		for _, a := range x.Args {
			r.parts = append(r.parts, item(TTrue, e.eval(a)))
		}
		return listV(r, nil), true
	case "when":
		c := e.bool(x.Args[0])
		if c.isFalse() {
			return listV(&Seq{}, nil), true
		}
		q, t := e.list(x.Args[1])
		return listV(&Seq{guardParts(c, q.parts)}, t), true
	case "gen":
		id := x.Args[0].(*ast.Ident)
		n := e.term(x.Args[1])
		n = Ite(Ge(n, IntC(0)), n, IntC(0))
		ec := e
		return listV(&Seq{[]Part{{n: n, b: func(i *Term) []Part {
			q, _ := ec.bind(id.Name, i).list(x.Args[2])
			return q.parts
		}}}}, nil), true
	case "let": // let(x, v, body)
		id := x.Args[0].(*ast.Ident)
		return e.bind(id.Name, e.eval(x.Args[1])).eval(x.Args[2]), true
	case "filter": // the elements of one dynamic type, in order
		q, _ := e.list(x.Args[0])
		t := e.specType(x.Args[1])
		r := &Seq{}
		for _, p := range q.parts {
			if p.isGen() {
				specErr("filter of a comprehension")
			}
			v, ok := p.v.(*IfaceV)
			if !ok {
				specErr("filter of %T", p.v)
			}
			for _, a := range v.alts {
				if g := And(p.g, a.g); a.typ != nil && sameType(a.typ, t) && !g.isFalse() {
					r.parts = append(r.parts, item(g, a.v))
				}
			}
		}
		return listV(r, types.NewSlice(t)), true
	case "list": // list(i, LO, HI, v): constant bounds
		id := x.Args[0].(*ast.Ident)
		lo, ok1 := e.term(x.Args[1]).intVal()
		hi, ok2 := e.term(x.Args[2]).intVal()
		if !ok1 || !ok2 || hi-lo > 1000 {
			specErr("bounds of %s", exprStr(x))
		}
		r := &Seq{}
		for i := lo; i < hi; i++ {
			r.parts = append(r.parts, item(TTrue, e.bind(id.Name, IntC(i)).eval(x.Args[3])))
		}
		return listV(r, nil), true
	case "count": // count(i, LO, HI, cond): constant bounds
		id := x.Args[0].(*ast.Ident)
		lo, ok1 := e.term(x.Args[1]).intVal()
		hi, ok2 := e.term(x.Args[2]).intVal()
		if !ok1 || !ok2 || hi-lo > 1000 {
			specErr("bounds of %s", exprStr(x))
		}
		r := IntC(0)
		for i := lo; i < hi; i++ {
			r = Add(r, Ite(e.bind(id.Name, IntC(i)).bool(x.Args[3]), IntC(1), IntC(0)))
		}
		return r, true
	case "yearofday": // the year of a day counted from 1970
		d, ok := e.term(x.Args[0]).intVal()
		if !ok {
			specErr("constant expected in %s", exprStr(x))
		}
		return IntC(int64(time.Unix(86400*d, 0).UTC().Year())), true
	case "day": // midnight UTC of a day counted from 1970
		return TimeV{MulC(big.NewRat(nsDay, 1), e.term(x.Args[0])), locUTC}, true
	case "adddays": // t.AddDate(0, 0, n)
		t, ok := e.eval(x.Args[0]).(TimeV)
		if !ok {
			specErr("time expected in %s", exprStr(x))
		}
		return u.addDate(t, IntC(0), IntC(0), e.term(x.Args[1])), true
	case "addns": // t.Add(n)
		t, ok := e.eval(x.Args[0]).(TimeV)
		if !ok {
			specErr("time expected in %s", exprStr(x))
		}
		return TimeV{Add(t.ns, e.term(x.Args[1])), t.loc}, true
	case "toutc":
		t, ok := e.eval(x.Args[0]).(TimeV)
		if !ok {
			specErr("time expected in %s", exprStr(x))
		}
		return TimeV{t.ns, locUTC}, true
	case "elemutc": // the elements' own dates (a list) or the value's date (an event) are in UTC
		var dateOf func(v Value) *Term
		dateOf = func(v Value) *Term {
			switch v := v.(type) {
			case *IfaceV:
				r := TTrue
				for _, a := range v.alts {
					if a.typ != nil {
						r = And(r, Implies(a.g, dateOf(a.v)))
					}
				}
				return r
			case *StructV:
				st := v.typ.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Date" {
						return Eq(v.f[i].(TimeV).loc, locUTC)
					}
				}
			}
			specErr("elemutc of %T", v)
			return nil
		}
		var all func(ps []Part) *Term
		all = func(ps []Part) *Term {
			r := TTrue
			for _, p := range ps {
				if p.isGen() {
					j := BoundVar("i", SInt)
					r = And(r, Quant(OForall, []*Term{j}, Implies(And(Ge(j, IntC(0)), Lt(j, p.n)), all(p.b(j)))))
				} else {
					r = And(r, Implies(p.g, dateOf(p.v)))
				}
			}
			return r
		}
		switch v := e.eval(x.Args[0]).(type) {
		case *IfaceV:
			return dateOf(v), true
		case *SliceV:
			return all(u.seqOf(e.st, v).parts), true
		}
		specErr("elemutc of %s", exprStr(x))
	case "is", "as": // the dynamic type of an event
		t := e.specType(x.Args[1])
		v, ok := e.eval(x.Args[0]).(*IfaceV)
		if !ok {
			specErr("interface expected in %s", exprStr(x))
		}
		g := TFalse
		for _, a := range v.alts {
			if a.typ != nil && sameType(a.typ, t) {
				if name == "as" {
					return a.v, true
				}
				g = Or(g, a.g)
			}
		}
		if name == "as" {
			return u.zero(t), true
		}
		return g, true
	case "logof", "sortedlog": // the calls that made a list (and put it in order)
		v := e.eval(x.Args[0])
		return listV(u.logOf(e.st, v, name == "sortedlog"), nil), true
	case "of": // of(F, args): what a function taken as opaque gives
		fn := u.v.p.byName[exprStr(x.Args[0])]
		if fn == nil || u.v.byFn[fn] == nil {
			specErr("no function %s", exprStr(x.Args[0]))
		}
		var args []Value
		for _, a := range x.Args[1:] {
			args = append(args, e.eval(a))
		}
		return u.pureResult(e.st, u.v.byFn[fn], args), true
	case "clean":
		return pathClean(e.term(x.Args[0])), true
	case "base":
		return pathBase(e.term(x.Args[0])), true
	case "localopens", "localreads": // a file of the file system
		return UF("local_"+name[5:], SBool, e.term(x.Args[0])), true
	case "localbytes":
		return localBytes(e.term(x.Args[0])), true
	case "decoded": // the bytes that a base64 and gzip text stands for
		return readBytes(gunzipped(e.term(x.Args[0]))), true
	case "decodes":
		r := UF("unbase64", "Opq", UF("reader", "Opq", e.term(x.Args[0])))
		return And(UF("gzip_ok", SBool, r), UF("read_ok", SBool, UF("gunzip", "Opq", r))), true
	case "text": // bytes as a string
		sv, ok := e.eval(x.Args[0]).(*SliceV)
		if !ok {
			specErr("bytes expected in %s", exprStr(x))
		}
		return u.bytesToString(e.st, sv), true
	case "unjson": // unjson(T, bytes)
		id, n := u.bytesKey(e.st, e.eval(x.Args[1]))
		t := e.specType(x.Args[0])
		return u.symbolic(e.st, "json "+t.String(), t, id, n), true
	case "isjson":
		id, n := u.bytesKey(e.st, e.eval(x.Args[0]))
		return UF("json_ok", SBool, id, n), true
	case "dateof", "textof": // of an event, whatever its type
		return u.overEvent(e, x, name), true
	case "dayno": // the day, counted from 1970, of an instant in UTC
		return u.dayOf(e.eval(x.Args[0]).(TimeV).ns), true
	case "ys": // the day number of 1 January
		return yearStartDays(e.term(x.Args[0])), true
	}
	return nil, false
}

func guardParts(c *Term, ps []Part) []Part {
	if c.isTrue() {
		return ps
	}
	r := make([]Part, len(ps))
	for i, p := range ps {
		if p.isGen() {
			p := p
			r[i] = Part{n: Ite(c, p.n, IntC(0)), b: p.b}
		} else {
			r[i] = item(And(c, p.g), p.v)
		}
	}
	return r
}

// composite evaluates a composite literal in a specification.
func (e *SEnv) composite(x *ast.CompositeLit, t types.Type) Value {
	u := e.u
	if x.Type != nil {
		t = e.specType(x.Type)
	}
	if t == nil {
		specErr("type of %s", exprStr(x))
	}
	elem := func(a ast.Expr, et types.Type) Value {
		var v Value
		if c, ok := a.(*ast.CompositeLit); ok {
			v = e.composite(c, et)
		} else {
			v = e.eval(a)
		}
		if tm, ok := v.(*Term); ok && isFloat(et) {
			return coerceTo(tm, SReal)
		}
		return v
	}
	switch tt := t.Underlying().(type) {
	case *types.Struct:
		s := u.zero(t).(*StructV)
		for _, a := range x.Elts {
			kv, ok := a.(*ast.KeyValueExpr)
			if !ok {
				specErr("keyed fields expected in %s", exprStr(x))
			}
			found := false
			for i := 0; i < tt.NumFields(); i++ {
				if tt.Field(i).Name() == kv.Key.(*ast.Ident).Name {
					s.f[i] = elem(kv.Value, tt.Field(i).Type())
					found = true
				}
			}
			if !found {
				specErr("field %s", exprStr(kv.Key))
			}
		}
		return s
	case *types.Slice:
		q := &Seq{}
		for _, a := range x.Elts {
			q.parts = append(q.parts, item(TTrue, elem(a, tt.Elem())))
		}
		return listV(q, t)
	}
	specErr("literal of %s", t)
	return nil
}

func (e *SEnv) specType(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if o, ok := e.u.v.p.pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
			return o.Type()
		}
		if o, ok := types.Universe.Lookup(x.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(e.specType(x.Elt))
		}
	case *ast.SelectorExpr:
		for _, imp := range e.u.v.p.pkg.Imports() {
			if imp.Name() == exprStr(x.X) {
				if o, ok := imp.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	specErr("type %s", exprStr(x))
	return nil
}

var _ = token.ADD

// listEqual says that two lists of guarded items and comprehensions hold the
// same values in the same order, however their guards are laid out.
func (u *Unit) listEqual(st *State, a, b []Part) *Term {
	type key struct{ i, j int }
	memo := map[key]*Term{}
	var eq func(i, j int) *Term
	zero := IntC(0)
	eq = func(i, j int) *Term {
		k := key{i, j}
		if t, ok := memo[k]; ok {
			return t
		}
		var r *Term
		switch {
		case i == len(a) && j == len(b):
			r = TTrue
		case i == len(a):
			r = And(partEmpty(b[j], zero), eq(i, j+1))
		case j == len(b):
			r = And(partEmpty(a[i], zero), eq(i+1, j))
		default:
			p, q := a[i], b[j]
			switch {
			case p.isGen() && q.isGen():
				r = And(u.genEqual(st, p, q), eq(i+1, j+1))
			case p.isGen():
				r = Ite(q.g, TFalse, eq(i, j+1))
				if !r.isTrue() {
					r = Or(r, And(partEmpty(p, zero), eq(i+1, j)))
				}
			case q.isGen():
				r = Ite(p.g, TFalse, eq(i+1, j))
				if !r.isTrue() {
					r = Or(r, And(partEmpty(q, zero), eq(i, j+1)))
				}
			default:
				both := TFalse
				if !And(p.g, q.g).isFalse() {
					both = And(u.seqAwareEqual(st, p.v, q.v), eq(i+1, j+1))
				}
				r = both
				if !q.g.isTrue() {
					r = Ite(q.g, r, eq(i, j+1))
				}
				if !p.g.isTrue() {
					r = Ite(p.g, r, eq(i+1, j))
				}
			}
		}
		memo[k] = r
		return r
	}
	return eq(0, 0)
}

func partEmpty(p Part, zero *Term) *Term {
	if !p.isGen() {
		return Not(p.g)
	}
	if _, ok := p.simple(); ok {
		return Le(p.n, zero)
	}
	// no element at any index
	j := BoundVar("i", SInt)
	r := TTrue
	for _, q := range p.b(j) {
		r = And(r, partEmpty(q, zero))
	}
	return Quant(OForall, []*Term{j}, Implies(And(Ge(j, IntC(0)), Lt(j, p.n)), r))
}

func (u *Unit) genEqual(st *State, p, q Part) *Term {
	j := BoundVar("i", SInt)
	body := u.listEqual(st, p.b(j), q.b(j))
	return And(Eq(p.n, q.n), Quant(OForall, []*Term{j}, Implies(And(Ge(j, IntC(0)), Lt(j, p.n)), body)))
}

// overEvent evaluates the specification NAME_Type(value) for the event's type.
func (u *Unit) overEvent(e *SEnv, x *ast.CallExpr, name string) Value {
	v := e.eval(x.Args[0])
	field := func(s *StructV, n string) Value {
		st := s.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return s.f[i]
			}
		}
		specErr("field %s", n)
		return nil
	}
	one := func(s *StructV) Value {
		if name == "dateof" {
			return field(s, "Date")
		}
		f := u.v.specs["TEXT_"+s.typ.(*types.Named).Obj().Name()]
		if f == nil {
			specErr("text of %s", s.typ)
		}
		return (&SEnv{u, e.st, e.old, map[string]Value{f.params[0]: s}}).eval(f.body)
	}
	if s, ok := v.(*StructV); ok {
		return one(s)
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		specErr("event expected in %s", exprStr(x))
	}
	var r Value
	for _, a := range iv.alts {
		if s, ok := a.v.(*StructV); ok {
			if w := one(s); r == nil {
				r = w
			} else {
				r = mergeV(a.g, w, r)
			}
		}
	}
	return r
}
