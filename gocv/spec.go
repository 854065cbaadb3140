package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- contract files

type Clause struct {
	tags []string
	src  string
	e    ast.Expr
	line string
}

func (c *Clause) has(prop string) bool {
	for _, t := range c.tags {
		if t == prop || t == "*" {
			return true
		}
	}
	return false
}

type SpecFn struct {
	name   string
	params []string
	sort   Sort
	opaque bool
	body   ast.Expr
	auto   []Clause // facts instantiated at every application
	line   string
}

type Lemma struct {
	name    string
	params  []string
	tags    []string
	stmt    ast.Expr
	src     string
	enum    bool // proved by evaluating it at every point of its range
	lo, hi  int64
	uses    []Clause
	axiom   bool
	why     string
	initial bool   // about the values the package's variables start with
	files   string // a package map whose entries stand for the files of a directory
	dir     string
}

type Contract struct {
	key        string
	fn         *types.Func
	names      []string // receiver (if any) and parameters
	hasRecv    bool
	tags       []string
	requires   []Clause
	ensures    []Clause
	modifies   []Clause
	uses       []Clause
	panics     *Clause
	unroll     int
	cases      *caseRange
	shipped    []string
	invariants []Clause // of hidden state: assumed at entry, proved at every exit
	hidden     []Clause // changed, but visible to nobody else
	checkOnly  bool
	like       string
	optional   bool
	inlineAt   map[string]bool
	line       string
	noverify   bool
	logFn      string          // lists are known by the calls of this function that made them
	pure       map[string]bool // calls taken as functions of their arguments
	sortVar    string
	sortKey    ast.Expr
}

func (c *Contract) has(prop string) bool {
	for _, e := range c.ensures {
		if e.has(prop) {
			return true
		}
	}
	return false
}

type Template struct {
	fn   string
	v    *Verifier
	tags []string
}

func (t *Template) has(prop string) bool { return t.tags == nil || (&Clause{tags: t.tags}).has(prop) }

type Verifier struct {
	p            *Prog
	specs        map[string]*SpecFn
	lemmas       map[string]*Lemma
	lemmaList    []*Lemma
	contracts    []*Contract
	byFn         map[*types.Func]*Contract
	templates    []*Template
	prop         string
	stats        struct{ rangeByInterval int }
	solver       *Solver
	files        []string
	missing      []string
	neededLemmas map[string]bool
	usedSpecs    map[string]bool
	noAutos      bool
	confirm      bool // a second solver has to agree where it can
	stop         func(failed bool) bool
	hurry        func() bool
	ground       *ground
	repo, verif  string
}

func (v *Verifier) contractFor(fn *types.Func) *Contract {
	c := v.byFn[fn]
	if c == nil || !c.has(v.prop) {
		return nil
	}
	return c
}

func parseSpecExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	return e
}

func splitTags(kw string) (string, []string) {
	if i := strings.IndexByte(kw, '['); i >= 0 && strings.HasSuffix(kw, "]") {
		return kw[:i], strings.Split(kw[i+1:len(kw)-1], ",")
	}
	return kw, nil
}

func (v *Verifier) loadContracts(dir string) {
	v.specs, v.lemmas = map[string]*SpecFn{}, map[string]*Lemma{}
	v.byFn = map[*types.Func]*Contract{}
	v.neededLemmas = map[string]bool{}
	v.usedSpecs = map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		v.files = append(v.files, f)
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		// join continuation lines
		var lines []string
		var nums []int
		for i, l := range strings.Split(string(b), "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			if strings.TrimSpace(l) == "" {
				continue
			}
			if n := len(lines); n > 0 && strings.HasSuffix(lines[n-1], "\\") {
				lines[n-1] = strings.TrimSuffix(lines[n-1], "\\") + " " + strings.TrimSpace(l)
				continue
			}
			lines = append(lines, strings.TrimRight(l, " \t"))
			nums = append(nums, i+1)
		}
		var c *Contract
		var lastSpec *SpecFn
		var lastLemma *Lemma
		for i, l := range lines {
			where := fmt.Sprintf("%s:%d", filepath.Base(f), nums[i])
			fs := strings.Fields(l)
			rest := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), fs[0]))
			kw, tags := splitTags(fs[0])
			if l[0] != ' ' && l[0] != '\t' {
				c, lastSpec, lastLemma = nil, nil, nil
			}
			clause := func() Clause {
				t := tags
				if t == nil && c != nil {
					t = c.tags
				}
				return Clause{t, rest, parseSpecExpr(rest, where), where}
			}
			switch kw {
			case "spec":
				lastSpec = v.parseSpec(rest, where)
			case "auto":
				lastSpec.auto = append(lastSpec.auto, clause())
			case "lemma", "axiom":
				lastLemma = v.parseLemma(kw, tags, rest, where)
			case "why":
				lastLemma.why = rest
			case "template":
				v.templates = append(v.templates, &Template{rest, v, tags})
			case "func":
				c = v.parseFunc(rest, where)
			case "props":
				c.tags = strings.Fields(rest)
			case "requires":
				c.requires = append(c.requires, clause())
			case "ensures":
				c.ensures = append(c.ensures, clause())
			case "modifies":
				for _, m := range strings.Fields(rest) {
					c.modifies = append(c.modifies, Clause{tags, m, parseSpecExpr(m, where), where})
				}
			case "invariant":
				c.invariants = append(c.invariants, clause())
			case "hidden":
				for _, m := range strings.Fields(rest) {
					c.hidden = append(c.hidden, Clause{tags, m, parseSpecExpr(m, where), where})
				}
			case "use":
				if lastLemma != nil {
					lastLemma.uses = append(lastLemma.uses, clause())
				} else {
					c.uses = append(c.uses, clause())
				}
			case "panics":
				cl := clause()
				c.panics = &cl
			case "unroll":
				c.unroll, _ = strconv.Atoi(rest)
			case "cases": // p LO..HI
				m := strings.Fields(rest)
				r := strings.Split(m[1], "..")
				c.cases = &caseRange{param: m[0]}
				c.cases.lo, _ = strconv.ParseInt(r[0], 10, 64)
				c.cases.hi, _ = strconv.ParseInt(r[1], 10, 64)
			case "shipped": // SWITCH TABLE...: with the switch off, and with it on and the tables as shipped
				c.shipped = strings.Fields(rest)
			case "inline":
				c.inlineAt = map[string]bool{}
				for _, k := range strings.Fields(rest) {
					c.inlineAt[k] = true
				}
			case "log":
				c.logFn = rest
				logsInUse = true
			case "opaque": // calls taken as arbitrary functions of their arguments
				c.pure = map[string]bool{}
				for _, k := range strings.Fields(rest) {
					c.pure[k] = true
				}
			case "sortkey": // x KEY
				k := strings.SplitN(rest, " ", 2)
				c.sortVar, c.sortKey = k[0], parseSpecExpr(k[1], where)
			case "checkonly": // callers see the body, not this contract
				c.checkOnly = true
			case "like": // the signature, should the unexported function have another name
				c.like = rest
			case "optional": // an unexported function that may be gone: its callers are verified with its body
				c.optional = true
			default:
				panic(where + ": unknown keyword " + kw)
			}
		}
	}
	for _, c := range v.contracts {
		fn := v.p.byName[c.key]
		if fn == nil && c.like != "" {
			fn = v.p.likeSig(c.like, v)
		}
		if fn == nil {
			v.missing = append(v.missing, c.key)
			continue
		}
		c.fn = fn
		v.byFn[fn] = c
	}
}

func (v *Verifier) parseSpec(s, where string) *SpecFn {
	f := &SpecFn{line: where, sort: SInt}
	if strings.HasPrefix(s, "opaque ") {
		f.opaque = true
		s = strings.TrimPrefix(s, "opaque ")
	}
	op := strings.IndexByte(s, '(')
	cl := strings.IndexByte(s, ')')
	f.name = strings.TrimSpace(s[:op])
	for _, p := range strings.Split(s[op+1:cl], ",") {
		if p = strings.TrimSpace(p); p != "" {
			f.params = append(f.params, p)
		}
	}
	rest := s[cl+1:]
	body := ""
	if i := strings.Index(rest, "="); i >= 0 {
		body = strings.TrimSpace(rest[i+1:])
		rest = rest[:i]
	}
	switch strings.TrimSpace(rest) {
	case "bool":
		f.sort = SBool
	case "real":
		f.sort = SReal
	case "string":
		f.sort = SStr
	}
	if body != "" {
		f.body = parseSpecExpr(body, where)
	}
	v.specs[f.name] = f
	return f
}

// lemma NAME(params) [enum LO..HI]: EXPR
func (v *Verifier) parseLemma(kw string, tags []string, s, where string) *Lemma {
	l := &Lemma{tags: tags, axiom: kw == "axiom"}
	i := strings.Index(s, ":")
	head := s[:i]
	l.src = strings.TrimSpace(s[i+1:])
	l.stmt = parseSpecExpr(l.src, where)
	op := strings.IndexByte(head, '(')
	cl := strings.IndexByte(head, ')')
	l.name = strings.TrimSpace(head[:op])
	for _, p := range strings.Split(head[op+1:cl], ",") {
		l.params = append(l.params, strings.TrimSpace(p))
	}
	if m := strings.Fields(head[cl+1:]); len(m) == 2 && m[0] == "enum" {
		l.enum = true
		r := strings.Split(m[1], "..")
		l.lo, _ = strconv.ParseInt(r[0], 10, 64)
		l.hi, _ = strconv.ParseInt(r[1], 10, 64)
	}
	if strings.TrimSpace(head[cl+1:]) == "initial" {
		l.initial = true
	}
	if m := strings.Fields(head[cl+1:]); len(m) == 3 && m[0] == "files" {
		l.files, l.dir = m[1], m[2]
	}
	v.lemmas[l.name] = l
	v.lemmaList = append(v.lemmaList, l)
	return l
}

// func (recv) T.M(a, b)   or   func F(a, b)
func (v *Verifier) parseFunc(s, where string) *Contract {
	c := &Contract{line: where}
	if s[0] == '(' {
		cl := strings.IndexByte(s, ')')
		c.names = append(c.names, strings.TrimSpace(s[1:cl]))
		c.hasRecv = true
		s = strings.TrimSpace(s[cl+1:])
	}
	op := strings.IndexByte(s, '(')
	c.key = strings.TrimSpace(s[:op])
	for _, p := range strings.Split(strings.TrimSuffix(s[op+1:], ")"), ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.names = append(c.names, p)
		}
	}
	v.contracts = append(v.contracts, c)
	return c
}

// ---- evaluating specification expressions

type SEnv struct {
	u    *Unit
	st   *State
	old  *State
	vars map[string]Value
}

func (e *SEnv) bind(n string, v Value) *SEnv {
	m := map[string]Value{}
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	return &SEnv{e.u, e.st, e.old, m}
}

func specErr(f string, a ...interface{}) { fail("specification: "+f, a...) }

func (e *SEnv) bool(x ast.Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		specErr("boolean expected in %s", exprStr(x))
	}
	return t
}

func (e *SEnv) term(x ast.Expr) *Term {
	v := e.eval(x)
	if t, ok := v.(*Term); ok {
		return t
	}
	if p, ok := v.(*PtrV); ok {
		if t, ok := e.u.load(e.st, p, nil).(*Term); ok {
			return t
		}
	}
	specErr("scalar expected in %s, got %T", exprStr(x), v)
	return nil
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *SEnv) eval(x ast.Expr) Value {
	u := e.u
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			return BigC(n)
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(x.Value)
			return Num(r, SReal)
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return StrC(s)
		}
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return TTrue
		case "false":
			return TFalse
		case "PI":
			r, _ := new(big.Rat).SetString("3.14159265358979323846264338327950288")
			return Num(r, SReal)
		case "DAY":
			return IntC(nsDay)
		}
		if o := u.v.p.pkg.Scope().Lookup(x.Name); o != nil {
			switch o := o.(type) {
			case *types.Var:
				return u.get(e.st, u.global(o))
			case *types.Const:
				if o.Val().Kind() == constant.Int {
					return u.constTerm(o.Val(), types.Typ[types.Int])
				}
				return u.constTerm(o.Val(), o.Type())
			}
		}
		specErr("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return Not(e.bool(x.X))
		case token.SUB:
			return Neg(e.term(x.X))
		}
	case *ast.StarExpr:
		if p, ok := e.eval(x.X).(*PtrV); ok {
			return u.load(e.st, p, nil)
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a := e.bool(x.X)
			if a.isFalse() {
				return a
			}
			return And(a, e.bool(x.Y))
		case token.LOR:
			if a := e.bool(x.X); a.isTrue() {
				return a
			}
			return Or(e.bool(x.X), e.bool(x.Y))
		}
		// |t| <= c as two bounds
		if c, ok := x.X.(*ast.CallExpr); ok && isCallTo(c, "abs") && (x.Op == token.LEQ || x.Op == token.LSS) {
			t, k := e.term(c.Args[0]), e.term(x.Y)
			if x.Op == token.LEQ {
				return And(Le(t, k), Le(Neg(k), t))
			}
			return And(Lt(t, k), Lt(Neg(k), t))
		}
		a, b := e.eval(x.X), e.eval(x.Y)
		switch x.Op {
		case token.EQL:
			return u.seqAwareEqual(e.st, a, b)
		case token.NEQ:
			return Not(u.seqAwareEqual(e.st, a, b))
		}
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		if !ok1 || !ok2 {
			specErr("operands of %s in %s", x.Op, exprStr(x))
		}
		switch x.Op {
		case token.ADD:
			if ta.sort == SStr {
				return concat(ta, tb)
			}
			return Add(ta, tb)
		case token.SUB:
			return Sub(ta, tb)
		case token.MUL:
			return Mul(ta, tb)
		case token.QUO:
			if ta.sort == SInt && tb.sort == SInt {
				ta, tb = ToReal(ta), ToReal(tb)
			}
			return RDiv(ta, tb)
		case token.LSS:
			return Lt(ta, tb)
		case token.LEQ:
			return Le(ta, tb)
		case token.GTR:
			return Gt(ta, tb)
		case token.GEQ:
			return Ge(ta, tb)
		}
	case *ast.SelectorExpr:
		v := e.eval(x.X)
		if p, ok := v.(*PtrV); ok {
			v = u.load(e.st, p, nil)
		}
		if s, ok := v.(*StructV); ok {
			st := s.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.Sel.Name {
					return s.f[i]
				}
			}
		}
		specErr("field %s of %T", x.Sel.Name, v)
	case *ast.IndexExpr:
		v := e.eval(x.X)
		i := e.term(x.Index)
		switch m := v.(type) {
		case *MapV:
			if m.tag == "objects" {
				// a missing entry is unspecified, not nil
				return m.val(i)
			}
			r, _ := u.mapGet(m, i, m.typ.Underlying().(*types.Map))
			return r
		case *SliceV:
			return u.seqOf(e.st, m).at(i)
		}
		specErr("index of %T", v)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.CompositeLit:
		return e.composite(x, nil)
	}
	specErr("expression %s", exprStr(x))
	return nil
}

func (e *SEnv) call(x *ast.CallExpr) Value {
	u := e.u
	name, ok := x.Fun.(*ast.Ident)
	if !ok {
		specErr("call %s", exprStr(x))
	}
	arg := func(i int) *Term { return e.term(x.Args[i]) }
	tm := func(i int) TimeV {
		v := e.eval(x.Args[i])
		if p, ok := v.(*PtrV); ok {
			v = u.load(e.st, p, nil)
		}
		t, ok := v.(TimeV)
		if !ok {
			specErr("time expected in %s", exprStr(x))
		}
		return t
	}
	switch name.Name {
	case "old":
		return u.inlineSlices(e.old, (&SEnv{u, e.old, e.old, e.vars}).eval(x.Args[0]))
	case "fdiv":
		return FDiv(arg(0), arg(1))
	case "fmod":
		return FMod(arg(0), arg(1))
	case "implies":
		c := e.bool(x.Args[0])
		if c.isFalse() {
			return TTrue
		}
		return Implies(c, e.bool(x.Args[1]))
	case "iff":
		return Eq(e.bool(x.Args[0]), e.bool(x.Args[1]))
	case "ite":
		c := e.bool(x.Args[0])
		if c.isTrue() {
			return e.eval(x.Args[1])
		}
		if c.isFalse() {
			return e.eval(x.Args[2])
		}
		return mergeV(c, e.eval(x.Args[1]), e.eval(x.Args[2]))
	case "floor":
		return ToInt(arg(0))
	case "real":
		return ToReal(arg(0))
	case "abs":
		t := arg(0)
		z := IntC(0)
		if t.sort == SReal {
			z = RealC(0)
		}
		return Ite(Ge(t, z), t, Neg(t))
	case "sine": // of an angle in degrees
		r, _ := new(big.Rat).SetString("3.14159265358979323846264338327950288")
		return sinTerm(MulC(new(big.Rat).Quo(r, big.NewRat(180, 1)), ToReal(arg(0))))
	case "ns":
		return tm(0).ns
	case "utc":
		return Eq(tm(0).loc, locUTC)
	case "loc":
		return tm(0).loc
	case "year":
		return u.yearOf(e.st, tm(0))
	case "has":
		m, ok := e.eval(x.Args[0]).(*MapV)
		if !ok {
			specErr("map expected")
		}
		return m.dom(arg(1))
	case "asshipped": // a package variable has the value a program starts with
		id, ok := x.Args[0].(*ast.Ident)
		if !ok {
			specErr("variable expected in %s", exprStr(x))
		}
		g, ok := u.v.p.pkg.Scope().Lookup(id.Name).(*types.Var)
		if !ok {
			specErr("no variable %s", id.Name)
		}
		o := u.global(g)
		if w, ok := e.st.heap[o]; ok && w != u.ginits[o] {
			specErr("%s has changed", id.Name)
		}
		if u.shipped[g] {
			return TTrue
		}
		return UF("asshipped."+id.Name, SBool)
	case "isnil":
		return u.isNil(e.eval(x.Args[0]))
	case "len":
		v := e.eval(x.Args[0])
		if s, ok := v.(*SliceV); ok {
			return u.seqOf(e.st, s).length()
		}
		if t, ok := v.(*Term); ok {
			return strlen(t)
		}
		specErr("len of %T", v)
	case "date": // nanoseconds of midnight UTC
		y, _ := arg(0).intVal()
		m, _ := arg(1).intVal()
		d, _ := arg(2).intVal()
		return timeNS(time.Date(int(y), time.Month(m), int(d), 0, 0, 0, 0, time.UTC))
	case "itoa":
		return itoa(arg(0))
	case "title":
		return mapIte(arg(0), func(t *Term) *Term {
			if t.op == OStrC {
				return StrC(strings.Title(t.name))
			}
			return UF("title", SStr, t)
		})
	case "forall", "exists": // forall(i, lo, hi, body)
		id := x.Args[0].(*ast.Ident)
		bv := BoundVar(id.Name, SInt)
		lo, hi := arg(1), arg(2)
		if Lt(lo, hi).isFalse() {
			return BoolC(name.Name == "forall")
		}
		if l, ok := lo.intVal(); ok && u.ground != nil {
			if h, ok := hi.intVal(); ok && h-l < 1000 {
				r := BoolC(name.Name == "forall")
				for i := l; i < h; i++ {
					b := e.bind(id.Name, IntC(i)).bool(x.Args[3])
					if name.Name == "forall" {
						r = And(r, b)
					} else {
						r = Or(r, b)
					}
					if r.isTrue() && name.Name == "exists" || r.isFalse() && name.Name == "forall" {
						break
					}
				}
				return r
			}
		}
		in := And(Le(lo, bv), Lt(bv, hi))
		b := e.bind(id.Name, bv).bool(x.Args[3])
		if name.Name == "forall" {
			return Quant(OForall, []*Term{bv}, Implies(in, b))
		}
		return Quant(OExists, []*Term{bv}, And(in, b))
	case "run": // run(i, F, args...): the i-th result of the real function F, executed here
		i, _ := strconv.Atoi(x.Args[0].(*ast.BasicLit).Value)
		fn := u.v.p.byName[exprStr(x.Args[1])]
		if fn == nil {
			specErr("no function %s", exprStr(x.Args[1]))
		}
		var args []Value
		for _, a := range x.Args[2:] {
			args = append(args, e.eval(a))
		}
		st := e.st.clone()
		u.quiet++
		u.inlining++
		r := u.callFunc(nil, &st, fn, nil, args, x)
		u.inlining--
		u.quiet--
		if tv, ok := r.(*TupleV); ok {
			return tv.vs[i]
		}
		return r
	case "same": // the whole value is unchanged
		return u.seqAwareEqual(e.st, e.eval(x.Args[0]), (&SEnv{u, e.old, e.old, e.vars}).eval(x.Args[0]))
	}
	if l, ok := u.v.lemmas[name.Name]; ok {
		env := &SEnv{u, e.st, e.old, map[string]Value{}}
		for i, p := range l.params {
			env.vars[p] = e.eval(x.Args[i])
		}
		return env.inst(l)
	}
	f, ok := u.v.specs[name.Name]
	if !ok {
		if r, ok := e.extra(name.Name, x); ok {
			return r
		}
		specErr("unknown function %s", name.Name)
	}
	if len(x.Args) != len(f.params) {
		specErr("arguments of %s", f.name)
	}
	if f.opaque {
		ts := make([]*Term, len(x.Args))
		for i := range x.Args {
			ts[i] = arg(i)
		}
		return u.specApp(f, ts)
	}
	env := &SEnv{u, e.st, e.old, map[string]Value{}}
	for i, p := range f.params {
		v := e.eval(x.Args[i])
		if ptr, ok := v.(*PtrV); ok {
			v = u.load(e.st, ptr, nil)
		}
		env.vars[p] = v
	}
	return env.eval(f.body)
}

// inst is the lemma's statement for given arguments, guarded by its range.
func (e *SEnv) inst(l *Lemma) *Term {
	s := e.bool(l.stmt)
	if l.enum {
		y := e.vars[l.params[0]].(*Term)
		return Implies(And(Le(IntC(l.lo), y), Le(y, IntC(l.hi))), s)
	}
	return s
}

// specApp builds an opaque application and registers its interval.
func (u *Unit) specApp(f *SpecFn, ts []*Term) *Term {
	if r := u.foldSpec(f, ts); r != nil {
		return r
	}
	n := "spec:" + f.name
	t := UF(n, f.sort, ts...)
	if f.sort != SBool && f.body != nil {
		if _, ok := ufRange[n]; !ok {
			v := u.v
			busy := false
			ufRange[n] = func(t *Term, e *BEnv) Iv {
				if busy {
					return Iv{}
				}
				busy = true
				defer func() { busy = false }()
				b := v.unfold(u, f, t.args)
				return e.iv(b)
			}
		}
	}
	return t
}

// unfold gives the definition of an opaque application.
func (v *Verifier) unfold(u *Unit, f *SpecFn, args []*Term) *Term {
	env := &SEnv{u, u.specState(), u.specState(), map[string]Value{}}
	for i, p := range f.params {
		env.vars[p] = args[i]
	}
	return env.term(f.body)
}

func (u *Unit) specState() *State { return &State{heap: map[*Obj]Value{}, env: u.env0} }

// autos gives the facts attached to an opaque application.
func (v *Verifier) autos(u *Unit, f *SpecFn, args []*Term) []*Term {
	if v.noAutos {
		return nil
	}
	var r []*Term
	v.usedSpecs[f.name] = true
	env := &SEnv{u, u.specState(), u.specState(), map[string]Value{}}
	for i, p := range f.params {
		env.vars[p] = args[i]
	}
	for _, a := range f.auto {
		r = append(r, env.bool(a.e))
	}
	return r
}

// ---- templates

func (t *Template) apply(u *Unit, arg *Term) *Term {
	f := u.v.specs[t.fn]
	return u.specApp(f, []*Term{arg})
}

// anchors: the arguments at which the template is known to equal t0.
func (t *Template) anchors(u *Unit, t0 *Term, pc []*Term) []*Term {
	f := u.v.specs[t.fn]
	if t0.op == OUF && t0.name == "spec:"+f.name {
		return t0.args
	}
	if t0.isNum() {
		// the base point stated by an auto fact  F(const) == const
		for _, a := range f.auto {
			if b, ok := a.e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				if c, ok := b.X.(*ast.CallExpr); ok && len(c.Args) == 1 {
					if lit, ok := c.Args[0].(*ast.BasicLit); ok {
						env := &SEnv{u, u.specState(), u.specState(), map[string]Value{}}
						if env.term(b.Y) == t0 {
							return []*Term{env.term(lit)}
						}
					}
				}
			}
		}
	}
	// a specification application plus whole days
	if t0.op == OLin {
		for _, a := range t0.args {
			if a.op == OUF && a.name == "spec:"+f.name {
				return []*Term{a.args[0]}
			}
		}
	}
	// a symbol that an earlier loop left equal to an application
	var r []*Term
	for _, p := range pc {
		cs := []*Term{p}
		if p.op == OAnd {
			cs = p.args
		}
		for _, q := range cs {
			if q.op != OEq0 {
				continue
			}
			for _, a := range q.args[0].args {
				if a.op == OUF && a.name == "spec:"+f.name && len(a.args) == 1 && Eq(t0, a) == q {
					r = append(r, a.args[0])
				}
			}
		}
	}
	return r
}

// base: the arguments of the base points stated by auto facts.
func (t *Template) base(u *Unit) []*Term {
	var r []*Term
	for _, a := range u.v.specs[t.fn].auto {
		if b, ok := a.e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if c, ok := b.X.(*ast.CallExpr); ok && len(c.Args) == 1 {
				if lit, ok := c.Args[0].(*ast.BasicLit); ok {
					env := &SEnv{u, u.specState(), u.specState(), map[string]Value{}}
					r = append(r, env.term(lit))
				}
			}
		}
	}
	return r
}
