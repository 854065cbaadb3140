package main

import (
	"go/ast"
	"go/types"
	"math/big"
	"path"
	"strconv"
	"strings"
	"time"
)

// Models of the standard library and of the few dependencies, all trusted.

const nsDay = 86400000000000

func (u *Unit) libVar(v *types.Var) Value {
	k := v.Pkg().Path() + "." + v.Name()
	switch k {
	case "time.UTC":
		return single(&Place{obj: u.libObj("time.UTC", locUTC)})
	case "encoding/base64.StdEncoding":
		return &OpaqueV{typ: v.Type(), isnil: TFalse, id: UF(k, "Opq")}
	}
	if types.IsInterface(v.Type()) || isRef(v.Type()) {
		u.trusted["package variable "+k+" is a fixed non-nil value"] = true
		return &OpaqueV{typ: v.Type(), isnil: TFalse, id: UF(k, "Opq")}
	}
	fail("package variable %s", k)
	return nil
}

func (u *Unit) libObj(name string, v Value) *Obj {
	for o := range u.ginits {
		if o.name == name {
			return o
		}
	}
	o := &Obj{id: -2, name: name, global: true}
	u.ginits[o] = v
	return o
}

// locOf gives the location term behind a *time.Location value.
func (u *Unit) locOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case *PtrV:
		if t, ok := u.load(st, x, nil).(*Term); ok {
			return t
		}
	case *OpaqueV:
		return UF("locof", SLoc, x.id)
	case locV:
		return x.t
	}
	fail("location value %T", v)
	return nil
}

// locV is a *time.Location.
type locV struct{ t *Term }

// ---- calendar arithmetic

// yearStartDays is the day number (from 1970-01-01) of 1 January of year y.
func yearStartDays(y *Term) *Term {
	p := Sub(y, IntC(1))
	d := MulC(big.NewRat(365, 1), p)
	d = Add(d, FDiv(p, IntC(4)))
	d = Sub(d, FDiv(p, IntC(100)))
	d = Add(d, FDiv(p, IntC(400)))
	return Sub(d, IntC(719162))
}

func (u *Unit) dayOf(ns *Term) *Term { return FDiv(ns, IntC(nsDay)) }

// yearOf is time.Time.Year.
func (u *Unit) yearOf(st *State, t TimeV) *Term {
	if n, ok := constInt(t.ns); ok && t.loc == locUTC {
		return IntC(int64(unixNS(n).Year()))
	}
	if t.loc != locUTC {
		return UF("year_in", SInt, t.ns, t.loc)
	}
	d := u.dayOf(t.ns)
	y := UF("year_of_day", SInt, d)
	lo, hi := yearStartDays(y), yearStartDays(Add(y, IntC(1)))
	u.fact(And(Le(lo, d), Lt(d, hi)))
	return y
}

func constInt(t *Term) (*big.Int, bool) {
	if t.isNum() && t.rat.IsInt() {
		return t.rat.Num(), true
	}
	return nil, false
}

func unixNS(n *big.Int) time.Time {
	s, r := new(big.Int).DivMod(n, big.NewInt(1000000000), new(big.Int))
	return time.Unix(s.Int64(), r.Int64()).UTC()
}

func timeNS(t time.Time) *Term {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000))
	n.Add(n, big.NewInt(int64(t.Nanosecond())))
	return BigC(n)
}

func (u *Unit) addDate(t TimeV, y, m, d *Term) TimeV {
	yy, ok1 := y.intVal()
	mm, ok2 := m.intVal()
	if ok1 && ok2 && yy == 0 && mm == 0 {
		if t.loc == locUTC {
			return TimeV{Add(t.ns, MulC(big.NewRat(nsDay, 1), d)), t.loc}
		}
		return TimeV{UF("add_days", SInt, t.ns, t.loc, d), t.loc}
	}
	return TimeV{UF("add_date", SInt, t.ns, t.loc, y, m, d), t.loc}
}

func ymd(what string, t TimeV) *Term { return UF(what, SInt, t.ns, t.loc) }

// libCall models a call to a function outside the package. handled=false means unknown.
func (u *Unit) libCall(fr *Frame, st **State, fn *types.Func, recv Value, args []Value, call *ast.CallExpr) (Value, bool) {
	name := fn.FullName()
	term := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			fail("argument of %s", name)
		}
		return t
	}
	rt := func() TimeV {
		t, ok := recv.(TimeV)
		if !ok {
			fail("receiver of %s is %T", name, recv)
		}
		return t
	}
	at := func(i int) TimeV {
		t, ok := args[i].(TimeV)
		if !ok {
			fail("argument of %s is %T", name, args[i])
		}
		return t
	}
	nilErr := func() Value { return &OpaqueV{typ: nil, isnil: TTrue, id: UF("nil", "Opq")} }
	u.trusted["library model: "+name] = true
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
		if u.libSort(fr, st, name, args, call) {
			return nil, true
		}
	case "math.Floor":
		return ToReal(u.fl.floor(*st, term(0))), true
	case "math.Ceil":
		return ToReal(Neg(u.fl.floor(*st, u.negF(term(0))))), true
	case "math.Trunc":
		return ToReal(u.fl.toInt(*st, term(0))), true
	case "math.Abs":
		x := term(0)
		return Ite(Ge(x, RealC(0)), x, Neg(x)), true
	case "math.Sin":
		return u.fl.sin(*st, term(0)), true
	case "math.Mod":
		x, y := term(0), term(1)
		if u.fl.u.spec == 0 && y.isNum() && y.rat.Sign() > 0 {
			// exact by definition: x - y*trunc(x/y)
			q := Ite(Ge(x, RealC(0)), ToInt(RDiv(x, y)), Neg(ToInt(RDiv(Neg(x), y))))
			r := Sub(x, Mul(ToReal(q), y))
			u.fl.isFloat[r] = true
			return r, true
		}
	case "math.Min":
		return Ite(Le(term(0), term(1)), term(0), term(1)), true
	case "math.Max":
		return Ite(Ge(term(0), term(1)), term(0), term(1)), true

	case "strconv.Itoa":
		return itoa(term(0)), true
	case "strconv.FormatInt":
		if b, ok := term(1).intVal(); ok && b == 10 {
			return itoa(term(0)), true
		}
	case "fmt.Sprintf":
		return u.sprintf(fr, st, call, args, 0)
	case "fmt.Sprint", "fmt.Sprintln":
		if t, ok := u.sprint(fr, st, call, args, 0, name == "fmt.Sprintln"); ok {
			return t, true
		}
		if *st == nil {
			return TFalse, true
		}
		return u.opaqueResult(name, args, SStr), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		var t Value
		ok := false
		switch name {
		case "fmt.Fprintf":
			t, ok = u.sprintf(fr, st, call, args[1:], 1)
		case "io.WriteString":
			t, ok = args[1].(*Term)
		default:
			t, ok = u.sprint(fr, st, call, args[1:], 1, name == "fmt.Fprintln")
		}
		if *st == nil {
			return TFalse, true
		}
		p, isP := args[0].(*PtrV)
		if !ok || !isP {
			return nil, false
		}
		if pt, isPt := valueType(p).(*types.Pointer); !isPt || !isBuilder(pt.Elem()) {
			return nil, false
		}
		u.store(*st, p, concat(u.load(*st, p, call).(*Term), t.(*Term)), call)
		return &TupleV{[]Value{strlen(t.(*Term)), nilErr()}}, true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).String", "(*bytes.Buffer).String", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte",
		"(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "(*strings.Builder).Len", "(*bytes.Buffer).Len", "(*strings.Builder).Reset", "(*bytes.Buffer).Reset", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		p, ok := recv.(*PtrV)
		if !ok {
			return nil, false
		}
		b, ok := u.load(*st, p, call).(*Term)
		if !ok {
			return nil, false
		}
		switch fn.Name() {
		case "String":
			return b, true
		case "Len":
			return strlen(b), true
		case "Reset":
			u.store(*st, p, StrC(""), call)
			return &TupleV{}, true
		case "Grow":
			u.require(*st, "panic", "a builder grows by a count", call, Ge(term(0), IntC(0)))
			return &TupleV{}, true
		case "WriteString":
			u.store(*st, p, concat(b, term(0)), call)
			return &TupleV{[]Value{strlen(term(0)), nilErr()}}, true
		}
		c, isC := term(0).intVal()
		if !isC || c >= 128 && fn.Name() == "WriteByte" {
			return nil, false
		}
		w := StrC(string(rune(c)))
		u.store(*st, p, concat(b, w), call)
		if fn.Name() == "WriteByte" {
			return nilErr(), true
		}
		return &TupleV{[]Value{strlen(w), nilErr()}}, true
	case "fmt.Errorf", "errors.New":
		return &OpaqueV{typ: nil, isnil: TFalse, id: u.fresh("err", "Opq")}, true
	case "strings.Title":
		if t := term(0); t.op == OStrC {
			return StrC(strings.Title(t.name)), true
		}
		return mapIte(term(0), func(t *Term) *Term {
			if t.op == OStrC {
				return StrC(strings.Title(t.name))
			}
			return UF("title", SStr, t)
		}), true
	case "strings.Join":
		sv, ok := args[0].(*SliceV)
		if !ok {
			return nil, false
		}
		q := u.seqOf(*st, sv)
		var ps []*Term
		for i, p := range q.parts {
			if p.isGen() || !p.g.isTrue() {
				return nil, false
			}
			if i > 0 {
				ps = append(ps, term(1))
			}
			ps = append(ps, p.v.(*Term))
		}
		return concat(ps...), true
	case "path.Clean", "path/filepath.Clean":
		return pathClean(term(0)), true
	case "bytes.NewBufferString", "strings.NewReader":
		return &OpaqueV{typ: fn.Type().(*types.Signature).Results().At(0).Type(), isnil: TFalse, id: UF("reader", "Opq", term(0))}, true
	case "bytes.NewReader":
		// the reader is a cell that holds what is still to be read
		v, ok := args[0].(*SliceV)
		if !ok {
			return nil, false
		}
		o := u.newObj("reader", fn.Type().(*types.Signature).Results().At(0).Type().(*types.Pointer).Elem())
		(*st).heap[o] = v
		return &PtrV{[]PtrAlt{{TTrue, &Place{obj: o}}}}, true
	case "encoding/base64.NewDecoder":
		r, ok := args[1].(*OpaqueV)
		e, ok2 := args[0].(*OpaqueV)
		if !ok || !ok2 || e.id.name != "encoding/base64.StdEncoding" {
			return nil, false
		}
		return &OpaqueV{typ: fn.Type().(*types.Signature).Results().At(0).Type(), isnil: TFalse, id: UF("unbase64", "Opq", r.id)}, true
	case "compress/gzip.NewReader":
		r, ok := args[0].(*OpaqueV)
		if !ok {
			return nil, false
		}
		good := UF("gzip_ok", SBool, r.id)
		return &TupleV{[]Value{&OpaqueV{typ: fn.Type().(*types.Signature).Results().At(0).Type(), isnil: Not(good), id: UF("gunzip", "Opq", r.id)},
			&OpaqueV{isnil: good, id: UF("gzip_err", "Opq", r.id)}}}, true
	case "io/ioutil.ReadAll", "io.ReadAll":
		if b, e, ok := u.readCell(*st, args[0], call); ok {
			return &TupleV{[]Value{b, e}}, true
		}
		r, ok := args[0].(*OpaqueV)
		if !ok {
			return nil, false
		}
		u.require(*st, "nil", "reader is not nil", call, Not(r.isnil))
		if u.consumed[r.id] && u.quiet == 0 {
			fail("a reader is read twice")
		}
		u.consumed[r.id] = true
		good := UF("read_ok", SBool, r.id)
		b := readBytes(r.id)
		b.typ = fn.Type().(*types.Signature).Results().At(0).Type()
		return &TupleV{[]Value{b, &OpaqueV{isnil: good, id: UF("read_err", "Opq", r.id)}}}, true
	case "path.Base", "path/filepath.Base":
		return pathBase(term(0)), true
	case "os.Open":
		return u.openLocal(*st, fn, term(0)), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		p := term(0)
		ok := UF("local_opens", SBool, p)
		b := localBytes(p)
		b.typ = fn.Type().(*types.Signature).Results().At(0).Type()
		b.isnil = Not(ok)
		b.inl.parts[0].n = Ite(ok, b.inl.parts[0].n, IntC(0))
		return &TupleV{[]Value{b, &OpaqueV{isnil: And(ok, UF("local_reads", SBool, p)), id: UF("local_err", "Opq", p)}}}, true
	case "(*os.File).Close":
		return u.closeLocal(*st, recv, call), true
	case "path/filepath.Join", "path.Join":
		if len(args) == 1 {
			if sv, ok := args[0].(*variadic); ok {
				var ps []*Term
				for _, v := range sv.vs {
					ps = append(ps, v.(*Term))
				}
				return pathJoin(ps), true
			}
		}

	case "time.Parse":
		a, b := term(0), term(1)
		if a.op == OStrC && b.op == OStrC {
			t, err := time.Parse(a.name, b.name)
			if err != nil {
				return &TupleV{[]Value{u.zero(fn.Type().(*types.Signature).Results().At(0).Type()), &OpaqueV{isnil: TFalse, id: u.fresh("err", "Opq")}}}, true
			}
			if t.Location() != time.UTC {
				fail("time.Parse with a zone")
			}
			return &TupleV{[]Value{TimeV{timeNS(t), locUTC}, nilErr()}}, true
		}
	case "time.Date":
		return u.timeDate(*st, args), true
	case "time.Now":
		return TimeV{u.fresh("now", SInt), UF("Local", SLoc)}, true
	case "time.Unix":
		return TimeV{Add(MulC(big.NewRat(1000000000, 1), term(0)), term(1)), UF("Local", SLoc)}, true
	case "(time.Time).Add":
		t := rt()
		return TimeV{Add(t.ns, term(0)), t.loc}, true
	case "(time.Time).AddDate":
		return u.addDate(rt(), term(0), term(1), term(2)), true
	case "(time.Time).Sub":
		d := Sub(rt().ns, at(0).ns)
		u.checkRange(*st, d, fn.Type().(*types.Signature).Results().At(0).Type(), call)
		return d, true
	case "(time.Time).Year":
		return u.yearOf(*st, rt()), true
	case "(time.Time).Month":
		return u.monthDay("month", rt()), true
	case "(time.Time).Day":
		return u.monthDay("day", rt()), true
	case "(time.Time).YearDay":
		t := rt()
		if t.loc == locUTC {
			return Add(Sub(u.dayOf(t.ns), yearStartDays(u.yearOf(*st, t))), IntC(1)), true
		}
		return ymd("yearday", t), true
	case "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).Nanosecond":
		t := rt()
		if t.loc != locUTC {
			return ymd(name, t), true
		}
		r := FMod(t.ns, IntC(nsDay))
		switch fn.Name() {
		case "Hour":
			return FDiv(r, IntC(3600000000000)), true
		case "Minute":
			return FDiv(FMod(r, IntC(3600000000000)), IntC(60000000000)), true
		case "Second":
			return FDiv(FMod(r, IntC(60000000000)), IntC(1000000000)), true
		}
		return FMod(r, IntC(1000000000)), true
	case "(time.Time).Date":
		t := rt()
		return &TupleV{[]Value{u.yearOf(*st, t), u.monthDay("month", t), u.monthDay("day", t)}}, true
	case "(time.Time).Before":
		return Lt(rt().ns, at(0).ns), true
	case "(time.Time).After":
		return Gt(rt().ns, at(0).ns), true
	case "(time.Time).Equal":
		return Eq(rt().ns, at(0).ns), true
	case "(time.Time).Compare":
		a, b := rt().ns, at(0).ns
		return Ite(Lt(a, b), IntC(-1), Ite(Gt(a, b), IntC(1), IntC(0))), true
	case "(time.Time).IsZero":
		z, _ := new(big.Rat).SetString(zeroTimeNS)
		return Eq(rt().ns, Num(z, SInt)), true
	case "(time.Time).Unix":
		return FDiv(rt().ns, IntC(1000000000)), true
	case "(time.Time).UnixNano":
		return rt().ns, true
	case "(time.Time).UTC":
		return TimeV{rt().ns, locUTC}, true
	case "(time.Time).In":
		return TimeV{rt().ns, u.locOf(*st, args[0])}, true
	case "(time.Time).Location":
		return locV{rt().loc}, true
	case "(time.Time).Truncate":
		if d, ok := term(0).intVal(); ok && d > 0 {
			// since the zero time; a whole number of days lies between it and 1970
			t := rt()
			z, _ := new(big.Rat).SetString(zeroTimeNS)
			off := Sub(t.ns, Num(z, SInt))
			return TimeV{Sub(t.ns, FMod(off, IntC(d))), t.loc}, true
		}
	case "(*time.Location).String":
		return UF("locname", SStr, u.locOf(*st, recv)), true
	case "(time.Time).Format":
		return UF("timefmt", SStr, rt().ns, rt().loc, term(0)), true
	case "(time.Duration).Hours":
		return u.fl.round(*st, MulC(big.NewRat(1, 3600000000000), ToReal(recv.(*Term))), call), true

	case "github.com/satori/go.uuid.NewV4":
		return &OpaqueV{typ: fn.Type().(*types.Signature).Results().At(0).Type(), isnil: TFalse, id: u.fresh("uuid", "Opq")}, true
	case "(github.com/satori/go.uuid.UUID).String":
		return u.fresh("uuidstr", SStr), true
	case "log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf":
		return &TupleV{}, true
	case "encoding/json.Unmarshal":
		return u.jsonUnmarshal(*st, fn, args, call), true
	case "(*sync.Once).Do":
		return u.onceDo(fr, st, recv, args, call), true
	}
	delete(u.trusted, "library model: "+name)
	return nil, false
}

func (u *Unit) negF(x *Term) *Term {
	n := Neg(x)
	if u.fl.isFloat[x] {
		u.fl.isFloat[n] = true
		if d := u.fl.def[x]; d != nil && u.fl.def[n] == nil {
			u.fl.def[n] = &fdef{x: Neg(d.x)}
		}
	}
	return n
}

func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapIte(t.args[1], f), mapIte(t.args[2], f))
	}
	return f(t)
}

func (u *Unit) monthDay(what string, t TimeV) *Term {
	if n, ok := constInt(t.ns); ok && t.loc == locUTC {
		x := unixNS(n)
		if what == "month" {
			return IntC(int64(x.Month()))
		}
		return IntC(int64(x.Day()))
	}
	if t.loc == locUTC {
		return UF(what+"_of_day", SInt, u.dayOf(t.ns))
	}
	return ymd(what, t)
}

func init() {
	ufRange["month_of_day"] = func(*Term, *BEnv) Iv { return Iv{rat1, big.NewRat(12, 1)} }
	ufRange["day_of_day"] = func(*Term, *BEnv) Iv { return Iv{rat1, big.NewRat(31, 1)} }
	ufRange["month"] = func(*Term, *BEnv) Iv { return Iv{rat1, big.NewRat(12, 1)} }
	ufRange["day"] = func(*Term, *BEnv) Iv { return Iv{rat1, big.NewRat(31, 1)} }
	ufRange["year_in"] = func(*Term, *BEnv) Iv { return Iv{big.NewRat(-300000000000, 1), big.NewRat(300000000000, 1)} }
	ufRange["year_of_day"] = func(t *Term, e *BEnv) Iv {
		d := e.iv(t.args[0])
		r := Iv{big.NewRat(-300000000000, 1), big.NewRat(300000000000, 1)}
		if d.lo != nil {
			v := new(big.Rat).Add(new(big.Rat).Quo(d.lo, big.NewRat(365, 1)), big.NewRat(1960, 1))
			if d.lo.Sign() < 0 {
				r.lo = new(big.Rat).SetInt(floorRat(v))
			} else {
				r.lo = big.NewRat(1970, 1)
			}
		}
		if d.hi != nil {
			if d.hi.Sign() >= 0 {
				r.hi = new(big.Rat).SetInt(floorRat(new(big.Rat).Add(new(big.Rat).Quo(d.hi, big.NewRat(365, 1)), big.NewRat(1971, 1))))
			} else {
				r.hi = new(big.Rat).SetInt(floorRat(new(big.Rat).Add(new(big.Rat).Quo(d.hi, big.NewRat(367, 1)), big.NewRat(1971, 1))))
			}
		}
		return r
	}
}

func (u *Unit) timeDate(st *State, args []Value) Value {
	loc := u.locOf(st, args[7])
	var ts []*Term
	allc := loc == locUTC
	var cs []int
	for i := 0; i < 7; i++ {
		t := args[i].(*Term)
		ts = append(ts, t)
		if n, ok := t.intVal(); ok {
			cs = append(cs, int(n))
		} else {
			allc = false
		}
	}
	if allc {
		return TimeV{timeNS(time.Date(cs[0], time.Month(cs[1]), cs[2], cs[3], cs[4], cs[5], cs[6], time.UTC)), loc}
	}
	tod := TimeV{}
	tail := MulC(big.NewRat(3600000000000, 1), ts[3])
	tail = Add(tail, MulC(big.NewRat(60000000000, 1), ts[4]))
	tail = Add(tail, MulC(big.NewRat(1000000000, 1), ts[5]))
	tail = Add(tail, ts[6])
	if loc == locUTC {
		y, m, d := ts[0], ts[1], ts[2]
		if y.op == OUF && m.op == OUF && y.name == "year_of_day" && m.name == "month_of_day" && y.args[0] == m.args[0] {
			// same day, shifted by d - day
			base := y.args[0]
			return TimeV{Add(MulC(big.NewRat(nsDay, 1), Add(base, Sub(d, UF("day_of_day", SInt, base)))), tail), loc}
		}
		if mm, ok := m.intVal(); ok && mm == 1 {
			return TimeV{Add(MulC(big.NewRat(nsDay, 1), Add(yearStartDays(y), Sub(d, IntC(1)))), tail), loc}
		}
		return TimeV{Add(MulC(big.NewRat(nsDay, 1), UF("day_from_ymd", SInt, y, m, d)), tail), loc}
	}
	_ = tod
	return TimeV{UF("date_in", SInt, ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ts[6], loc), loc}
}

func itoa(t *Term) *Term {
	if n, ok := t.intVal(); ok {
		return StrC(strconv.FormatInt(n, 10))
	}
	return UF("itoa", SStr, t)
}

// Paths built of constants and decimal numbers clean up as text: a number is
// neither empty nor made of dots, and holds no slash.
const numberMark = "\x01"

func pathText(t *Term) (string, []*Term, bool) {
	switch {
	case t.op == OStrC:
		return t.name, nil, !strings.Contains(t.name, numberMark)
	case t.op == OUF && t.name == "itoa":
		return numberMark, []*Term{t}, true
	case t.op == OUF && t.name == "concat":
		r := ""
		var ns []*Term
		for _, a := range t.args {
			s, n, ok := pathText(a)
			if !ok {
				return "", nil, false
			}
			r, ns = r+s, append(ns, n...)
		}
		return r, ns, true
	}
	return "", nil, false
}

func pathOf(s string, nums []*Term) *Term {
	ps := strings.Split(s, numberMark)
	if len(ps) != len(nums)+1 {
		return nil // cleaning dropped a number
	}
	ts := []*Term{StrC(ps[0])}
	for i, n := range nums {
		ts = append(ts, n, StrC(ps[i+1]))
	}
	return concat(ts...)
}

func pathJoin(ps []*Term) *Term {
	var ss []string
	var nums []*Term
	for _, p := range ps {
		s, n, ok := pathText(p)
		if !ok {
			return UF("path.Join", SStr, ps...)
		}
		ss, nums = append(ss, s), append(nums, n...)
	}
	if r := pathOf(path.Join(ss...), nums); r != nil {
		return r
	}
	return UF("path.Join", SStr, ps...)
}

func pathClean(t *Term) *Term {
	if s, nums, ok := pathText(t); ok {
		if r := pathOf(path.Clean(s), nums); r != nil {
			return r
		}
	}
	return UF("path.Clean", SStr, t)
}

// sprintf renders %d, %s and %v of integers and strings as a concatenation.
// printArgs gives the operands of a print call as the text or number that is
// printed: an operand with a String method prints as what that returns.
func (u *Unit) printArgs(fr *Frame, st **State, call *ast.CallExpr, args []Value, skip int) ([]*Term, bool) {
	if call == nil || call.Ellipsis.IsValid() {
		return nil, false
	}
	if len(args) == 1 {
		if sv, ok := args[0].(*variadic); ok {
			args = sv.vs
		}
	}
	if len(args) != len(call.Args)-skip {
		return nil, false
	}
	var ts []*Term
	for i, v := range args {
		t := u.v.p.info.TypeOf(call.Args[i+skip])
		if types.IsInterface(t) {
			iv, ok := v.(*IfaceV)
			if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil || !iv.alts[0].g.isTrue() {
				return nil, false
			}
			t, v = iv.alts[0].typ, iv.alts[0].v
		}
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil || ms.Lookup(nil, "GoString") != nil {
			return nil, false
		}
		if ms.Lookup(nil, "String") != nil {
			fn, rv := u.dynMethod(*st, IfaceAlt{TTrue, t, v}, "String", call)
			if sig := fn.Type().(*types.Signature); sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				return nil, false
			}
			v = u.callFunc(fr, st, fn, rv, nil, call)
			if *st == nil {
				return nil, false
			}
			if tv, ok := v.(*TupleV); ok && len(tv.vs) == 1 {
				v = tv.vs[0]
			}
		}
		x, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		ts = append(ts, x)
	}
	return ts, true
}

// sprint: operands in a row, a space between two that are not strings.
func (u *Unit) sprint(fr *Frame, st **State, call *ast.CallExpr, args []Value, skip int, line bool) (Value, bool) {
	ts, ok := u.printArgs(fr, st, call, args, skip)
	if !ok {
		return nil, false
	}
	var ps []*Term
	for i, t := range ts {
		if t.sort != SStr && t.sort != SInt {
			return nil, false
		}
		str := func(k int) bool { return isString(u.v.p.info.TypeOf(call.Args[k+skip]).Underlying()) }
		if i > 0 && (line || !str(i) && !str(i-1)) {
			ps = append(ps, StrC(" "))
		}
		if t.sort == SInt {
			t = itoa(t)
		}
		ps = append(ps, t)
	}
	if line {
		ps = append(ps, StrC("\n"))
	}
	return concat(ps...), true
}

func (u *Unit) sprintf(fr *Frame, st **State, call *ast.CallExpr, args []Value, skip int) (Value, bool) {
	f, ok := args[0].(*Term)
	if !ok || f.op != OStrC {
		return nil, false
	}
	verbs := strings.Replace(f.name, "%%", "", -1)
	plain := true // only %d, %s and %v
	for i := 0; i < len(verbs); i++ {
		if verbs[i] == '%' && (i+1 >= len(verbs) || !strings.ContainsRune("dsv", rune(verbs[i+1]))) {
			plain = false
		}
	}
	if !plain {
		// other verbs: opaque but deterministic
		rest := args[1:]
		if len(rest) == 1 {
			if sv, ok := rest[0].(*variadic); ok {
				rest = sv.vs
			}
		}
		var ts []*Term
		for _, r := range rest {
			t, ok := r.(*Term)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
		}
		return UF("sprintf:"+f.name, SStr, ts...), true
	}
	rest, ok := u.printArgs(fr, st, call, args[1:], skip+1)
	if *st == nil {
		return TFalse, true
	}
	if !ok {
		return nil, false
	}
	var ps []*Term
	lit := ""
	k := 0
	for i := 0; i < len(f.name); i++ {
		c := f.name[i]
		if c != '%' {
			lit += f.name[i : i+1]
			continue
		}
		i++
		if f.name[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(rest) {
			return nil, false
		}
		t := rest[k]
		k++
		ps = append(ps, StrC(lit))
		lit = ""
		switch {
		case t.sort == SInt && f.name[i] != 's':
			ps = append(ps, itoa(t))
		case t.sort == SStr && f.name[i] != 'd':
			ps = append(ps, t)
		default:
			return nil, false
		}
	}
	if k != len(rest) {
		return nil, false
	}
	return concat(append(ps, StrC(lit))...), true
}

func (u *Unit) opaqueResult(name string, args []Value, s Sort) Value {
	var ts []*Term
	for _, a := range args {
		if t, ok := a.(*Term); ok {
			ts = append(ts, t)
		} else {
			return u.fresh("lib", s)
		}
	}
	return UF("lib:"+name, s, ts...)
}

// variadic holds the arguments of a variadic call.
type variadic struct {
	vs []Value
	t  types.Type
}

// bytesKey names the contents of a byte list that came from a reader: the
// reader's identity and the length.
func (u *Unit) bytesKey(st *State, v Value) (id, n *Term) {
	sv, ok := v.(*SliceV)
	if !ok {
		fail("bytes expected, got %T", v)
	}
	q := u.seqOf(st, sv)
	if len(q.parts) == 1 && q.parts[0].isGen() {
		if f, ok := q.parts[0].simple(); ok {
			if t, ok := f(Var("?b", SInt)).(*Term); ok && t.op == OUF && t.name == "byte_of" {
				return t.args[0], q.parts[0].n
			}
		}
	}
	fail("bytes of unknown origin")
	return nil, nil
}

// readCell reads all of a bytes.Reader, also one embedded in the dynamic type
// of an open file, or of a file of the file system.
func (u *Unit) readCell(st *State, v Value, at ast.Node) (Value, Value, bool) {
	if iv, ok := v.(*IfaceV); ok {
		var a *IfaceAlt
		for i := range iv.alts {
			x := iv.alts[i]
			if x.g.isFalse() {
				continue
			}
			if k, known := st.env.decide(x.g); known && !k {
				continue
			}
			if x.typ == nil {
				u.require(st, "nil", "reader is not nil", at, Not(x.g))
				continue
			}
			if a != nil {
				return nil, nil, false
			}
			a = &iv.alts[i]
		}
		if a == nil {
			return nil, nil, false
		}
		fn, rv := u.dynMethod(st, *a, "Read", at)
		switch fn.FullName() {
		case "(*bytes.Reader).Read":
			if w, _, _ := types.LookupFieldOrMethod(a.typ, true, u.v.p.pkg, "WriteTo"); w != nil && w.(*types.Func).FullName() != "(*bytes.Reader).WriteTo" {
				return nil, nil, false
			}
		case "(*os.File).Read":
		default:
			return nil, nil, false
		}
		v = rv
	}
	p, ok := v.(*PtrV)
	if !ok {
		return nil, nil, false
	}
	pl := u.onlyPlace(st, p, at)
	if pl == nil || len(pl.path) != 0 {
		return nil, nil, false
	}
	err := Value(&OpaqueV{isnil: TTrue, id: UF("nil", "Opq")})
	switch pl.obj.name {
	case "reader":
	case "localfile":
		open := u.get(st, u.openFlag[pl.obj]).(*Term)
		if k, known := st.env.decide(open); !open.isTrue() && !(known && k) {
			fail("a file that may be closed is read")
		}
		err = &OpaqueV{isnil: UF("local_reads", SBool, pl.obj.key), id: UF("local_err", "Opq", pl.obj.key)}
	default:
		return nil, nil, false
	}
	p = single(pl)
	b, ok := u.load(st, p, at).(*SliceV)
	if !ok {
		return nil, nil, false
	}
	st.heap[pl.obj] = &SliceV{typ: b.typ, isnil: TFalse, inline: true, inl: &Seq{}}
	c := *b
	c.isnil = TFalse
	return &c, err, true
}

// onlyPlace is what a pointer points to when it is not nil.
func (u *Unit) onlyPlace(st *State, p *PtrV, at ast.Node) *Place {
	var r *Place
	for _, a := range p.alts {
		if k, known := st.env.decide(a.g); a.g.isFalse() || known && !k {
			continue
		}
		if a.place == nil {
			u.require(st, "nil", "pointer is not nil", at, Not(a.g))
			continue
		}
		if r != nil {
			return nil
		}
		r = a.place
	}
	return r
}

// Files of the file system. What a path names does not change while the code
// runs; opening, reading and closing can fail.
func localBytes(path *Term) *SliceV { return readBytes(UF("localfile", "Opq", path)) }

// openLocal: the file is a cell that holds what is still to be read.
func (u *Unit) openLocal(st *State, fn *types.Func, path *Term) Value {
	pt := fn.Type().(*types.Signature).Results().At(0).Type()
	ok := UF("local_opens", SBool, path)
	o := u.newObj("localfile", pt.(*types.Pointer).Elem())
	o.key = path
	b := localBytes(path)
	b.typ = types.NewSlice(types.Typ[types.Byte])
	st.heap[o] = b
	f := u.newObj("localfile open", types.Typ[types.Bool])
	if u.openFlag == nil {
		u.openFlag = map[*Obj]*Obj{}
	}
	u.openFlag[o] = f
	st.heap[f] = TTrue
	n := u.openFiles()
	st.heap[n] = Add(u.get(st, n).(*Term), Ite(ok, IntC(1), IntC(0)))
	return &TupleV{[]Value{&PtrV{[]PtrAlt{{Not(ok), nil}, {ok, &Place{obj: o}}}}, &OpaqueV{isnil: ok, id: UF("local_openerr", "Opq", path)}}}
}

// openFiles counts the open files.
func (u *Unit) openFiles() *Obj { return u.libObj(openFilesName, IntC(0)) }

const openFilesName = "open files"

func (u *Unit) closeLocal(st *State, recv Value, at ast.Node) Value {
	p, ok := recv.(*PtrV)
	if !ok {
		fail("close of %T", recv)
	}
	pl := u.onlyPlace(st, p, at)
	if pl == nil || pl.obj.name != "localfile" || len(pl.path) != 0 {
		fail("close of an unknown file")
	}
	f := u.openFlag[pl.obj]
	open := u.get(st, f).(*Term)
	st.heap[f] = TFalse
	n := u.openFiles()
	st.heap[n] = Sub(u.get(st, n).(*Term), Ite(open, IntC(1), IntC(0)))
	return &OpaqueV{isnil: open, id: UF("local_closed", "Opq")}
}

func pathBase(t *Term) *Term {
	if t.op == OStrC {
		return StrC(path.Base(t.name))
	}
	return UF("path.Base", SStr, t)
}

func readBytes(id *Term) *SliceV {
	return &SliceV{isnil: TFalse, inline: true, inl: &Seq{[]Part{{n: UF("bytes_len", SInt, id), b: func(i *Term) []Part {
		return []Part{item(TTrue, UF("byte_of", SInt, id, i))}
	}}}}}
}

// gunzipped is what a base64 and gzip text reads as.
func gunzipped(text *Term) *Term {
	return UF("gunzip", "Opq", UF("unbase64", "Opq", UF("reader", "Opq", text)))
}

func init() {
	ufRange["bytes_len"] = func(*Term, *BEnv) Iv { return Iv{rat0, big.NewRat(1<<40, 1)} }
	ufRange["byte_of"] = func(*Term, *BEnv) Iv { return Iv{rat0, big.NewRat(255, 1)} }
}

func isZero(v, z Value) bool {
	switch x := v.(type) {
	case *StructV:
		y, ok := z.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !isZero(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		return x.isnil.isTrue()
	}
	return veq(v, z)
}

// jsonUnmarshal fills a zero value with what the bytes say; the outcome is a
// function of the bytes and the type.
func (u *Unit) jsonUnmarshal(st *State, fn *types.Func, args []Value, call *ast.CallExpr) Value {
	id, n := u.bytesKey(st, args[0])
	p, ok := args[1].(*PtrV)
	if !ok || len(p.alts) != 1 || p.alts[0].place == nil {
		fail("json.Unmarshal into %T", args[1])
	}
	old := u.load(st, p, call)
	t := valueType(old)
	if t == nil {
		fail("json.Unmarshal into %T", old)
	}
	if !isZero(old, u.zero(t)) {
		fail("json.Unmarshal into a value that is not zero")
	}
	good := UF("json_ok", SBool, id, n)
	v := u.symbolic(st, "json "+t.String(), t, id, n)
	bad := u.symbolic(st, "json partly "+t.String(), t, id, n)
	u.store(st, p, mergeV(good, v, bad), call)
	return &OpaqueV{isnil: good, id: UF("json_err", "Opq", id, n)}
}

// onceDo runs the function unless it has run before.
func (u *Unit) onceDo(fr *Frame, st **State, recv Value, args []Value, call *ast.CallExpr) Value {
	p, ok := recv.(*PtrV)
	f, ok2 := args[0].(*FuncV)
	if !ok || !ok2 {
		fail("sync.Once on %T", recv)
	}
	done, ok := u.load(*st, p, call).(*Term)
	if !ok {
		fail("sync.Once value")
	}
	ns, _ := u.branch(*st, done, func(s *State) Value { return TTrue }, func(s *State) Value {
		return u.sub(s, func(q **State) Value {
			u.callFuncV(fr, q, f, nil, call)
			if *q != nil {
				u.store(*q, p, TTrue, call)
			}
			return TTrue
		})
	})
	*st = ns
	return &TupleV{}
}
