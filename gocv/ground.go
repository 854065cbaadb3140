package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A contract with "cases p LO..HI" is verified once for every value of the
// parameter p in that range, which its precondition has to coincide with: the
// body is executed symbolically with p fixed, callees through their contracts,
// and specification functions of constants are evaluated. Nothing is sampled:
// the values are all the inputs the contract admits.

type caseRange struct {
	param  string
	lo, hi int64
}

// ground is what one case-by-case verification shares between its cases.
type ground struct {
	param string
	val   int64
	on    bool // the switch of the contract
	memo  map[string]*Term
}

// foldSpec evaluates an opaque application to constants.
func (u *Unit) foldSpec(f *SpecFn, ts []*Term) *Term {
	if u.ground == nil || f.body == nil {
		return nil
	}
	key := f.name
	for _, t := range ts {
		if !constLike(t) {
			return nil
		}
		key += "," + t.String()
	}
	if r, ok := u.ground.memo[key]; ok {
		return r
	}
	u.foldDepth++
	if u.foldDepth > 400 {
		specErr("recursion of %s", f.name)
	}
	r := u.v.unfold(u, f, ts)
	u.foldDepth--
	u.ground.memo[key] = r
	return r
}

func constLike(t *Term) bool {
	return t.isNum() || t.isTrue() || t.isFalse() || t.op == OStrC
}

// setting recognises "!X" for a package variable X.
func (u *Unit) setting(x ast.Expr) *types.Var {
	n, ok := x.(*ast.UnaryExpr)
	if !ok {
		return nil
	}
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return nil
	}
	v, _ := u.v.p.pkg.Scope().Lookup(id.Name).(*types.Var)
	if v == nil || sortOf(v.Type()) != SBool {
		return nil
	}
	return v
}

// solveResult takes the clauses "result.F == E" as definitions of the result's
// fields where E is known from the arguments and the fields defined so far.
func (u *Unit) solveResult(env *SEnv, name string, v *StructV, clauses []Clause, used []bool) *StructV {
	st := v.typ.Underlying().(*types.Struct)
	r := &StructV{v.typ, append([]Value(nil), v.f...)}
	env.vars[name] = r
	index := func(x ast.Expr) int {
		s, ok := x.(*ast.SelectorExpr)
		if !ok || !isIdent(s.X, name) {
			return -1
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == s.Sel.Name {
				return i
			}
		}
		return -1
	}
	for again := true; again; {
		again = false
		for k, cl := range clauses {
			if used[k] {
				continue
			}
			if isCallTo(cl.e, "utc") {
				if i := index(cl.e.(*ast.CallExpr).Args[0]); i >= 0 {
					t := r.f[i].(TimeV)
					t.loc = locUTC
					r.f[i], used[k], again = t, true, true
				}
				continue
			}
			b, ok := cl.e.(*ast.BinaryExpr)
			if !ok || b.Op.String() != "==" {
				continue
			}
			isNS := isCallTo(b.X, "ns")
			x := b.X
			if isNS {
				x = x.(*ast.CallExpr).Args[0]
			}
			i := index(x)
			if i < 0 {
				continue
			}
			y, ok := env.eval(b.Y).(*Term)
			if !ok || !constLike(y) {
				continue
			}
			if isNS {
				t := r.f[i].(TimeV)
				t.ns = y
				r.f[i] = t
			} else if old, ok := r.f[i].(*Term); ok {
				r.f[i] = coerceTo(y, old.sort)
			} else {
				continue
			}
			used[k], again = true, true
		}
	}
	return r
}

// ---- the cases

// caseOut is what one process found for its share of the cases.
type caseOut struct {
	Cases   int64
	Obls    []caseObl
	Err     string
	ErrAt   int64
	Vacuous bool
	Called  []string
	Inlined []string
	Trusted []string
	Globals []string
	CPU     float64
	Calls   int
}

type caseObl struct {
	Kind, Desc, Pos string
	Cases           int64
	By              string
	Trivial         bool
	Status          string
	At              int64
	Output          string
	Secs            float64
}

func (v *Verifier) verifyRange(c *Contract, lo, hi int64, limit time.Duration) *caseOut {
	out := &caseOut{}
	g := &ground{param: c.cases.param, memo: map[string]*Term{}}
	idx := map[string]int{}
	sets := [4]map[string]bool{{}, {}, {}, {}}
	memos := [2]map[string]*Term{{}, {}}
	modes := int64(1)
	if c.shipped != nil {
		modes = 2
	}
	for n := int64(0); n < modes*(hi-lo+1); n++ {
		y, mode := lo+n/modes, n%modes
		g.val, g.on = y, mode == 1
		if len(memos[mode]) > 200000 {
			memos[mode] = map[string]*Term{}
		}
		g.memo = memos[mode]
		v.ground = g
		rep := v.verifyContract(c)
		v.ground = nil
		if mode == 1 && rep.vacuous {
			modes = 1 // the tables start with other values than the contract speaks of
			n = n / 2
			continue
		}
		v.discharge(rep, limit)
		if mode == 0 {
			out.Cases++
		}
		for i, xs := range [4][]string{rep.called, rep.inlined, rep.trusted, rep.globals} {
			for _, x := range xs {
				sets[i][x] = true
			}
		}
		out.Vacuous = out.Vacuous || rep.vacuous
		failed := false
		seen := map[string]int{}
		for _, o := range rep.obls {
			seen[o.kind+o.desc+o.pos]++
			key := fmt.Sprintf("%s|%s|%s|%d", o.kind, o.desc, o.pos, seen[o.kind+o.desc+o.pos])
			if o.kind != "post" {
				key = o.kind + "|" + o.desc + "|" + o.pos
			}
			i, ok := idx[key]
			if !ok {
				i = len(out.Obls)
				idx[key] = i
				by := o.by
				if o.trivial || by == "interval" {
					by = "complete ground evaluation"
				}
				out.Obls = append(out.Obls, caseObl{Kind: o.kind, Desc: o.desc, Pos: o.pos, By: by, Status: "proved"})
			}
			q := &out.Obls[i]
			q.Cases++
			q.Secs += o.secs
			if o.status != "proved" {
				failed = true
				if q.Status == "proved" {
					q.Status, q.At, q.Output = o.status, y, o.output
					if o.goal.isFalse() {
						q.Status = "failed"
					}
				}
			}
		}
		if rep.err != "" {
			out.Err, out.ErrAt = rep.err, y
		}
		if failed || rep.err != "" || rep.vacuous {
			break
		}
	}
	for i, dst := range []*[]string{&out.Called, &out.Inlined, &out.Trusted, &out.Globals} {
		*dst = keys(sets[i])
	}
	out.CPU, out.Calls = v.solver.cpu, v.solver.calls
	return out
}

// verifyCases shares the cases between processes.
func (v *Verifier) verifyCases(c *Contract, limit time.Duration) *unitReport {
	rep := &unitReport{name: c.key, u: newUnit(v, c.key)}
	for _, r := range v.filter(c.requires) {
		rep.requires = append(rep.requires, r.src)
	}
	n := int64(runtime.NumCPU())
	total := c.cases.hi - c.cases.lo + 1
	if n > total {
		n = total
	}
	outs := make([]*caseOut, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	for k := int64(0); k < n; k++ {
		k := k
		lo, hi := c.cases.lo+total*k/n, c.cases.lo+total*(k+1)/n-1
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-repo", v.repo, "-verif", v.verif, "-prop", v.prop, "-only", c.key, "-cases", fmt.Sprintf("%d..%d", lo, hi), "-t", strconv.Itoa(int(limit/time.Second)))
			cmd.Env = append(os.Environ(), "GOGC=400")
			var eb strings.Builder
			cmd.Stderr = &eb
			b, err := cmd.Output()
			var o caseOut
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				errs[k] = fmt.Sprintf("cases %d..%d: %v %s", lo, hi, err, short1(eb.String()))
				return
			}
			outs[k] = &o
		}()
	}
	wg.Wait()
	idx := map[string]*Obl{}
	cnt := map[*Obl]int64{}
	sets := [4]map[string]bool{{}, {}, {}, {}}
	kinds := map[string]int{}
	for k, o := range outs {
		if o == nil {
			rep.err = errs[k]
			continue
		}
		for i, xs := range [4][]string{o.Called, o.Inlined, o.Trusted, o.Globals} {
			for _, x := range xs {
				sets[i][x] = true
			}
		}
		rep.cases += o.Cases
		rep.vacuous = rep.vacuous || o.Vacuous
		if o.Err != "" && rep.err == "" {
			rep.err = fmt.Sprintf("%s = %d: %s", c.cases.param, o.ErrAt, o.Err)
		}
		v.solver.cpu += o.CPU
		v.solver.calls += o.Calls
		ord := map[string]int{}
		for _, q := range o.Obls {
			key := q.Kind + "|" + q.Desc + "|" + q.Pos
			ord[key]++
			key = fmt.Sprintf("%s|%d", key, ord[key])
			b := idx[key]
			if b == nil {
				kinds[q.Kind]++
				b = &Obl{unit: rep.u, kind: q.Kind, desc: q.Desc, pos: q.Pos, n: kinds[q.Kind], status: "proved", by: q.By, goal: TTrue}
				idx[key] = b
				rep.obls = append(rep.obls, b)
			}
			cnt[b] += q.Cases
			b.secs += q.Secs
			if q.Status != "proved" && b.status == "proved" {
				b.status, b.output = q.Status, q.Output
				if q.Status == "failed" {
					b.output = fmt.Sprintf("false for %s = %d", c.cases.param, q.At)
				}
				b.model = map[string]string{c.cases.param: strconv.FormatInt(q.At, 10)}
			}
		}
	}
	if rep.err == "" && !rep.failed() && rep.cases != total {
		rep.err = fmt.Sprintf("%d of %d cases were verified", rep.cases, total)
	}
	rep.called, rep.inlined, rep.trusted, rep.globals = keys(sets[0]), keys(sets[1]), keys(sets[2]), keys(sets[3])
	return rep
}
