package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type lemmaResult struct {
	name   string
	how    string
	ok     bool
	detail string
	secs   float64
	points int64
}

type result struct {
	units   []*unitReport
	lemmas  []*lemmaResult
	cycle   string
	miss    []string
	stopped bool
}

func (r *unitReport) failed() bool {
	for _, o := range r.obls {
		if o.status != "proved" {
			return true
		}
	}
	return r.err != "" || r.vacuous
}

// run verifies everything the property rests on.
func (v *Verifier) run(prop, only string, limit time.Duration, progress bool) *result {
	v.prop = prop
	res := &result{}
	for _, c := range v.contracts {
		if !c.has(prop) || only != "" && c.key != only {
			continue
		}
		if c.fn == nil && c.optional {
			continue
		}
		if c.fn == nil {
			res.miss = append(res.miss, c.key)
			continue
		}
		if res.stopped {
			continue
		}
		start := time.Now()
		var rep *unitReport
		if c.cases != nil {
			rep = v.verifyCases(c, limit)
		} else {
			rep = v.verifyContract(c)
		}
		ex := time.Since(start)
		lim := limit
		if v.hurry != nil && v.hurry() && lim > 4*time.Second {
			lim = 4 * time.Second
		}
		v.discharge(rep, lim)
		res.units = append(res.units, rep)
		if v.stop != nil && v.stop(rep.failed()) {
			res.stopped = true
		}
		if progress {
			n, ok := 0, 0
			for _, o := range rep.obls {
				n++
				if o.status == "proved" {
					ok++
				}
			}
			fmt.Fprintf(os.Stderr, "%-40s %d/%d  exec %.1fs  total %.1fs %s\n", c.key, ok, n, ex.Seconds(), time.Since(start).Seconds(), rep.err)
			if rep.vacuous {
				fmt.Fprintln(os.Stderr, "   PRECONDITION CONTRADICTORY")
			}
		}
	}
	if res.stopped {
		return res
	}
	for _, l := range v.lemmaList {
		for _, t := range l.tags {
			if t == prop && only == "" {
				v.neededLemmas[l.name] = true
			}
		}
	}
	ec := &enumC{v: v, memo: map[string]*memoFn{}}
	done := map[string]bool{}
	for again := true; again; {
		again = false
		for _, l := range v.lemmaList {
			if !v.neededLemmas[l.name] || done[l.name] {
				continue
			}
			done[l.name] = true
			again = true
			res.lemmas = append(res.lemmas, v.proveLemma(l, ec, limit))
		}
	}
	v.proveAutos(res, limit)
	res.cycle = cycles(res.units)
	return res
}

// proveAutos: the facts attached to a defined specification function follow
// from its definition alone. (For a function without a body they are the
// definition.)
func (v *Verifier) proveAutos(res *result, limit time.Duration) {
	var names []string
	for n := range v.usedSpecs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := v.specs[n]
		for i, a := range f.auto {
			r := &lemmaResult{name: fmt.Sprintf("%s.fact%d", n, i+1)}
			res.lemmas = append(res.lemmas, r)
			if f.body == nil {
				r.ok, r.how, r.detail = true, "definition", a.src
				continue
			}
			start := time.Now()
			u := newUnit(v, "fact "+n)
			vars := map[string]Value{}
			for _, p := range f.params {
				vars[p] = Var(p, SInt)
			}
			goal := (&SEnv{u, u.specState(), u.specState(), vars}).bool(a.e)
			for k := 0; k < 6; k++ {
				m := map[*Term]*Term{}
				for _, t := range v.opaqueApps([]*Term{goal}) {
					if g := v.specs[strings.TrimPrefix(t.name, "spec:")]; g.body != nil {
						m[t] = v.unfold(u, g, t.args)
					}
				}
				goal = Subst(goal, m)
			}
			v.noAutos = true
			q := v.query(u, nil, goal, nil)
			v.noAutos = false
			d := v.solver.discharge(q, limit, false)
			r.ok, r.how, r.detail, r.secs = d.proved, d.by, d.out, time.Since(start).Seconds()
		}
	}
}

func (v *Verifier) proveLemma(l *Lemma, ec *enumC, limit time.Duration) *lemmaResult {
	start := time.Now()
	r := &lemmaResult{name: l.name}
	defer func() { r.secs = time.Since(start).Seconds() }()
	if l.axiom {
		r.how, r.ok, r.detail = "assumed", true, l.why
		return r
	}
	if l.enum {
		r.how = "complete ground evaluation"
		ok, at, err := ec.enumerate(l)
		r.ok = ok
		if err != nil {
			r.detail = err.Error()
		} else if !ok {
			r.detail = fmt.Sprintf("false at %d", at)
		}
		r.points = l.hi - l.lo + 1
		return r
	}
	if l.files != "" {
		r.how = "complete ground evaluation"
		r.points, r.detail = v.checkFiles(l)
		r.ok = r.detail == "" && r.points > 0
		return r
	}
	u := newUnit(v, "lemma "+l.name)
	u.initial = l.initial
	defer func() {
		if x := recover(); x != nil {
			us, ok := x.(unsupported)
			if !ok {
				panic(x)
			}
			r.detail = us.msg
		}
	}()
	vars := map[string]Value{}
	for _, p := range l.params {
		vars[p] = Var(p, SInt)
	}
	env := &SEnv{u, u.specState(), u.specState(), vars}
	for _, us := range l.uses {
		if ce, ok := us.e.(*ast.CallExpr); ok {
			v.needLemma(exprStr(ce.Fun))
			u.uses = append(u.uses, env.bool(us.e))
		} else {
			v.needLemma(exprStr(us.e))
			u.starUses = append(u.starUses, exprStr(us.e))
		}
	}
	goal := env.bool(l.stmt)
	q := v.query(u, nil, goal, u.uses)
	d := v.solver.discharge(q, limit, true)
	r.ok, r.how, r.detail = d.proved, d.by, d.out
	return r
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "verify one function")
	dump := flag.String("dump", "", "write failing queries here")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	check := flag.Bool("check", false, "run as a registered check")
	limit := flag.Int("t", 0, "seconds per obligation")
	verbose := flag.Bool("v", false, "")
	cases := flag.String("cases", "", "verify the cases LO..HI of the contract given by -only, and print what was found")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *limit == 0 {
		*limit = 20
		if *tier == "thorough" {
			*limit = 90
		}
	}
	if *check {
		os.Exit(runCheck(*repo, *verif, *prop, *tier, time.Duration(*limit)*time.Second))
	}
	v, err := newVerifier(*repo, *verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *cases != "" {
		v.prop = *prop
		c := v.byKey(*only)
		r := strings.Split(*cases, "..")
		lo, _ := strconv.ParseInt(r[0], 10, 64)
		hi, _ := strconv.ParseInt(r[1], 10, 64)
		b, _ := json.Marshal(v.verifyRange(c, lo, hi, time.Duration(*limit)*time.Second))
		fmt.Println(string(b))
		return
	}
	res := v.run(*prop, *only, time.Duration(*limit)*time.Second, true)
	for _, r := range res.units {
		for _, o := range r.obls {
			if o.status != "proved" || *verbose {
				fmt.Printf("%-8s %-9s %s %s %s [%s] %s %.2fs %v\n", o.status, o.by, o.name(), o.pos, o.kind, o.desc, short1(o.output), o.secs, o.model)
				if *verbose && !o.trivial || o.status != "proved" && *dump != "" {
					fmt.Printf("      goal %s\n", short(o.goal))
					if os.Getenv("GOCV_IV") != "" {
						debugIv(o.env, o.goal)
					}
				}
				if *dump != "" && o.query != nil && (o.status != "proved" || *verbose) {
					for i, t := range o.query.texts {
						n := strings.NewReplacer("/", "_", "#", "_", " ", "_").Replace(o.name())
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s.%d.smt2", n, i)), []byte(t), 0644)
					}
				}
			}
		}
		if r.err != "" {
			fmt.Printf("UNSUPPORTED %s: %s\n", r.name, r.err)
		}
		if *verbose {
			fmt.Printf("   %s calls %v inlines %v globals %v\n", r.name, r.called, r.inlined, r.globals)
		}
	}
	for _, l := range res.lemmas {
		fmt.Printf("lemma %-20s %v %s %.2fs %s\n", l.name, l.ok, l.how, l.secs, l.detail)
	}
	if res.cycle != "" {
		fmt.Println("CYCLE", res.cycle)
	}
	if len(res.miss) > 0 {
		fmt.Println("MISSING", res.miss)
	}
}

func short1(s string) string {
	if len(s) > 160 {
		return s[:160]
	}
	return s
}

func newVerifier(repo, verif string) (*Verifier, error) {
	p, err := loadProg(repo, filepath.Join(verif, "stubs"))
	if err != nil {
		return nil, err
	}
	v := &Verifier{p: p, solver: newSolver(), repo: repo, verif: verif}
	v.loadContracts(filepath.Join(verif, "contracts"))
	return v, nil
}

var _ = json.Marshal
var _ = sort.Strings
