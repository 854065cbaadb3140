package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// One registered check: verify every obligation of a property from /repo's
// current source; look for a concrete failing input behind what fails.

type failedObl struct {
	Function   string            `json:"function"`
	Obligation string            `json:"obligation"`
	Kind       string            `json:"kind"`
	What       string            `json:"what"`
	Position   string            `json:"position,omitempty"`
	Status     string            `json:"status"`
	Output     string            `json:"verifier_output,omitempty"`
	Model      map[string]string `json:"counterexample,omitempty"`
}

type harnessFailure struct {
	Input    string `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
	What     string `json:"what"`
}

type harnessReport struct {
	Evals   int64           `json:"evaluations"`
	Samples []string        `json:"samples"`
	Fail    *harnessFailure `json:"failure"`
	Done    bool            `json:"done"`
	note    string
	env     []string
}

// harnesses: which files a property's harness needs; calendar ones need the
// files the repository's own test build leaves out.
var calendarProps = map[string]bool{"C15": true, "C16": true, "C17": true, "C18": true, "C19": true, "C21": true, "C22": true, "C23": true}

type harness struct {
	repo, verif, prop, dir string
	bin                    string
	err                    string
}

func (h *harness) overlay(withCalendar bool) (string, error) {
	rep := map[string]string{}
	tests, _ := filepath.Glob(filepath.Join(h.repo, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	if !withCalendar {
		for _, n := range hiddenFiles {
			rep[filepath.Join(h.repo, n)] = ""
		}
	}
	files := []string{"core_test.go", "data_test.go"}
	if withCalendar {
		files = append(files, "cal_test.go")
		names := filepath.Join(h.dir, "names_test.go")
		if err := os.WriteFile(names, []byte(h.names()), 0644); err != nil {
			return "", err
		}
		rep[filepath.Join(h.repo, "zz_gocv_names_test.go")] = names
	}
	for _, f := range files {
		rep[filepath.Join(h.repo, "zz_gocv_"+f)] = filepath.Join(h.verif, "harness", f)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	fn := filepath.Join(h.dir, "overlay.json")
	return fn, os.WriteFile(fn, b, 0644)
}

// names points the harness to the package's unexported functions, which it
// finds by their parameters and results.
func (h *harness) names() string {
	src := "package suriya\n\nfunc init() {\n"
	files, _ := filepath.Glob(filepath.Join(h.repo, "*.go"))
	found := map[string][]string{}
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			var ts []string
			for _, l := range []*ast.FieldList{fd.Type.Params, fd.Type.Results} {
				if l == nil {
					continue
				}
				for _, x := range l.List {
					for i := 0; i == 0 || i < len(x.Names); i++ {
						ts = append(ts, types.ExprString(x.Type))
					}
				}
				ts = append(ts, ";")
			}
			k := strings.Join(ts, " ")
			found[k] = append(found[k], fd.Name.Name)
		}
	}
	for v, k := range map[string]string{"hxMerge": "[]CalDay CalendarEvent ; []CalDay ;", "hxFind": "[]CalDay time.Time ; *CalDay error ;"} {
		if n := found[k]; len(n) == 1 {
			src += "\t" + v + " = " + n[0] + "\n"
		}
	}
	return src + "}\n"
}

func (h *harness) environ() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GO111MODULE", "GOPATH", "GOFLAGS", "CGO_ENABLED", "GOWORK", "VERIF_SEED", "VERIF_TIER":
		default:
			env = append(env, e)
		}
	}
	env = append(env, "GO111MODULE=off", "GOPATH="+filepath.Join(h.verif, "stubs"), "GOFLAGS=", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" && os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE="+filepath.Join(h.dir, "cache"))
	}
	return env
}

func (h *harness) build() {
	ov, err := h.overlay(calendarProps[h.prop])
	if err != nil {
		h.err = err.Error()
		return
	}
	bin := filepath.Join(h.dir, "harness.test")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-overlay", ov, "-c", "-o", bin, ".")
	cmd.Dir = h.repo
	cmd.Env = h.environ()
	out, err := cmd.CombinedOutput()
	if err != nil {
		h.err = fmt.Sprintf("the harness does not compile: %v: %s", err, short1(string(out)))
		return
	}
	h.bin = bin
}

func (h *harness) run(tier, seed string, hints []string, limit time.Duration) *harnessReport {
	r := &harnessReport{}
	if h.bin == "" {
		r.note = h.err
		return r
	}
	out := filepath.Join(h.dir, "harness-"+tier+".json")
	os.Remove(out)
	r.env = []string{"GOCV_PROP=" + h.prop, "VERIF_TIER=" + tier, "VERIF_SEED=" + seed, "GOCV_HINTS=" + strings.Join(hints, " ")}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, h.bin, "-test.run", "TestGocv", "-test.timeout", "0")
	cmd.Dir = h.repo
	cmd.Env = append(h.environ(), append(r.env, "GOCV_OUT="+out)...)
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		json.Unmarshal(b, r)
		return r
	}
	if ctx.Err() != nil {
		r.note = fmt.Sprintf("the harness was stopped after %v", limit)
		return r
	}
	// the process died: a fatal error of the real code
	r.note = fmt.Sprintf("the harness ended: %v", err)
	if s := string(o); strings.Contains(s, "fatal error:") || strings.Contains(s, "runtime: goroutine stack exceeds") {
		i := strings.Index(s, "fatal error:")
		if i < 0 {
			i = 0
		}
		r.Fail = &harnessFailure{Input: "a call of the harness for " + h.prop, Expected: "the call returns", Got: short1(s[i:]), What: "fatal error"}
	}
	return r
}

// knownFindings: lines "known: property=<id> obligation=<name> <what fails>".
func knownFindings(file, prop string) map[string]string {
	b, _ := os.ReadFile(file)
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "obligation=") {
			m[strings.TrimPrefix(f[2], "obligation=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func runCheck(repo, verif, prop, tier string, limit time.Duration) (code int) {
	t0 := time.Now()
	seed := os.Getenv("VERIF_SEED")
	if _, err := strconv.Atoi(seed); err != nil {
		seed = "1"
	}
	seedN, _ := strconv.Atoi(seed)
	dir, err := os.MkdirTemp("", "gocv-"+prop+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	var fails []failedObl
	known := knownFindings(filepath.Join(verif, "known-findings.txt"), prop)
	var shown []string
	addFail := func(f failedObl) {
		if w, ok := known[f.Obligation]; ok {
			shown = append(shown, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s", prop, f.Obligation, w))
			return
		}
		fails = append(fails, f)
	}

	hn := &harness{repo: repo, verif: verif, prop: prop, dir: dir}
	var hmu sync.Mutex
	var hres *harnessReport
	hdone := make(chan bool)
	htier, hlim := "quick", 120*time.Second
	if tier == "thorough" {
		htier, hlim = "thorough", 400*time.Second
	}
	go func() {
		defer close(hdone)
		hn.build()
		r := hn.run(htier, seed, nil, hlim)
		hmu.Lock()
		hres = r
		hmu.Unlock()
	}()
	harnessFailed := func() bool {
		hmu.Lock()
		defer hmu.Unlock()
		return hres != nil && hres.Fail != nil
	}

	var v *Verifier
	var res *result
	func() {
		defer func() {
			if x := recover(); x != nil {
				addFail(failedObl{Function: "(verifier)", Obligation: "verifier", Kind: "unsupported", What: "the verifier cannot treat the source", Status: "undecided", Output: fmt.Sprint(x) + "\n" + string(debug.Stack())})
			}
		}()
		v, err = newVerifier(repo, verif)
		if err != nil {
			addFail(failedObl{Function: "(package)", Obligation: "load", Kind: "load", What: "the package type-checks", Status: "undecided", Output: err.Error()})
			return
		}
		overall := 600 * time.Second
		if tier == "thorough" {
			overall = 780 * time.Second
		}
		v.solver.deadline = t0.Add(overall)
		v.confirm = tier == "thorough"
		v.stop = func(failed bool) bool {
			// a failing input is known and so is an obligation it breaks
			return failed && harnessFailed() || time.Now().After(v.solver.deadline)
		}
		v.hurry = harnessFailed
		res = v.run(prop, "", limit, false)
	}()

	counts := map[string]int{}
	total, done, trivial := 0, 0, 0
	var funcs []map[string]interface{}
	trusted := map[string]bool{}
	underContract := map[string]bool{}
	confirmed := 0
	if res != nil {
		for _, m := range res.miss {
			addFail(failedObl{Function: m, Obligation: m + "#missing", Kind: "missing", What: "the function under contract exists", Status: "undecided", Output: "no function " + m + " in the package"})
		}
		if res.cycle != "" {
			addFail(failedObl{Function: res.cycle, Obligation: "cycle", Kind: "cycle", What: "contracts are not used in a circle", Status: "undecided", Output: res.cycle})
		}
		if res.stopped {
			if len(fails) == 0 && !harnessFailed() {
				anyFailed := false
				for _, r := range res.units {
					anyFailed = anyFailed || r.failed()
				}
				if !anyFailed {
					addFail(failedObl{Function: prop, Obligation: "time", Kind: "time", What: "all obligations are attempted in time", Status: "undecided"})
				}
			}
		}
		for _, r := range res.units {
			underContract[r.name] = true
			n, ok := 0, 0
			for _, o := range r.obls {
				n++
				total++
				if o.status == "proved" {
					ok++
					done++
					counts[o.by]++
					if o.trivial {
						trivial++
					}
					if o.confirmed != "" {
						confirmed++
					}
					continue
				}
				addFail(failedObl{Function: r.name, Obligation: o.name(), Kind: o.kind, What: o.desc, Position: o.pos, Status: o.status, Output: o.output, Model: o.model})
			}
			if r.err != "" {
				addFail(failedObl{Function: r.name, Obligation: r.name + "#unsupported", Kind: "unsupported", What: "the function is within the verifier's reach", Status: "undecided", Output: r.err})
			} else if n == 0 {
				addFail(failedObl{Function: r.name, Obligation: r.name + "#none", Kind: "vacuous", What: "the contract generates obligations", Status: "undecided", Output: "no obligation was generated"})
			}
			if r.vacuous {
				addFail(failedObl{Function: r.name, Obligation: r.name + "#vacuous", Kind: "vacuous", What: "the precondition can be met", Status: "undecided", Output: "the precondition is contradictory"})
			}
			funcs = append(funcs, map[string]interface{}{"function": r.name, "obligations": n, "discharged": ok, "calls_through_contract": r.called, "inlined": r.inlined, "package_variables_read": r.globals})
			for _, t := range r.trusted {
				trusted[t] = true
			}
		}
		if len(res.units) == 0 && len(res.miss) == 0 {
			addFail(failedObl{Function: prop, Obligation: "none", Kind: "vacuous", What: "some function is under contract", Status: "undecided"})
		}
		for _, l := range res.lemmas {
			if l.how == "definition" {
				continue
			}
			total++
			if l.ok {
				done++
				counts[l.how]++
			} else {
				addFail(failedObl{Function: "lemma " + l.name, Obligation: "lemma:" + l.name, Kind: "lemma", What: l.name, Status: "unknown", Output: l.detail})
			}
		}
	}
	<-hdone

	var hints []string
	seen := map[string]bool{}
	for _, f := range fails {
		var ks []string
		for k := range f.Model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if x := f.Model[k]; x != "" && x != "0" && !strings.ContainsAny(x, " ()") && !seen[x] && len(hints) < 60 {
				seen[x] = true
				hints = append(hints, x)
			}
		}
	}
	evals := hres.Evals
	if len(fails) > 0 && hres.Fail == nil && hn.bin != "" && time.Since(t0) < 700*time.Second {
		// replay the counterexamples and search wider
		rem := 880*time.Second - time.Since(t0)
		if rem > 100*time.Second {
			rem = 100 * time.Second
		}
		r := hn.run("thorough", seed, hints, rem)
		evals += r.Evals
		if r.Fail != nil || r.Done {
			hres = r
		}
	}
	wall := time.Since(t0).Seconds()
	violation := len(fails) > 0 || hres.Fail != nil

	cov := map[string]interface{}{
		"obligations":              total,
		"discharged":               done,
		"checker_cmd":              fmt.Sprintf("./check.sh %s %s  (gocv: conditions generated from /repo's source, discharged by z3-new 5.3.2, cvc5 1.1.2, z3 4.8.12, exact interval reasoning and complete ground evaluation)", prop, tier),
		"by_backend":               counts,
		"functions_under_contract": funcs,
		"replay_evaluations":       evals,
		"replay_samples":           hres.Samples,
	}
	if hres.note != "" {
		cov["replay_note"] = hres.note
	}
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	tb = append(tb, "gocv, the condition generator in /verif/gocv", "go/parser and go/types of the installed Go", "z3-new, z3 and cvc5 answering unsat")
	cov["trusted_base"] = tb
	if v != nil {
		cov["solver_seconds"] = float64(int(v.solver.cpu*100)) / 100
		cov["solver_calls"] = v.solver.calls
		if v.confirm {
			cov["confirmed_by_second_solver"] = confirmed
		}
	}
	if res != nil {
		var ls []map[string]interface{}
		for _, l := range res.lemmas {
			m := map[string]interface{}{"lemma": l.name, "how": l.how, "ok": l.ok}
			if l.points > 0 {
				m["points"] = l.points
			}
			ls = append(ls, m)
		}
		cov["lemmas"] = ls
	}
	assumptions := []string{
		"int is 64 bits; overflow of every integer operation is an obligation, not assumed away",
		"no other goroutine changes package variables during a call",
	}
	if res != nil {
		for _, r := range res.units {
			for _, q := range r.requires {
				assumptions = append(assumptions, "domain of "+r.name+": "+q)
			}
			assumptions = append(assumptions, r.warn...)
		}
	}
	for _, t := range tb[:len(tb)-3] {
		assumptions = append(assumptions, "assumed: "+t)
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seedN, "level": "proof", "coverage": cov, "assumptions": dedup(assumptions), "wall_s": wall, "violations": 0}
	if violation {
		ev["violations"] = 1
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	for _, s := range shown {
		fmt.Println(s)
	}
	fmt.Printf("%s %s: %d of %d obligations discharged (%v), %d replay evaluations, %.1f s\n", prop, tier, done, total, counts, evals, wall)
	if !violation {
		return 0
	}
	for _, f := range fails {
		fmt.Printf("  not discharged: %s %s [%s] %s: %s\n", f.Obligation, f.Position, f.What, f.Status, short1(f.Output))
	}
	rp := filepath.Join(verif, "replay", prop+".json")
	os.MkdirAll(filepath.Dir(rp), 0755)
	suffix := " no-failing-input-found"
	m := map[string]interface{}{"property": prop, "failed_obligations": fails, "reproduce": fmt.Sprintf("cd %s && VERIF_SEED=%s ./check.sh %s %s", verif, seed, prop, tier)}
	if hres.Fail != nil {
		suffix = ""
		m["failing_input"] = hres.Fail
		m["harness_environment"] = hres.env
		fmt.Printf("  on the real code: %s: %s: expected %s, got %s\n", hres.Fail.What, hres.Fail.Input, hres.Fail.Expected, hres.Fail.Got)
	}
	if hres.note != "" {
		m["replay_note"] = hres.note
	}
	writeJSON(rp, m)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func dedup(l []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func writeJSON(file string, x interface{}) {
	f, err := os.Create(file)
	if err != nil {
		fmt.Println(err)
		return
	}
	defer f.Close()
	e := json.NewEncoder(f)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(x)
}
