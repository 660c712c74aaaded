package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Harness: an in-package Go test that runs the real code against an independent
// oracle. It replays failed obligations on concrete inputs and samples the
// assumptions the proofs rest on; it is never counted as proof.
type Harness struct {
	Pkg   string   `json:"pkg"`   // directory in the repository
	Files []string `json:"files"` // under harness/
	Run   string   `json:"run"`
	Race  bool     `json:"race"` // build with the race detector
}

var mutexField = regexp.MustCompile(`\b(mtx|[A-Za-z]*Mu|Lock|RWMutex)\b`)

func counts(o *Obligation, prop string) bool {
	if strings.HasPrefix(o.Kind, "guarded-") {
		return prop == "C09"
	}
	if prop == "C09" {
		// the lock discipline alone: what the functions compute is decided by the
		// checks of the properties about it, and taken for granted here
		return o.Kind == "lock" || mutexField.MatchString(o.Desc)
	}
	if len(o.Props) == 0 {
		return true
	}
	for _, p := range o.Props {
		if p == prop {
			return true
		}
	}
	return false
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"` // harness case or obligation that fails
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	vd := fs.String("verif", "/verif", "")
	noHarness := fs.Bool("noharness", false, "")
	noProof := fs.Bool("noproof", false, "")
	fs.Parse(args)
	prop := fs.Arg(0)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tmp, err := os.MkdirTemp("", "gover-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	code := runCheck(*repo, *vd, prop, tier, seed, tmp, t0, *noHarness, *noProof)
	os.RemoveAll(tmp)
	os.Exit(code)
}

type hresult struct {
	h      []Harness
	ran    bool
	usable bool
	fail   bool
	out    string
	cases  []string
	stats  map[string]int
	sample []string
	secs   float64
}

func runCheck(repo, vd, prop, tier string, seed int, tmp string, t0 time.Time, noHarness, noProof bool) int {
	// harness in the background
	hc := make(chan *hresult, 1)
	go func() {
		if noHarness {
			hc <- &hresult{}
			return
		}
		hc <- runHarness(repo, vd, prop, tier, seed, tmp)
	}()

	w := load(repo, filepath.Join(vd, "contracts"))
	s := newSolver(filepath.Join(tmp, "smt"), 8)
	budget := 420 * time.Second
	if tier == "thorough" {
		s.scale = 4
		budget = 3000 * time.Second
	}
	s.deadline = t0.Add(budget)
	s.hints = loadHints(filepath.Join(vd, "contracts", "hints.json"))
	var results []*Result
	lemmas := map[string]bool{}
	var queue []string
	addLemmas := func(r *Result) {
		for _, l := range r.Lemmas {
			if !lemmas[l] {
				lemmas[l] = true
				queue = append(queue, l)
			}
		}
	}
	roots := w.closureFor(prop)
	if noProof {
		roots = nil
	}
	rootset := map[string]bool{}
	relied := map[string]bool{} // contracts discharged by other checks
	for _, k := range roots {
		rootset[k] = true
	}
	for _, l := range sortedKeys(w.specs.Lemmas) {
		for _, p := range w.specs.Lemmas[l].Props {
			if p == prop && !noProof {
				lemmas[l] = true
				queue = append(queue, l)
			}
		}
	}
	seen := map[string]bool{}
	todo := append([]string{}, roots...)
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		r := w.verify(k)
		results = append(results, r)
		addLemmas(r)
		// a caller rests on the contracts of its callees: verify those as well
		for _, c := range r.Calls {
			if f := w.specs.Funcs[c]; f != nil && !f.Extern && !f.Inline && f.Trusted == "" && !seen[c] {
				if f.Separate && !rootset[c] {
					relied[fmt.Sprintf("%s (%s)", short(c), strings.Join(f.Props, ", "))] = true
					continue
				}
				todo = append(todo, c)
			}
		}
	}
	for len(queue) > 0 {
		l := queue[0]
		queue = queue[1:]
		r := w.proveLemma(l)
		results = append(results, r)
		addLemmas(r)
	}

	type fail struct {
		fn, name, status, pos, desc, out, smt string
	}
	var fails []fail
	obs, disch, covers, vacuous := 0, 0, 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var ms int64
	assume, ext, fnList := map[string]bool{}, map[string]bool{}, []string{}
	trusted, axioms, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var obSamples []string
	nl := 0
	var keep []func(*Obligation) bool
	for range results {
		keep = append(keep, nil)
	}
	for i, r := range results {
		keep[i] = func(o *Obligation) bool {
			if prop == "C09" && (o.Cover || r.Lemma) {
				return o.Cover && strings.HasSuffix(o.Name, "/precondition")
			}
			return o.Cover || r.Lemma || counts(o, prop)
		}
		if r.Err != "" {
			keep[i] = func(*Obligation) bool { return false }
		}
	}
	s.dischargeAll(results, keep)
	h := <-hc
	if !h.fail {
		// a slow machine must not look like a violation: the open obligations get far more time
		s.deadline = t0.Add(budget + 200*time.Second)
		s.retry(results, keep)
	}
	if f := os.Getenv("GOVER_HINTS_OUT"); f != "" {
		s.saveHints(f)
	}
	for i, r := range results {
		if r.Lemma {
			nl++
		} else {
			fnList = append(fnList, r.Key)
		}
		if r.Err != "" {
			obs++
			fails = append(fails, fail{r.Key, "contract", "error", r.Pos, strings.SplitN(r.Err, "\n", 2)[0], r.Err, ""})
			continue
		}
		for _, n := range r.Notes {
			assume[n] = true
		}
		for _, e := range r.Ext {
			ext[e] = true
		}
		for _, e := range r.Inlined {
			inlined[e] = true
		}
		for _, a := range r.Axioms {
			axioms[a] = true
		}
		for _, c := range r.Calls {
			if f := w.specs.Funcs[c]; f != nil && (f.Extern || f.Trusted != "") {
				trusted[c] = true
			}
		}
		for _, o := range r.Obs {
			if !keep[i](o) {
				continue
			}
			ms += o.Millis
			if o.Cover {
				covers++
				if o.Result == "vacuous" || o.Result == "error" {
					vacuous++
					fails = append(fails, fail{r.Key, o.Name, o.Result, o.Pos, "assumptions are contradictory", o.Out, o.File})
				}
				continue
			}
			obs++
			kinds[o.Kind]++
			if o.Result == "proved" {
				disch++
				by[o.Solver]++
				if len(obSamples) < 6 && o.Kind == "ensures" {
					obSamples = append(obSamples, short(r.Key)+": "+o.Desc)
				}
				continue
			}
			b, _ := os.ReadFile(o.File)
			fails = append(fails, fail{r.Key, o.Name, o.Result, o.Pos, o.Desc, o.Out, string(b)})
		}
	}
	proofSecs := time.Since(t0).Seconds()

	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(vd, "known-findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	isKnown := func(id string) *knownFinding {
		for i := range known {
			if known[i].Property == prop && known[i].Fixed == "" && known[i].ID == id {
				return &known[i]
			}
		}
		return nil
	}
	knownHit := map[string]*knownFinding{}
	var bad []fail
	for _, f := range fails {
		if k := isKnown(f.fn + ":" + f.name); k != nil {
			knownHit[k.ID] = k
			continue
		}
		bad = append(bad, f)
	}
	var cases []string
	for _, c := range h.cases {
		if k := isKnown(strings.SplitN(c, ":", 2)[0]); k != nil {
			knownHit[k.ID] = k
			continue
		}
		cases = append(cases, c)
	}
	hbad := h.fail && (len(cases) > 0 || len(h.cases) == 0)
	violated := len(bad) > 0 || hbad

	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}

	// evidence
	var tb []string
	tb = append(tb, "gover (this repository's verification-condition generator), golang.org/x/tools/go/ssa (front end), z3, cvc5")
	for _, k := range sortedKeys(trusted) {
		t := "assumed contract: " + k
		if f := w.specs.Funcs[k]; f != nil && f.Trusted != "" {
			t += " (" + f.Trusted + ")"
		}
		tb = append(tb, t)
	}
	for _, k := range sortedKeys(axioms) {
		tb = append(tb, "axiom: "+k)
	}
	var as []string
	as = append(as, sortedKeys(assume)...)
	as = append(as, "int and int64 arithmetic is treated as mathematical (no overflow); narrower and unsigned types wrap",
		"single goroutine semantics between lock operations; data races are excluded only as far as property C09 covers them")
	for _, k := range sortedKeys(ext) {
		as = append(as, "call without contract, results arbitrary and assumed to have no effect on the modelled state: "+k)
	}
	cov := map[string]any{
		"obligations": obs, "discharged": disch, "checker_cmd": "cd /verif && ./check.sh " + prop,
		"contracts_discharged_by_other_checks": sortedKeys(relied), "trusted_base": tb, "functions_under_contract": fnList, "helpers_verified_inline": sortedKeys(inlined),
		"lemmas_proved": nl, "by_backend": by, "by_kind": kinds, "solver_ms": ms, "consistency_checks": covers, "vacuous": vacuous,
		"samples": append(obSamples, h.sample...), "proof_s": proofSecs,
	}
	if h.ran {
		st := map[string]any{"label": "bounded: concrete executions of the real code against an independent oracle; searches for failing inputs and samples the assumptions; not counted as proved", "compiled": h.usable, "failed": h.fail, "wall_s": h.secs}
		for k, v := range h.stats {
			st[k] = v
		}
		cov["bounded_replay"] = st
		if v, ok := h.stats["cases"]; ok {
			cov["evaluations"] = v
		}
		if v, ok := h.stats["nontrivial"]; ok {
			cov["distinct_nontrivial"] = v
			cov["rule"] = "bounded replay: seeded random and enumerated inputs; non-trivial when the operation under test has something to do (see harness source)"
		}
	}
	level := "proof"
	var man struct {
		Checks []struct{ Property, Level string } `json:"checks"`
	}
	if b, err := os.ReadFile(filepath.Join(vd, "MANIFEST.json")); err == nil && json.Unmarshal(b, &man) == nil {
		for _, c := range man.Checks {
			if c.Property == prop {
				level = c.Level
			}
		}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": len(bad) + len(cases)}
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(vd, "evidence", prop+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d functions under contract, %d lemmas, %d/%d obligations discharged %v, %d consistency checks, proof %.1fs", prop, len(fnList), nl, disch, obs, by, covers, proofSecs)
	if h.ran {
		fmt.Printf("; bounded replay: usable=%v fail=%v %v %.1fs", h.usable, h.fail, h.stats, h.secs)
	}
	fmt.Println()
	if obs == 0 && !noProof {
		fmt.Fprintln(os.Stderr, "no obligations for", prop)
		return 3
	}
	if !violated {
		if h.ran && !h.usable {
			fmt.Println("note: the replay harness does not compile against this tree; the proof alone decides")
		}
		return 0
	}
	for _, f := range bad {
		fmt.Printf("failed obligation: %s %s [%s] at %s: %s\n", short(f.fn), f.name, f.status, f.pos, trunc(f.desc, 300))
	}
	for _, c := range cases {
		fmt.Println("failing input:", trunc(c, 500))
	}
	// replay file
	dir := filepath.Join(vd, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	rp := filepath.Join(dir, prop+".txt")
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "property %s\n", prop)
	if hbad {
		fmt.Fprintf(&rb, "\n== concrete failing input on the real code (rerun: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s)\n", seed, tier, prop)
		for _, c := range cases {
			fmt.Fprintln(&rb, c)
		}
		fmt.Fprintf(&rb, "\n-- test output\n%s\n", truncTail(h.out, 20000))
	}
	for _, f := range bad {
		fmt.Fprintf(&rb, "\n== failed obligation %s of %s [%s] at %s\n%s\n-- verifier output\n%s\n", f.name, f.fn, f.status, f.pos, f.desc, f.out)
	}
	for i, f := range bad {
		if i < 3 && f.smt != "" {
			fmt.Fprintf(&rb, "\n-- verification condition of %s %s\n%s\n", f.fn, f.name, f.smt)
		}
	}
	os.WriteFile(rp, rb.Bytes(), 0o644)
	if hbad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

func short(k string) string {
	return strings.ReplaceAll(k, "sigs.k8s.io/instrumentation-tools/", "")
}
func truncTail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

var statRe = regexp.MustCompile(`(?m)^\s*VERIF-STAT (\w+) (\d+)\s*$`)
var sampleRe = regexp.MustCompile(`(?m)^\s*VERIF-SAMPLE (.*)$`)
var caseRe = regexp.MustCompile(`(?m)FAILING-CASE (.*)$`)

func runHarness(repo, vd, prop, tier string, seed int, tmp string) *hresult {
	r := &hresult{stats: map[string]int{}}
	b, err := os.ReadFile(filepath.Join(vd, "harness", "harness.json"))
	if err != nil {
		return r
	}
	all := map[string][]Harness{}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "harness.json:", err)
		os.Exit(3)
	}
	r.h = all[prop]
	t := time.Now()
	r.usable = true
	for i, h := range r.h {
		r.ran = true
		repl := map[string]string{}
		pkgName := ""
		for _, f := range h.Files {
			b, _ := os.ReadFile(filepath.Join(vd, "harness", f))
			if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
				pkgName = string(m[1])
			}
		}
		if cb, err := os.ReadFile(filepath.Join(vd, "harness", "common.go")); err == nil {
			cf := filepath.Join(tmp, fmt.Sprintf("common%d.go", i))
			os.WriteFile(cf, []byte(strings.Replace(string(cb), "package common", "package "+pkgName, 1)), 0o644)
			repl[filepath.Join(repo, h.Pkg, "zz_verif_common_test.go")] = cf
		}
		for _, f := range h.Files {
			repl[filepath.Join(repo, h.Pkg, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = filepath.Join(vd, "harness", f)
		}
		// the package's own tests are left out: they are not part of the check
		old, _ := filepath.Glob(filepath.Join(repo, h.Pkg, "*_test.go"))
		for _, f := range old {
			repl[f] = ""
		}
		ov, _ := json.Marshal(map[string]any{"Replace": repl})
		ovf := filepath.Join(tmp, fmt.Sprintf("overlay%d.json", i))
		os.WriteFile(ovf, ov, 0o644)
		bin := filepath.Join(tmp, fmt.Sprintf("h%d.test", i))
		args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
		if h.Race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./"+h.Pkg)...)
		cmd.Dir = repo
		cmd.Env = os.Environ()
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.usable = false
			r.out += "harness build: " + string(out)
			fmt.Println("note: harness build failed:", trunc(string(out), 600))
			continue
		}
		lim := "200s"
		if tier == "thorough" {
			lim = "1200s"
		}
		d, _ := time.ParseDuration(lim)
		ctx, cancel := context.WithTimeout(context.Background(), d+30*time.Second)
		run := exec.CommandContext(ctx, bin, "-test.run", h.Run, "-test.v", "-test.timeout", lim)
		run.Dir = tmp
		run.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "GOMEMLIMIT=6GiB")
		o, err := run.CombinedOutput()
		cancel()
		txt := string(o)
		r.out += txt
		if err != nil {
			r.fail = true
			n := 0
			for _, m := range caseRe.FindAllStringSubmatch(txt, 20) {
				r.cases = append(r.cases, m[1])
				n++
			}
			if n == 0 {
				// a crash or a time-out of the code under test
				line := ""
				for _, l := range strings.Split(txt, "\n") {
					if strings.Contains(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "VERIF-INPUT") {
						line += l + " "
					}
				}
				r.cases = append(r.cases, "crash: "+line)
			}
		}
		for _, m := range statRe.FindAllStringSubmatch(txt, -1) {
			v := 0
			fmt.Sscan(m[2], &v)
			r.stats[m[1]] += v
		}
		for _, m := range sampleRe.FindAllStringSubmatch(txt, 5) {
			r.sample = append(r.sample, m[1])
		}
		if err == nil && r.stats["cases"] == 0 {
			fmt.Println("note: harness", h.Run, "ran no cases")
		}
	}
	r.secs = time.Since(t).Seconds()
	return r
}

var _ = sort.Strings
