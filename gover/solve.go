package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	dir      string
	cache    string
	slots    chan struct{}
	scale    float64
	deadline time.Time
	hints    map[string]hint // the back end that decided an obligation before: tried first
	hmu      sync.Mutex
	won      map[string]hint
}

// hint names the back end that decided an obligation on an earlier run and how
// long it took. It only orders the back ends; every obligation is decided anew.
type hint struct {
	S  string `json:"s"`
	Ms int64  `json:"ms"`
}

func (s *Solver) win(r *Result, o *Obligation, solver string, ms int64) {
	s.hmu.Lock()
	defer s.hmu.Unlock()
	if s.won == nil {
		s.won = map[string]hint{}
	}
	s.won[hintKey(r, o)] = hint{solver, ms}
}

func hintKey(r *Result, o *Obligation) string {
	return fmt.Sprintf("%x", sha256.Sum256([]byte(r.Key+" "+o.Name)))[:16]
}

func loadHints(file string) map[string]hint {
	h := map[string]hint{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &h)
	}
	return h
}

// saveHints adds what was decided on this run; only obligations that the first
// back end does not settle at once are worth a hint.
func (s *Solver) saveHints(file string) {
	h := loadHints(file)
	for k, v := range s.won {
		if v.S == backends[0].name && v.Ms < 1500 {
			delete(h, k)
			continue
		}
		h[k] = v
	}
	ks := sortedKeys(h)
	var b strings.Builder
	b.WriteString("{")
	for i, k := range ks {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "\n%q: {\"s\": %q, \"ms\": %d}", k, h[k].S, h[k].Ms)
	}
	b.WriteString("\n}\n")
	os.WriteFile(file, []byte(b.String()), 0o644)
}

// for the cases of a split
var splitBackends = []backend{
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=6", f}
	}, 2000},
	{"z3-4.8.12", func(f string, ms int) []string {
		return []string{"z3", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", f}
	}, 5000},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(ms), f}
	}, 5000},
	{"z3-new(auto)", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", f}
	}, 4000},
	{"z3-4.8.12", func(f string, ms int) []string {
		return []string{"z3", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", f}
	}, 5000},
}

var fileSeq atomic.Int64

func newSolver(dir string, par int) *Solver {
	os.MkdirAll(dir, 0o755)
	return &Solver{dir: dir, slots: make(chan struct{}, par), scale: 1}
}

type backend struct {
	name string
	args func(file string, ms int) []string
	ms   int
}

var backends = []backend{
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=6", f}
	}, 6000},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(ms), f}
	}, 6000},
	{"z3-new(auto)", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", f}
	}, 5000},
	{"z3-4.8.12", func(f string, ms int) []string {
		return []string{"z3", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", f}
	}, 8000},
	{"z3-new(mbqi)", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=true", "auto_config=false", f}
	}, 6000},
	{"z3-new(nl)", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.case_split=3", f}
	}, 15000},
}

// the same back ends and two other seeds, for obligations that stayed open
var retryBackends = append([]backend{
	{"z3-new(seed 3)", func(f string, ms int) []string {
		return []string{"z3-new", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=6", "smt.random_seed=3", f}
	}, 6000},
	{"z3-4.8.12(seed 5)", func(f string, ms int) []string {
		return []string{"z3", "-T:" + fmt.Sprint(ms/1000+1), "smt.mbqi=false", "auto_config=false", "smt.random_seed=5", f}
	}, 6000},
}, backends...)

func runSolver(b backend, file string, scale float64) (string, int64, string) {
	ms := int(float64(b.ms) * scale)
	a := b.args(file, ms)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+4000)*time.Millisecond)
	defer cancel()
	t := time.Now()
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	el := time.Since(t).Milliseconds()
	s := out.String()
	lines := strings.Split(strings.TrimSpace(s), "\n")
	first := strings.TrimSpace(lines[len(lines)-1])
	switch first {
	case "unsat", "sat", "unknown":
		return first, el, s
	}
	if strings.Contains(s, "error") {
		return "error", el, s
	}
	return "timeout", el, s
}

// dischargeAll decides the obligations of many results at once.
func (s *Solver) dischargeAll(rs []*Result, keep []func(*Obligation) bool) {
	var wg sync.WaitGroup
	for i, r := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.discharge(r, keep[i])
		}()
	}
	wg.Wait()
}

// discharge decides every obligation of a result.
func (s *Solver) discharge(r *Result, filter func(*Obligation) bool) {
	var wg sync.WaitGroup
	for i, o := range r.Obs {
		if !filter(o) {
			continue
		}
		if !o.Cover && (o.Cond == "true" || o.Reach == "false") {
			o.Result, o.Solver = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		go func(i int, o *Obligation) {
			defer wg.Done()
			s.slots <- struct{}{}
			defer func() { <-s.slots }()
			s.one(r, i, o)
		}(i, o)
	}
	wg.Wait()
}

// nameDef turns a definition of a non-boolean term into a constant with an
// equation, so that solvers do not expand it inside patterns.
func nameDef(l string) string {
	if !strings.HasPrefix(l, "(define-fun ") {
		return l
	}
	rest := l[len("(define-fun "):]
	sp := strings.Index(rest, " ")
	name := rest[:sp]
	if !strings.HasPrefix(rest[sp:], " () ") {
		return l
	}
	sort, body := splitSExpr(rest[sp+4:])
	if sort == "Bool" {
		return l
	}
	body = strings.TrimSpace(body)
	body = body[:len(body)-1]
	return "(declare-const " + name + " " + sort + ")\n(assert (= " + name + " " + body + "))"
}

// dropRe matches the clauses a proof is told to do without: fewer hypotheses
// only make an obligation harder to meet.
func dropRe(names []string) *regexp.Regexp {
	if len(names) == 0 {
		return nil
	}
	return regexp.MustCompile(`\b(` + strings.Join(names, "|") + `)\b`)
}

func (s *Solver) one(r *Result, i int, o *Obligation) {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(r.pre)
	drop := dropRe(o.Without)
	for k, l := range r.ex.log[:o.Idx] {
		if t := r.ex.tags[k]; t != "" && drop != nil && drop.MatchString(t) {
			continue
		}
		b.WriteString(nameDef(l))
		b.WriteByte('\n')
	}
	b.WriteString("(assert " + o.Reach + ")\n(assert (not " + o.Cond + "))\n(check-sat)\n")
	txt := b.String()
	if r.ex.opaque["*"] {
		k := len("(set-logic ALL)\n") + len(r.pre)
		txt = txt[:k] + opaqueMul(txt[k:])
	}
	sum := fmt.Sprintf("%x", sha256.Sum256([]byte(txt)))[:24]
	o.File = filepath.Join(s.dir, fmt.Sprintf("%s-%d.smt2", sum, fileSeq.Add(1)))
	if s.cache != "" {
		if c, err := os.ReadFile(filepath.Join(s.cache, sum)); err == nil {
			f := strings.Fields(string(c))
			o.Result, o.Solver = f[0], f[1]
			if o.Result == "proved" || o.Result == "ok" {
				return
			}
		}
	}
	if err := os.WriteFile(o.File, []byte(txt), 0o644); err != nil {
		o.Result, o.Out = "error", err.Error()
		return
	}
	if o.Cover {
		// must not be refutable: a proof of false means the assumptions are contradictory
		b := backends[0]
		b.ms = 3000
		v, ms, out := runSolver(b, o.File, 1)
		o.Millis = ms
		o.Solver = b.name
		o.Result = "ok"
		if v == "unsat" {
			o.Result, o.Out = "vacuous", out
		}
		if v == "error" {
			o.Result, o.Out = "error", out
		}
		s.remember(sum, o)
		if o.Result == "ok" {
			os.Remove(o.File)
		}
		return
	}
	split := false
	if h, ok := s.hints[hintKey(r, o)]; ok {
		if h.S == "case-split" {
			split = true
			t := time.Now()
			if s.split(r, o, txt) {
				o.Result, o.Solver = "proved", "case-split"
				s.win(r, o, o.Solver, time.Since(t).Milliseconds())
				s.remember(sum, o)
				os.Remove(o.File)
				return
			}
		}
		for _, b := range retryBackends {
			if b.name != h.S {
				continue
			}
			b.ms = max(b.ms, int(3*h.Ms)+3000)
			v, ms, _ := runSolver(b, o.File, s.scale)
			o.Millis += ms
			if v == "unsat" {
				o.Result, o.Solver = "proved", b.name
				s.win(r, o, b.name, ms)
				s.remember(sum, o)
				os.Remove(o.File)
				return
			}
		}
	}
	for bi, b := range backends {
		t := time.Now()
		if bi == 2 && !split && s.split(r, o, txt) {
			o.Result, o.Solver = "proved", "case-split"
			s.win(r, o, o.Solver, time.Since(t).Milliseconds())
			s.remember(sum, o)
			os.Remove(o.File)
			return
		}
		if !s.deadline.IsZero() && time.Now().After(s.deadline) {
			o.Out += "time budget of the check used up\n"
			break
		}
		v, ms, out := runSolver(b, o.File, s.scale)
		o.Millis += ms
		if v == "unsat" {
			o.Result, o.Solver = "proved", b.name
			s.win(r, o, b.name, ms)
			s.remember(sum, o)
			os.Remove(o.File)
			return
		}
		o.Out += fmt.Sprintf("%s: %s (%d ms) %s\n", b.name, v, ms, trunc(out, 300))
		if v == "error" && b.name == "z3-new" {
			o.Result = "error"
			return
		}
	}
	o.Result = "failed"
}

var rsym = regexp.MustCompile(`r![0-9]+`)

// split decides an obligation path by path: for each joining of paths on the way
// to it one case per path, so that the states behind the joins become plain.
// Together with the case of no path at all the cases cover everything.
func (s *Solver) split(r *Result, o *Obligation, txt string) bool {
	defs := map[string]string{}
	for _, l := range r.ex.log[:o.Idx] {
		if strings.HasPrefix(l, "(define-fun r!") {
			rest := l[len("(define-fun "):]
			if i := strings.Index(rest, " () Bool "); i > 0 {
				defs[rest[:i]] = strings.TrimSuffix(rest[i+len(" () Bool "):], ")")
			}
		}
	}
	var joins [][]string
	seen := map[string]bool{}
	var walk func(t string)
	walk = func(t string) {
		for _, m := range rsym.FindAllString(t, -1) {
			if seen[m] {
				continue
			}
			seen[m] = true
			d := defs[m]
			if strings.HasPrefix(d, "(or ") {
				parts := splitAll(d[4 : len(d)-1])
				if len(parts) > 1 {
					joins = append(joins, parts)
				}
			}
			walk(d)
		}
	}
	walk(o.Reach)
	n := 1
	var use [][]string
	for _, j := range joins {
		if n*len(j) > 24 {
			continue
		}
		n *= len(j)
		use = append(use, j)
	}
	if len(use) == 0 {
		return false
	}
	cases := []string{""}
	var none []string
	for _, j := range use {
		var next []string
		for i := range j {
			var b strings.Builder
			for k := range j[:i] {
				b.WriteString("(assert (not " + j[k] + "))\n")
			}
			b.WriteString("(assert " + j[i] + ")\n")
			for _, c := range cases {
				next = append(next, c+b.String())
			}
		}
		cases = next
		none = append(none, "(assert (and (not "+strings.Join(j, ") (not ")+")))\n")
	}
	cases = append(cases, none...)
	body := strings.TrimSuffix(txt, "(check-sat)\n")
	for i, c := range cases {
		f := fmt.Sprintf("%s.%d", o.File, i)
		if err := os.WriteFile(f, []byte(body+c+"(check-sat)\n"), 0o644); err != nil {
			return false
		}
		ok := false
		for _, b := range splitBackends {
			if !s.deadline.IsZero() && time.Now().After(s.deadline) {
				break
			}
			v, ms, _ := runSolver(b, f, s.scale)
			o.Millis += ms
			if v == "unsat" {
				ok = true
				break
			}
		}
		os.Remove(f)
		if !ok {
			return false
		}
	}
	return true
}

// splitAll splits a sequence of terms.
func splitAll(t string) []string {
	var out []string
	depth, start := 0, -1
	for i, c := range t {
		switch {
		case c == '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				out = append(out, t[start:i+1])
				start = -1
			}
		case c == ' ':
			if depth == 0 && start >= 0 {
				out = append(out, t[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, t[start:])
	}
	return out
}

// retry gives the obligations that stayed open more time, all back ends at once.
func (s *Solver) retry(rs []*Result, keep []func(*Obligation) bool) {
	var open []*Obligation
	of := map[*Obligation]*Result{}
	for i, r := range rs {
		for _, o := range r.Obs {
			if keep[i](o) && !o.Cover && o.Result == "failed" {
				open = append(open, o)
				of[o] = r
			}
		}
	}
	if len(open) == 0 || len(open) > 40 {
		return
	}
	var wg sync.WaitGroup
	for _, b := range retryBackends {
		for _, o := range open {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.slots <- struct{}{}
				defer func() { <-s.slots }()
				o.mu.Lock()
				done := o.Result == "proved"
				o.mu.Unlock()
				if done || time.Now().After(s.deadline) {
					return
				}
				v, ms, _ := runSolver(b, o.File, 5*s.scale)
				o.mu.Lock()
				defer o.mu.Unlock()
				o.Millis += ms
				if v == "unsat" && o.Result != "proved" {
					o.Result, o.Solver = "proved", b.name
					s.win(of[o], o, b.name, ms)
				}
			}()
		}
	}
	wg.Wait()
	for _, o := range open {
		if o.Result == "proved" {
			os.Remove(o.File)
		}
	}
}
func (s *Solver) remember(sum string, o *Obligation) {
	if s.cache != "" {
		os.MkdirAll(s.cache, 0o755)
		os.WriteFile(filepath.Join(s.cache, sum), []byte(o.Result+" "+strings.ReplaceAll(o.Solver, " ", "_")), 0o644)
	}
}
func trunc(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n]
	}
	return s
}

// opaqueMul hides products, but for those by a literal.
func opaqueMul(t string) string {
	var b strings.Builder
	for {
		i := strings.Index(t, "(* ")
		if i < 0 {
			b.WriteString(t)
			return b.String()
		}
		b.WriteString(t[:i])
		rest := t[i+3:]
		e := sexpEnd(rest)
		lit := isNumeral(rest[:e])
		if !lit && e < len(rest) && rest[e] == ' ' {
			r2 := rest[e+1:]
			lit = isNumeral(r2[:sexpEnd(r2)])
		}
		if lit {
			b.WriteString("(* ")
		} else {
			b.WriteString("(opmul ")
		}
		t = rest
	}
}

// sexpEnd is the length of the s-expression t starts with.
func sexpEnd(t string) int {
	d := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			d++
		case ')':
			if d == 0 {
				return i
			}
			d--
			if d == 0 {
				return i + 1
			}
		case ' ':
			if d == 0 {
				return i
			}
		}
	}
	return len(t)
}
func isNumeral(t string) bool {
	t = strings.TrimSuffix(strings.TrimPrefix(t, "(- "), ")")
	if t == "" {
		return false
	}
	for _, c := range t {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
