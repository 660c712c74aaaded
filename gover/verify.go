package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Key     string
	Lemma   bool
	Spec    *FuncSpec
	Obs     []*Obligation
	Err     string
	Pos     string
	Notes   []string
	Calls   []string // contracts relied on
	Ext     []string // external functions without a contract
	Inlined []string
	Lemmas  []string
	ex      *Exec
	pre     string
	Axioms  []string
}

func newExec(w *World) *Exec {
	u := NewUniverse(w.repo)
	ex := &Exec{w: w, u: u, tags: map[int]string{}, lenv: map[string]int{}, obsN: map[string]int{}, assumed: map[string]bool{}, touched: map[string]bool{}, fnTable: map[string]*Closure{}, pureFns: map[string]bool{}, cbCount: map[string]bool{},
		heapTypes: map[string]types.Type{}, mapTypes: map[string]*types.Map{}, mdKeySort: map[string]string{}, ghostSort: map[string]string{}, extCalls: map[string]bool{}, usedSpecs: map[string]bool{}, inlined: map[string]bool{}, cellNames: map[string]string{}, usedUF: map[string]bool{}, traceTy: map[string]types.Type{}, ghostTy: map[string]GType{}, decVal: map[string]string{}, usedLemmas: map[string]bool{}}
	for _, t := range w.specs.Transparent {
		u.transparent[t] = true
	}
	ex.next0 = "next!0"
	u.decl("next", "(declare-const next!0 Int)\n(assert (> next!0 0))")
	ex.entry = &State{vars: map[string]Val{"next": {T: "next!0"}}}
	return ex
}

func (w *World) verify(key string) (res *Result) {
	fs := w.specs.Funcs[key]
	res = &Result{Key: key, Spec: fs}
	fn := w.funcs[key]
	if fn == nil {
		res.Err = "the function " + key + " named in the contract is not in the code"
		return
	}
	res.Pos = w.pos(fn.Pos())
	ex := newExec(w)
	res.ex = ex
	ex.fspec = fs
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				res.Err = e.Error()
			case specError:
				res.Err = e.Error()
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
		res.Obs = ex.obs
		for _, o := range ex.obs {
			if o.Kind == "frame" && o.Cond != "true" {
				continue
			}
		}
		res.Notes = sortedKeys(ex.assumed)
		res.Calls = sortedKeys(ex.usedSpecs)
		res.Ext = sortedKeys(ex.extCalls)
		res.Inlined = sortedKeys(ex.inlined)
		res.Lemmas = sortedKeys(ex.usedLemmas)
		if res.Err == "" {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(error); ok {
							res.Err = e.Error()
							return
						}
						panic(r)
					}
				}()
				res.pre = ex.preamble(res)
			}()
		}
	}()
	f := ex.newFrame(fn, nil, "")
	f.spec = fs
	f.entry = ex.entry
	ex.top = f
	if len(fs.Params) != len(fn.Params) {
		panic(specErr(fmt.Sprintf("%s: contract has %d parameters, the code has %d", fs.File, len(fs.Params), len(fn.Params))))
	}
	if fn.Parent() != nil {
		panic(specErr("closures cannot be verified on their own: " + key))
	}
	for i, p := range fn.Params {
		n := ex.konst("p_"+mangleRep.Replace(p.Name()), ex.u.sortOf(p.Type()))
		v := Val{T: n, Ty: p.Type()}
		f.vals[p] = v
		f.params[p.Name()] = v
		ex.facts("true", ex.entry, n, p.Type())
		if i == 0 && fn.Signature.Recv() != nil && !fs.Nilable {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				ex.emit("(assert (not (= (pb " + n + ") 0)))")
			}
		}
	}
	env := ex.fnEnv(f, ex.entry)
	if fs.ModAll {
		ex.modAll = true
	}
	ms, _ := ex.modItems(env, fs)
	ex.modset = ms
	for _, c := range fs.Requires {
		ex.assumeClause("true", ex.compileBool(env, c), c)
	}
	ex.cover("precondition", "true")
	for _, c := range fs.Uses {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specError); !ok {
						panic(r)
					}
				}
			}()
			ex.useHint(ex.fnEnv(f, ex.entry), c, "true")
		}()
	}
	rets := ex.runFunc(f, ex.entry.clone(), "true")
	var reaches []string
	for _, r := range rets {
		reaches = append(reaches, r.reach)
		if fs.Pure {
			// result must equal the function symbol's value: nothing to check, ensures only
		}
		e := ex.fnEnv(f, r.st)
		for i := range r.vals {
			v := r.vals[i]
			v.Ty = fn.Signature.Results().At(i).Type()
			sv := ex.sval(v)
			if sv.T == "" {
				if t, err := ex.tryTerm(r.st, r.reach, v); err == nil {
					sv = SVal{T: t, G: ex.u.gt(v.Ty)}
				}
			}
			if i < len(fs.Results) {
				e.vars[specName(fs.Results[i])] = sv
			}
			e.vars[fmt.Sprintf("result%d", i)] = sv
			if len(r.vals) == 1 {
				e.vars["result"] = sv
			}
		}
		for _, c := range fs.Uses {
			le := *e
			le.locals = false
			ex.useHint(&le, c, r.reach)
		}
		for i, c := range fs.Ensures {
			cond := ex.compileBool(e, c)
			ex.assertClause("ensures", fmt.Sprint(i+1), fn.Pos(), r.reach, cond, c)
		}
		// calls recorded in a trace the contract does not name
		if !fs.ModAll {
			_, named := ex.modItems(ex.fnEnv(f, ex.entry), fs)
			for _, k := range sortedKeys(r.st.vars) {
				if !strings.HasPrefix(k, "TN:") || slices.Contains(named, k[3:]) {
					continue
				}
				before := ex.traceLen(ex.entry, k[3:])
				if after := r.st.vars[k].T; after != before {
					ex.assert("frame", "calls of "+k[3:]+" not named in the contract", fn.Pos(), r.reach, eq(before, after))
				}
			}
		}
		for i, c := range fs.Closures {
			ex.proveClosure(f, e, r.st, r.reach, fs, fn.Signature, r.vals, c, i)
		}
		for _, a := range ex.locks {
			if a.Cell != "" {
				continue
			}
			// guard against address terms defined after this return's path
			before := ex.applyPath(ex.rootVal(ex.entry, a), a.Path)
			after := ex.applyPath(ex.rootVal(r.st, a), a.Path)
			if before != after {
				o := ex.assert("lock", "released on every return", fn.Pos(), r.reach, implies("(< "+a.Base+" "+ex.next0+")", eq(before, after)))
				if o != nil {
					o.Desc = "lock state at return equals lock state at entry"
				}
			}
		}
	}
	if len(rets) > 0 {
		ex.cover("return reachable", or(reaches...))
	}
	return
}

func resultIndex(fs *FuncSpec, name string) int {
	for i, r := range fs.Results {
		if specName(r) == name {
			return i
		}
	}
	panic(specErr(fs.File + ": closure: no result " + name))
}

// proveClosure runs the returned function values on arbitrary arguments in the
// state of the return: no effect on anything that existed, and the stated fact.
func (ex *Exec) proveClosure(f *Frame, e *Env, st *State, reach string, fs *FuncSpec, sig *types.Signature, vals []Val, c *ClosureSpec, no int) {
	env := e.clone()
	r := reach
	for _, call := range c.Calls {
		i := resultIndex(fs, call.Res)
		v := vals[i]
		if v.Clo == nil && v.T != "" {
			v.Clo = ex.fnTable[v.T]
		}
		if v.Clo == nil {
			panic(unsupported("returned function value is not a known closure"))
		}
		fsig := sig.Results().At(i).Type().Underlying().(*types.Signature)
		if fsig.Params().Len() != len(call.Params) || fsig.Results().Len() != 1 {
			panic(specErr(c.Where + ": closure call does not match the signature of " + call.Res))
		}
		var args []Val
		for j, pn := range call.Params {
			t := fsig.Params().At(j).Type()
			n := ex.konst("ca_"+mangleRep.Replace(pn), ex.u.sortOf(t))
			ex.facts("true", st, n, t)
			av := Val{T: n, Ty: t}
			args = append(args, av)
			env.vars[pn] = ex.sval(av)
		}
		ns := st.clone()
		rr := r
		out, ok := ex.inline(f, ns, &rr, v.Clo.Fn, args, v.Clo.Binds, f.fn.Pos())
		if !ok {
			panic(unsupported("returned function value never returns"))
		}
		for k, ov := range st.vars {
			if nv, ok := ns.vars[k]; ok && nv.T != ov.T && !strings.HasPrefix(k, "C:") || ok && strings.HasPrefix(k, "C:") && ov.T != "" && nv.T != ov.T {
				if k == "next" {
					continue
				}
				panic(unsupported("returned function value has an effect on " + k))
			}
		}
		r = rr
		out.Ty = fsig.Results().At(0).Type()
		env.vars[call.Out] = ex.sval(out)
	}
	for _, u := range c.Uses {
		le := *env
		le.locals = false
		ex.useHint(&le, u, r)
	}
	o := ex.assert("closure", fmt.Sprint(no+1), f.fn.Pos(), r, ex.compileBool(env, c.Clause))
	if o != nil {
		o.Desc = c.Text
		o.Props = c.Props
	}
}

// assumeClosures is the caller's side of proveClosure.
func (ex *Exec) assumeClosures(env *Env, reach string, fs *FuncSpec, sig *types.Signature, res []Val) {
	for _, c := range fs.Closures {
		n := env.clone()
		var bs, rng, pats []string
		for _, call := range c.Calls {
			i := resultIndex(fs, call.Res)
			fsig := sig.Results().At(i).Type().Underlying().(*types.Signature)
			ft := res[i].T
			ex.pureFns[ft] = true
			var ts []string
			for j, pn := range call.Params {
				t := fsig.Params().At(j).Type()
				nm := "cl_" + mangleRep.Replace(pn)
				bs = append(bs, "("+nm+" "+ex.u.sortOf(t)+")")
				if lo, hi, ok := intRange(t); ok {
					rng = append(rng, "(<= "+lo+" "+nm+")", "(<= "+nm+" "+hi+")")
				}
				n.vars[pn] = SVal{T: nm, G: ex.u.gt(t)}
				ts = append(ts, nm)
			}
			app := "(" + ex.cbUF(fsig, 0) + " " + ft + " " + strings.Join(ts, " ") + ")"
			pats = append(pats, app)
			n.vars[call.Out] = SVal{T: app, G: ex.u.gt(fsig.Results().At(0).Type())}
		}
		body := implies(and(rng...), ex.compileBool(n, c.Clause))
		ex.assume(reach, "(forall ("+strings.Join(bs, " ")+") (! "+body+" :pattern ("+strings.Join(pats, " ")+")))")
	}
}

func (ex *Exec) cover(what, reach string) {
	ex.obs = append(ex.obs, &Obligation{Name: "cover/" + what, Kind: "cover", Desc: what, Idx: len(ex.log), Reach: reach, Cond: "false", Cover: true})
}

// proveLemma generates the obligation of a lemma.
func (w *World) proveLemma(name string) (res *Result) {
	l := w.specs.Lemmas[name]
	res = &Result{Key: "lemma " + name, Lemma: true}
	ex := newExec(w)
	ex.lemma = l
	res.ex = ex
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				res.Err = e.Error()
			} else {
				res.Err = fmt.Sprint(r)
			}
		}
		res.Obs = ex.obs
		res.Notes = sortedKeys(ex.assumed)
		res.Lemmas = sortedKeys(ex.usedLemmas)
		if res.Err == "" {
			func() {
				defer func() {
					if r := recover(); r != nil {
						res.Err = fmt.Sprint(r)
					}
				}()
				res.pre = ex.preamble(res)
			}()
		}
	}()
	mk := func() *Env {
		return &Env{ex: ex, st: ex.entry, old: ex.entry, vars: map[string]SVal{}, pkg: l.Pkg, imports: l.Imports, where: "lemma " + name}
	}
	env := mk()
	for _, p := range l.Params {
		gt, err := w.resolveType(ex.u, p.Type, l.Pkg, l.Imports)
		if err != nil {
			panic(specErr(err.Error()))
		}
		env.vars[p.Name] = SVal{T: ex.konst("l_"+p.Name, gt.Sort), G: gt}
	}
	for _, c := range l.Requires {
		ex.assumeClause("true", ex.compileBool(env, c), c)
	}
	if l.Induct != "" {
		// hypothesis for every smaller non-negative value, all other parameters universally quantified
		n := mk()
		var bs []string
		for _, p := range l.Params {
			g := env.vars[p.Name].G
			nm := "ih_" + p.Name
			n.vars[p.Name] = SVal{T: nm, G: g}
			bs = append(bs, "("+nm+" "+g.Sort+")")
		}
		var rs, es []string
		for _, c := range l.Requires {
			rs = append(rs, ex.compileBool(n, c))
		}
		for _, c := range l.Ensures {
			es = append(es, ex.compileBool(n, c))
		}
		ie, err := ParseEx(l.Induct)
		if err != nil {
			panic(specErr(err.Error()))
		}
		m0, m1 := env.compile(ie).T, n.compile(ie).T
		rs = append(rs, "(<= 0 "+m1+")", "(< "+m1+" "+m0+")")
		body := implies(and(rs...), and(es...))
		if len(l.Trig) > 0 {
			for _, tr := range l.Trig {
				var ts []string
				for _, t := range tr {
					ts = append(ts, n.compile(t).T)
				}
				body = "(! " + body + " :pattern (" + strings.Join(ts, " ") + "))"
			}
		}
		ex.emit("(assert (forall (" + strings.Join(bs, " ") + ") " + body + "))")
	}
	for _, c := range l.Uses {
		ex.useHintLemma(env, c, l)
	}
	ex.cover("lemma hypotheses", "true")
	for i, c := range l.Ensures {
		o := ex.assert("lemma", fmt.Sprintf("%s/%d", name, i+1), 0, "true", ex.compileBool(env, c))
		o.Desc = c.Text
	}
	return
}

// useHintLemma: inside a lemma, "use Self(args)" is the induction hypothesis at
// explicit arguments; only allowed for a smaller measure.
func (ex *Exec) useHintLemma(env *Env, c Clause, l *LemmaSpec) {
	if c.E.Op == "call" && c.E.S == l.Name {
		if l.Induct == "" {
			panic(specErr(l.Name + " uses itself without induction"))
		}
		n := &Env{ex: ex, st: env.st, old: env.old, vars: map[string]SVal{}, pkg: l.Pkg, imports: l.Imports, where: "lemma " + l.Name}
		for i, a := range c.E.Args {
			g := env.vars[l.Params[i].Name].G
			n.vars[l.Params[i].Name] = SVal{T: env.coerce(env.compile(a), g), G: g}
		}
		ie, _ := ParseEx(l.Induct)
		m0, m1 := env.compile(ie).T, n.compile(ie).T
		rs := []string{"(<= 0 " + m1 + ")", "(< " + m1 + " " + m0 + ")"}
		var es []string
		for _, r := range l.Requires {
			rs = append(rs, ex.compileBool(n, r))
		}
		for _, r := range l.Ensures {
			es = append(es, ex.compileBool(n, r))
		}
		ex.emit("(assert " + implies(and(rs...), and(es...)) + ")")
		return
	}
	ex.useHint(env, c, "true")
}

func mentions(e *Ex, set map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "call" || e.Op == "ident" {
		set[e.S] = true
	}
	for _, a := range e.Args {
		mentions(a, set)
	}
	for _, t := range e.Trig {
		for _, a := range t {
			mentions(a, set)
		}
	}
}

// preamble: declarations, axioms and auto lemmas relevant to the obligations.
func (ex *Exec) preamble(res *Result) string {
	var ax strings.Builder
	done := map[string]bool{}
	all := append([]*LemmaSpec{}, ex.w.specs.Axioms...)
	for _, n := range sortedKeys(ex.w.specs.Lemmas) {
		if l := ex.w.specs.Lemmas[n]; l.Auto && (ex.lemma == nil || l.Ord < ex.lemma.Ord) {
			all = append(all, l)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, l := range all {
			if done[l.Name] {
				continue
			}
			m := map[string]bool{}
			for _, c := range l.Ensures {
				mentions(c.E, m)
			}
			for _, c := range l.Requires {
				mentions(c.E, m)
			}
			if l.Axiom {
				for _, tr := range l.Trig {
					for _, e := range tr {
						mentions(e, m)
					}
				}
			}
			// expand predicates
			for k := range m {
				if p, ok := ex.w.specs.Preds[k]; ok {
					mentions(p.Body, m)
				}
			}
			hit := false
			for k := range m {
				if ex.usedUF[k] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			done[l.Name] = true
			changed = true
			ax.WriteString(ex.lemmaFormula(l) + "\n")
			if l.Axiom {
				res.Axioms = append(res.Axioms, l.Name)
			} else {
				ex.usedLemmas[l.Name] = true
			}
		}
	}
	res.Lemmas = sortedKeys(ex.usedLemmas)
	body := strings.Join(ex.u.pre, "\n") + "\n" + ax.String() + strings.Join(ex.log, "\n")
	for _, o := range ex.obs {
		body += "\n" + o.Cond
	}
	var b strings.Builder
	b.WriteString(basePrelude)
	needF := false
	for _, s := range []string{"fadd", "fsub", "fmul", "fdiv", "i2f", "f2i", "fround", "fabs", "fneg", "rnd ", "roundr", "truncr"} {
		if strings.Contains(body, "("+s) {
			needF = true
		}
	}
	opq := map[string]bool{}
	if ex.fspec != nil {
		for _, o := range ex.fspec.Opaque {
			opq[o] = true
		}
	}
	if ex.lemma != nil {
		for _, o := range ex.lemma.Opaque {
			opq[o] = true
		}
	}
	ex.opaque = opq
	if needF {
		b.WriteString(opaqueFloats(opq))
	}
	if opq["*"] {
		b.WriteString("(declare-fun opmul (Int Int) Int)\n(assert (forall ((x Int) (y Int)) (! (=> (or (= x 0) (= y 0)) (= (opmul x y) 0)) :pattern ((opmul x y)))))\n(declare-fun rmul (Real Real) Real)\n")
	} else {
		b.WriteString("(define-fun rmul ((a Real) (b Real)) Real (* a b))\n")
	}
	for _, r := range ex.w.specs.Raw {
		use := false
		for _, line := range strings.Split(r.Text, "\n") {
			f := strings.Fields(line)
			if len(f) > 1 && strings.HasPrefix(f[0], "(de") && containsSym(body, strings.Trim(f[1], "()")) {
				use = true
			}
			if len(f) > 1 && f[0] == ";@" && containsSym(body, f[1]) {
				use = true
			}
		}
		if use {
			b.WriteString(r.Text + "\n")
		}
	}
	b.WriteString(strings.Join(ex.u.pre, "\n") + "\n")
	b.WriteString(ax.String())
	return b.String()
}

// opaqueFloats leaves out the meaning of the named float operations ("floats":
// of all of them): a sound weakening that keeps proofs which do not need it small.
func opaqueFloats(opq map[string]bool) string {
	if len(opq) == 0 {
		return floatPrelude
	}
	var out strings.Builder
	rest := strings.TrimSpace(floatPrelude)
	for rest != "" {
		form, r := splitSExpr(rest)
		rest = strings.TrimSpace(r)
		if strings.HasPrefix(form, "(assert") && opq["floats"] {
			continue
		}
		if strings.HasPrefix(form, "(define-fun ") {
			w := form[len("(define-fun "):]
			sp := strings.Index(w, " ")
			name := w[:sp]
			if opq[name] || opq["floats"] {
				args, r2 := splitSExpr(w[sp:])
				ret, _ := splitSExpr(r2)
				var ss []string
				a := strings.TrimSpace(args[1 : len(args)-1])
				for a != "" {
					one, r3 := splitSExpr(a)
					a = strings.TrimSpace(r3)
					ss = append(ss, strings.TrimSuffix(strings.Fields(one)[1], ")"))
				}
				form = "(declare-fun " + name + " (" + strings.Join(ss, " ") + ") " + ret + ")"
			}
		}
		out.WriteString(form + "\n")
	}
	return out.String()
}

func (ex *Exec) lemmaFormula(l *LemmaSpec) string {
	n := &Env{ex: ex, st: ex.entry, old: ex.entry, vars: map[string]SVal{}, pkg: l.Pkg, imports: l.Imports, where: "axiom " + l.Name}
	var bs []string
	for _, p := range l.Params {
		gt, err := ex.w.resolveType(ex.u, p.Type, l.Pkg, l.Imports)
		if err != nil {
			panic(specErr(l.Name + ": " + err.Error()))
		}
		nm := "ax_" + p.Name
		n.vars[p.Name] = SVal{T: nm, G: gt}
		bs = append(bs, "("+nm+" "+gt.Sort+")")
	}
	var rs, es []string
	for _, c := range l.Requires {
		rs = append(rs, ex.compileBool(n, c))
	}
	for _, c := range l.Ensures {
		es = append(es, ex.compileBool(n, c))
	}
	body := implies(and(rs...), and(es...))
	if len(l.Trig) > 0 {
		var ps []string
		for _, tr := range l.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, n.termOf(n.compile(t)))
			}
			ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
		}
		body = "(! " + body + " " + strings.Join(ps, " ") + ")"
	}
	if len(bs) == 0 {
		return "(assert " + body + ")"
	}
	return "(assert (forall (" + strings.Join(bs, " ") + ") " + body + "))"
}

// closure of contracts for a property
func (w *World) closureFor(prop string) []string {
	var roots []string
	for _, k := range w.specs.Order {
		fs := w.specs.Funcs[k]
		if fs.Extern || fs.Inline {
			continue
		}
		for _, p := range fs.Props {
			if p == prop {
				roots = append(roots, k)
			}
		}
	}
	sort.Strings(roots)
	return roots
}

var _ = ssa.NaiveForm
