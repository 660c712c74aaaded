package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) call(f *Frame, st *State, reach *string, c *ssa.CallCommon, ins ssa.CallInstruction, dargs []Val, dfn *Val) (Val, bool) {
	pos := ins.Pos()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(f, st, reach, c, bi, pos, dargs), true
	}
	var args []Val
	if dargs != nil || dfn != nil {
		args = dargs
	} else {
		for _, a := range c.Args {
			args = append(args, ex.val(f, st, a))
		}
	}
	if c.IsInvoke() {
		var rv Val
		if dfn != nil && (dfn.T != "" || dfn.Ty != nil) {
			rv = *dfn
		} else {
			rv = ex.val(f, st, c.Value)
		}
		it := rv.Ty
		if it == nil {
			it = c.Value.Type()
		}
		key := "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
		if typeKey(c.Value.Type()) == "error" {
			key = "(error)." + c.Method.Name()
		}
		rt := ex.term(st, *reach, rv)
		ex.assert("nil", "method call on nil interface "+c.Method.Name(), pos, *reach, not(eq(rt, "anynil")))
		all := append([]Val{rv}, args...)
		fs := ex.w.specs.Funcs[key]
		if fs == nil {
			// promoted from an embedded interface
			if m, ok := c.Method.Type().(*types.Signature); ok && m.Recv() != nil {
				if k2 := "(" + typeKey(m.Recv().Type()) + ")." + c.Method.Name(); k2 != key {
					fs = ex.w.specs.Funcs[k2]
				}
			}
		}
		ex.onCall(f, st, *reach, c.Method.Name(), all, pos)
		return ex.contractOrHavoc(f, st, reach, fs, key, c.Signature(), all, pos)
	}
	callee := c.StaticCallee()
	if callee == nil {
		var fv Val
		if dfn != nil && (dfn.Clo != nil || dfn.T != "") {
			fv = *dfn
		} else {
			fv = ex.val(f, st, c.Value)
		}
		if fv.Clo == nil && fv.T != "" {
			if cl, ok := ex.fnTable[fv.T]; ok {
				fv.Clo = cl
			}
		}
		if fv.Clo != nil {
			return ex.callFn(f, st, reach, fv.Clo.Fn, args, fv.Clo.Binds, pos)
		}
		return ex.callback(f, st, reach, c, fv, args, pos)
	}
	var binds []Val
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		if dfn != nil && dfn.Clo != nil {
			binds = dfn.Clo.Binds
		} else {
			binds = ex.val(f, st, mc).Clo.Binds
		}
	}
	return ex.callFn(f, st, reach, callee, args, binds, pos)
}

func (ex *Exec) callFn(f *Frame, st *State, reach *string, fn *ssa.Function, args, binds []Val, pos token.Pos) (Val, bool) {
	key := fn.RelString(nil)
	short := fn.Name()
	ex.onCall(f, st, *reach, short, args, pos)
	// bound method closures
	if strings.HasSuffix(fn.Name(), "$bound") && len(fn.Blocks) > 0 {
		return ex.inline(f, st, reach, fn, args, binds, pos)
	}
	if v, ok, done := ex.model(f, st, reach, fn, key, args, pos); done {
		return v, ok
	}
	fs := ex.w.specs.Funcs[key]
	if fs != nil && !fs.Inline && !(ex.fspec != nil && ex.fspec.InlineCalls[short]) {
		return ex.contractOrHavoc(f, st, reach, fs, key, fn.Signature, args, pos)
	}
	if ex.w.inRepo(fn) && len(fn.Blocks) > 0 || fn.Synthetic != "" && len(fn.Blocks) > 0 || fn.Parent() != nil {
		for p := f; p != nil; p = p.parent {
			if p.fn == fn {
				panic(unsupported("recursive call of " + key + " without a contract"))
			}
		}
		return ex.inline(f, st, reach, fn, args, binds, pos)
	}
	return ex.contractOrHavoc(f, st, reach, nil, key, fn.Signature, args, pos)
}

func (ex *Exec) inline(f *Frame, st *State, reach *string, fn *ssa.Function, args, binds []Val, pos token.Pos) (Val, bool) {
	if ex.inlineDepth > 14 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	ex.inlineDepth++
	defer func() { ex.inlineDepth-- }()
	path := f.path
	if path != "" {
		path += "."
	}
	path += fn.Name()
	if n := inlineOrdinal(f.fn, fn, pos); n > 1 {
		path += fmt.Sprintf("#%d", n)
	}
	nf := ex.newFrame(fn, f, path)
	nf.entry = st.clone()
	if ex.w.inRepo(fn) {
		ex.inlined[fn.RelString(nil)] = true
	}
	if fs := ex.w.specs.Funcs[fn.RelString(nil)]; fs != nil {
		nf.spec = fs
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("argument count for " + fn.String()))
	}
	for i, p := range fn.Params {
		v := args[i]
		v.Ty = p.Type()
		nf.vals[p] = v
		nf.params[p.Name()] = v
	}
	for i, fv := range fn.FreeVars {
		nf.vals[fv] = binds[i]
	}
	rets := ex.runFunc(nf, st.clone(), *reach)
	if len(rets) == 0 {
		return Val{}, false
	}
	var in []edge
	for _, r := range rets {
		in = append(in, edge{nil, r.reach, r.st})
	}
	var res Val
	if n := len(rets[0].vals); n > 0 {
		var out []Val
		for i := 0; i < n; i++ {
			var vs []Val
			for _, r := range rets {
				vs = append(vs, r.vals[i])
			}
			v, ok := ex.mergeVals(in, vs, "phi")
			if !ok {
				panic(unsupported("cannot merge results of " + fn.String()))
			}
			v.Ty = fn.Signature.Results().At(i).Type()
			out = append(out, v)
		}
		if n == 1 {
			res = out[0]
		} else {
			res = Val{Tup: out}
		}
	}
	r, ns := ex.mergeEdges(f, in)
	// drop the callee's own variables unless a closure may still use them
	pre := fmt.Sprintf("C:%d:", nf.id)
	keep := hasClo(res)
	if !keep {
		for k := range ns.vars {
			if strings.HasPrefix(k, pre) || strings.HasPrefix(k, fmt.Sprintf("VIS:%d:", nf.id)) {
				delete(ns.vars, k)
			}
		}
	}
	st.vars = ns.vars
	*reach = r
	return res, true
}

// inlineOrdinal numbers the calls of one function in another by source position.
func inlineOrdinal(caller, callee *ssa.Function, pos token.Pos) int {
	n := 1
	for _, b := range caller.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == callee && in.Pos() < pos {
				n++
			}
		}
	}
	return n
}

func hasClo(v Val) bool {
	if v.Clo != nil {
		return true
	}
	for _, t := range v.Tup {
		if hasClo(t) {
			return true
		}
	}
	return strings.HasPrefix(v.T, "clo!")
}

func (ex *Exec) onCall(f *Frame, st *State, reach, name string, args []Val, pos token.Pos) {
	if ex.fspec == nil || ex.dry > 0 {
		return
	}
	for i, c := range ex.fspec.OnCall {
		if c.Name != name {
			continue
		}
		env := ex.frameEnv(ex.top, st, nil)
		for j, a := range args {
			env.vars[fmt.Sprintf("a%d", j)] = ex.sval(a)
		}
		cond := ex.compileBool(env, c)
		ex.assertClause("oncall", fmt.Sprintf("%s/%d", name, i+1), pos, reach, cond, c)
	}
}

// ---- callbacks and traces ----

func funcName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.UnOp:
		return funcName(x.X)
	case *ssa.Alloc:
		return x.Comment
	case *ssa.FieldAddr:
		return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Lookup:
		return funcName(x.X)
	case *ssa.Extract:
		return funcName(x.Tuple)
	}
	return "fn"
}

func (ex *Exec) callback(f *Frame, st *State, reach *string, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) (Val, bool) {
	name := funcName(c.Value)
	ft := ex.term(st, *reach, fv)
	ex.assert("nil", "call of nil function "+name, pos, *reach, not(eq(ft, "fnnil")))
	ex.onCall(f, st, *reach, name, args, pos)
	sig := c.Signature()
	pure := ex.fspec != nil && ex.fspec.PureCB[name] || ex.pureFns[ft]
	callNo := ""
	if !pure {
		callNo = ex.traceLen(st, name)
		ex.trace(st, *reach, name, args)
	}
	if !ex.pureFns[ft] {
		ex.note("callback " + name + ": assumed to return, and not to modify the objects the function works on")
	}
	var ts []string
	if pure {
		for _, a := range args {
			ts = append(ts, ex.term(st, *reach, a))
		}
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if pure {
			out = append(out, Val{T: ex.def("cb", ex.u.sortOf(rt), "("+ex.cbUF(sig, i)+" "+ft+" "+strings.Join(ts, " ")+")"), Ty: rt})
			ex.facts(*reach, st, out[i].T, rt)
			continue
		}
		n := ex.konst("cbr", ex.u.sortOf(rt))
		ex.facts(*reach, st, n, rt)
		// what the call returned is part of the trace
		k := fmt.Sprintf("TA:%s:%d", name, traceRes+i)
		na := ex.def("ta", "(Array Int "+ex.u.sortOf(rt)+")", store(ex.traceArg(st, name, traceRes+i, rt), callNo, n))
		st.vars[k] = Val{T: na}
		ex.assume("true", "(= (select "+na+" "+callNo+") "+n+")")
		out = append(out, Val{T: n, Ty: rt})
	}
	return tup(out), true
}

// results of traced callbacks are kept like arguments, from this number on
const traceRes = 100

func tup(out []Val) Val {
	switch len(out) {
	case 0:
		return Val{}
	case 1:
		return out[0]
	}
	return Val{Tup: out}
}

// cbUF is the uninterpreted function that models calls of a pure callback.
func (ex *Exec) cbUF(sig *types.Signature, i int) string {
	var ps, ms []string
	for k := 0; k < sig.Params().Len(); k++ {
		ps = append(ps, ex.u.sortOf(sig.Params().At(k).Type()))
		ms = append(ms, mangle(sig.Params().At(k).Type()))
	}
	rs := ex.u.sortOf(sig.Results().At(i).Type())
	n := fmt.Sprintf("apply%d_%s_%s", i, strings.Join(ms, "_"), mangle(sig.Results().At(i).Type()))
	ex.u.decl(n, "(declare-fun "+n+" (Fn "+strings.Join(ps, " ")+") "+rs+")")
	return n
}

func (ex *Exec) traceLen(st *State, name string) string {
	k := "TN:" + name
	if v, ok := st.vars[k]; ok {
		return v.T
	}
	ex.ghostSort[k] = "Int"
	n := ex.lazyInit(k, "TN_"+mangleRep.Replace(name), "Int")
	ex.u.decl("tnpos:"+n, "(assert (>= "+n+" 0))")
	st.vars[k] = Val{T: n}
	return n
}
func (ex *Exec) traceArg(st *State, name string, j int, t types.Type) string {
	k := fmt.Sprintf("TA:%s:%d", name, j)
	if v, ok := st.vars[k]; ok {
		return v.T
	}
	so := "(Array Int " + ex.u.sortOf(t) + ")"
	ex.ghostSort[k] = so
	ex.traceTy[k] = t
	n := ex.lazyInit(k, fmt.Sprintf("TA_%s_%d", mangleRep.Replace(name), j), so)
	st.vars[k] = Val{T: n}
	return n
}

func (ex *Exec) trace(st *State, reach, name string, args []Val) {
	n := ex.traceLen(st, name)
	for j, a := range args {
		t, err := ex.tryTerm(st, reach, a)
		if err != nil {
			continue
		}
		arr := ex.traceArg(st, name, j, a.Ty)
		k := fmt.Sprintf("TA:%s:%d", name, j)
		na := ex.def("ta", ex.ghostSort[k], store(arr, n, t))
		st.vars[k] = Val{T: na}
		ex.assume("true", "(= (select "+na+" "+n+") "+t+")")
		ex.assume("true", "(forall ((i Int)) (! (=> (not (= i "+n+")) (= (select "+na+" i) (select "+arr+" i))) :pattern ((select "+arr+" i))))")
	}
	st.vars["TN:"+name] = Val{T: ex.def("tn", "Int", "(+ "+n+" 1)")}
}

// ---- contracts ----

func isInterior(v Val) bool {
	return v.Addr != nil && (v.Addr.Cell != "" || len(v.Addr.Path) > 0)
}

func (ex *Exec) contractOrHavoc(f *Frame, st *State, reach *string, fs *FuncSpec, key string, sig *types.Signature, args []Val, pos token.Pos) (Val, bool) {
	// interior pointers: copy in, copy out
	type co struct {
		a *Addr
		b string
		t types.Type
	}
	var cos []co
	args = append([]Val{}, args...)
	for i, a := range args {
		if isInterior(a) {
			t := a.Addr.Ty
			if strings.HasPrefix(a.Addr.Cell, "GV:") && len(a.Addr.Path) == 0 && ex.u.isMutex(t) {
				continue
			}
			v := ex.term(st, *reach, ex.load(st, *reach, a.Addr, pos))
			p := ex.newObject(st, *reach, t, v)
			pd := ex.def("tmp", "Ptr", p)
			cos = append(cos, co{a.Addr, p[7 : len(p)-3], t})
			args[i] = Val{T: pd, Ty: a.Ty}
			ex.note("address of a field or local passed to a contracted function is modelled by copy-in/copy-out (the callee does not retain it)")
		}
	}
	var coh []string
	for _, c := range cos {
		coh = append(coh, ex.getHeap(st, c.t))
	}
	preClo := ex.closureCells(args)
	cbs := map[int][2]string{} // function arguments the callee calls: trace, its length before
	if fs != nil {
		for i, a := range args {
			if c, ok := ex.knownClo(a); !ok || len(c.Fn.Blocks) == 0 || i >= len(fs.Params) {
				continue
			}
			pn := specName(fs.Params[i])
			for _, m := range fs.Modifies {
				if strings.TrimSpace(m.Text) == "trace "+pn {
					cbs[i] = [2]string{pn, ex.traceLen(st, pn)}
				}
			}
		}
	}
	var v Val
	var ok bool
	if fs == nil {
		ex.extCalls[key] = true
		v, ok = ex.havocResults(st, *reach, sig, key), true
	} else {
		v, ok = ex.applyContract(f, st, reach, fs, key, sig, args, pos)
	}
	for i, c := range cos {
		h := ex.getHeap(st, c.t)
		if h == coh[i] {
			continue // not written
		}
		nv := ex.def("co", ex.u.sortOf(c.t), sel(sel(h, c.b), "0"))
		if fs == nil || len(fs.Modifies) > 0 || fs.ModAll {
			ex.storeTo(st, *reach, c.a, Val{T: nv, Ty: c.t}, pos)
		}
	}
	for k := range preClo {
		if old, ok := st.vars[k]; ok {
			so := ex.sortOfKey(k, old)
			ex.recAll(k)
			st.vars[k] = Val{T: ex.konst("hc", so), Ty: old.Ty}
			ex.facts(*reach, st, st.vars[k].T, old.Ty)
		}
	}
	for _, i := range sortedInts(cbs) {
		ex.runCallbacks(f, st, *reach, args[i], cbs[i][0], cbs[i][1], pos)
	}
	return v, ok
}

func (ex *Exec) knownClo(a Val) (*Closure, bool) {
	if a.Clo != nil {
		return a.Clo, true
	}
	if a.T != "" {
		c, ok := ex.fnTable[a.T]
		return c, ok
	}
	return nil, false
}

func sortedInts(m map[int][2]string) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// runCallbacks runs a known function value the way a contracted callee called
// it: once, for an arbitrary one of the calls in the trace, on the arguments
// the callee's contract describes, in a state where its own effects are
// arbitrary. What the calls leave behind is forgotten.
func (ex *Exec) runCallbacks(f *Frame, st *State, reach string, a Val, name, before string, pos token.Pos) {
	c, _ := ex.knownClo(a)
	after := ex.traceLen(st, name)
	i := ex.konst("call", "Int")
	r := ex.def("rcb", "Bool", and(reach, "(<= "+before+" "+i+")", "(< "+i+" "+after+")"))
	sig := c.Fn.Signature
	var args []Val
	for j := 0; j < sig.Params().Len(); j++ {
		t := sig.Params().At(j).Type()
		v := ex.def("cba", ex.u.sortOf(t), sel(ex.traceArg(st, name, j, t), i))
		ex.facts(r, st, v, t)
		args = append(args, Val{T: v, Ty: t})
	}
	run := func() *State {
		ns := st.clone()
		rr := r
		ex.callFn(f, ns, &rr, c.Fn, args, c.Binds, pos)
		return ns
	}
	// what it changes
	ex.dry++
	ns := run()
	ex.dry--
	for _, k := range sortedKeys(ns.vars) {
		ov, ok := st.vars[k]
		nv := ns.vars[k]
		if !ok || nv.T == ov.T || ov.T == "" {
			continue
		}
		switch {
		case k == "next":
		case strings.HasPrefix(k, "TN:"):
			ex.recAll(k)
			ex.havocTrace(st, k[3:])
		case strings.HasPrefix(k, "TA:"):
		case ex.closureCells([]Val{a})[k]: // already arbitrary
		default:
			panic(unsupported("function passed to " + name + " changes " + k))
		}
	}
	run()
}

// closureCells: variables that closures among the arguments may assign.
func (ex *Exec) closureCells(args []Val) map[string]bool {
	r := map[string]bool{}
	for _, a := range args {
		c := a.Clo
		if c == nil && a.T != "" {
			c = ex.fnTable[a.T]
		}
		if c == nil {
			continue
		}
		for i, b := range c.Binds {
			if b.Addr != nil && b.Addr.Cell != "" && i < len(c.Fn.FreeVars) && storesTo(c.Fn.FreeVars[i], 0) {
				r[b.Addr.Cell] = true
			}
		}
	}
	return r
}
func storesTo(v ssa.Value, d int) bool {
	if d > 10 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if storesTo(x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if storesTo(x, d+1) {
				return true
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && storesTo(fn.FreeVars[i], d+1) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (ex *Exec) havocResults(st *State, reach string, sig *types.Signature, key string) Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := ex.konst("ret", ex.u.sortOf(rt))
		ex.facts(reach, st, n, rt)
		out = append(out, Val{T: n, Ty: rt})
	}
	return tup(out)
}

func specName(p string) string { n, _ := firstWord(p); return n }

func (ex *Exec) calleeEnv(fs *FuncSpec, key string, sig *types.Signature, args []Val, st *State) *Env {
	env := &Env{ex: ex, st: st, old: st, vars: map[string]SVal{}, pkg: fs.Pkg, imports: fs.Imports}
	if len(fs.Params) != len(args) {
		panic(specErr(fmt.Sprintf("%s: contract for %s has %d parameters, the code has %d", fs.File, key, len(fs.Params), len(args))))
	}
	for i, p := range fs.Params {
		env.vars[specName(p)] = ex.sval(args[i])
	}
	return env
}

func (ex *Exec) applyContract(f *Frame, st *State, reach *string, fs *FuncSpec, key string, sig *types.Signature, args []Val, pos token.Pos) (Val, bool) {
	ex.usedSpecs[fs.Key] = true
	env := ex.calleeEnv(fs, key, sig, args, st)
	short := key[strings.LastIndex(key, ".")+1:]
	if sig.Recv() != nil && !fs.Nilable && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			ex.assert("pre", short+"/receiver", pos, *reach, "(not (= (pb "+ex.term(st, *reach, args[0])+") 0))")
		}
	}
	for i, c := range fs.Requires {
		cond := ex.compileBool(env, c)
		ex.assertClause("pre", fmt.Sprintf("%s/%d", short, i+1), pos, *reach, cond, c)
	}
	for _, c := range fs.PanicIf {
		ex.assert("pre", short+"/nopanic", pos, *reach, not(ex.compileBool(env, c)))
	}
	pre := st.clone()
	env.old = pre
	// pure functions
	if fs.Pure {
		v := ex.pureApp(fs, key, sig, args, st, *reach)
		env2 := *env
		ex.bindResults(&env2, fs, sig, v)
		for _, c := range fs.Ensures {
			if c.Kind == "assert" {
				continue // proved at exit, not promised to callers
			}
			ex.assumeClause(*reach, ex.compileBool(&env2, c), c)
		}
		return v, true
	}
	if fs.Traced != "" {
		ex.trace(st, *reach, fs.Traced, args)
		pre = st.clone()
		env.old = pre
	}
	env.st = st
	mods, traces := ex.modItems(env, fs)
	for _, m := range mods {
		if m.All {
			ex.recAll(m.Key)
		}
		ex.checkModAllowed(*reach, m, pos)
	}
	if fs.ModAll {
		ex.recAny()
		ex.note("contract of " + key + " may modify anything")
		for k, v := range st.vars {
			if strings.HasPrefix(k, "E:") || strings.HasPrefix(k, "M") || strings.HasPrefix(k, "GF:") {
				st.vars[k] = Val{T: ex.konst("h", ex.sortOfKey(k, v)), Ty: v.Ty}
			}
		}
	}
	nextPre := ex.nextOf(st)
	nx := ex.konst("nx", "Int")
	ex.assume("true", "(>= "+nx+" "+nextPre+")")
	st.vars["next"] = Val{T: nx}
	done := map[string]bool{}
	for _, m := range mods {
		if done[m.Key] {
			continue
		}
		done[m.Key] = true
		v, ok := st.vars[m.Key]
		if !ok {
			panic(unsupported("modified key " + m.Key))
		}
		so := ex.sortOfKey(m.Key, v)
		if strings.HasPrefix(m.Key, "GF:") && m.G != "" {
			all := false
			t := v.T
			for _, q := range mods {
				if q.Key == m.Key {
					all = all || q.All
					if q.G != "" {
						t = store(t, q.G, ex.konst("g", ex.ghostTy[m.Key].Sort))
					}
				}
			}
			if !all {
				ex.recAll(m.Key)
				st.vars[m.Key] = Val{T: ex.def("GF", so, t), Ty: v.Ty}
				continue
			}
		}
		nv := Val{T: ex.konst("h", so), Ty: v.Ty}
		st.vars[m.Key] = nv
		if strings.HasPrefix(m.Key, "MD:") {
			ex.mdFacts(m.Key, nv.T)
		}
		if strings.HasPrefix(m.Key, "E:") || strings.HasPrefix(m.Key, "MD:") || strings.HasPrefix(m.Key, "MV:") {
			ex.emitFrame(m.Key, v.T, nv.T, nextPre, mods)
		} else if v.Ty != nil {
			ex.facts("true", st, nv.T, v.Ty)
		}
	}
	for _, m := range mods {
		if v, ok := st.vars[m.Key]; ok && (strings.HasPrefix(m.Key, "E:") || strings.HasPrefix(m.Key, "MV:")) {
			ex.closedFacts(m.Key, v.T, st)
		}
	}
	for _, t := range traces {
		ex.havocTrace(st, t)
	}
	v := ex.havocResults(st, *reach, sig, key)
	ex.bindResults(env, fs, sig, v)
	for _, c := range fs.Ensures {
		if c.Kind == "assert" {
			continue // proved at exit, not promised to callers
		}
		ex.assumeClause(*reach, ex.compileBool(env, c), c)
	}
	if len(fs.Closures) > 0 {
		vs := v.Tup
		if sig.Results().Len() == 1 {
			vs = []Val{v}
		}
		ex.assumeClosures(env, *reach, fs, sig, vs)
	}
	return v, true
}

func (ex *Exec) mdFacts(k, n string) {
	ks := ex.mdKeySort[k]
	c := ex.u.card(ks)
	ex.emit(fmt.Sprintf("(assert (forall ((r Int)) (! (fin%s (select %s r)) :pattern ((select %s r)))))", c[4:], n, n))
	ex.emit(fmt.Sprintf("(assert (= (select %s 0) %s))", n, ex.u.emptySet(ks)))
}

func (ex *Exec) havocTrace(st *State, name string) {
	n := ex.traceLen(st, name)
	n2 := ex.konst("tn", "Int")
	ex.emit("(assert (>= " + n2 + " " + n + "))")
	st.vars["TN:"+name] = Val{T: n2}
	for _, k := range sortedKeys(st.vars) {
		if strings.HasPrefix(k, "TA:"+name+":") {
			a := st.vars[k].T
			b := ex.konst("ta", ex.ghostSort[k])
			ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (< i %s) (= (select %s i) (select %s i))) :pattern ((select %s i)))))", n, b, a, b))
			st.vars[k] = Val{T: b}
		}
	}
}

func (ex *Exec) bindResults(env *Env, fs *FuncSpec, sig *types.Signature, v Val) {
	n := sig.Results().Len()
	vs := v.Tup
	if n == 1 {
		vs = []Val{v}
	}
	for i := 0; i < n; i++ {
		if i < len(fs.Results) {
			env.vars[specName(fs.Results[i])] = ex.sval(vs[i])
		}
		env.vars[fmt.Sprintf("result%d", i)] = ex.sval(vs[i])
	}
	if n == 1 {
		env.vars["result"] = ex.sval(vs[0])
	}
}

func (ex *Exec) pureApp(fs *FuncSpec, key string, sig *types.Signature, args []Val, st *State, reach string) Val {
	var ts []string
	for _, a := range args {
		ts = append(ts, ex.term(st, reach, a))
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := ex.pureUF(key, sig, i)
		t := n
		if len(ts) > 0 {
			t = "(" + n + " " + strings.Join(ts, " ") + ")"
		}
		t = ex.def("pf", ex.u.sortOf(rt), t)
		ex.facts(reach, st, t, rt)
		out = append(out, Val{T: t, Ty: rt})
	}
	return tup(out)
}
func (ex *Exec) pureUF(key string, sig *types.Signature, i int) string {
	n := fmt.Sprintf("pf%d_%s", i, mangleRep.Replace(key))
	var ps []string
	if sig.Recv() != nil {
		ps = append(ps, ex.u.sortOf(sig.Recv().Type()))
	}
	for k := 0; k < sig.Params().Len(); k++ {
		ps = append(ps, ex.u.sortOf(sig.Params().At(k).Type()))
	}
	ex.u.decl(n, "(declare-fun "+n+" ("+strings.Join(ps, " ")+") "+ex.u.sortOf(sig.Results().At(i).Type())+")")
	return n
}

// checkModAllowed: what the callee may modify must be new or in our own frame.
func (ex *Exec) checkModAllowed(reach string, m ModItem, pos token.Pos) {
	if ex.modAll && (m.All || strings.HasPrefix(m.Key, "G")) {
		return
	}
	if m.All {
		for _, q := range ex.modset {
			if q.Key == m.Key && q.All {
				return
			}
		}
		ex.assert("frame", "callee modifies all of "+m.Key, pos, reach, "false")
		return
	}
	if strings.HasPrefix(m.Key, "GV:") || strings.HasPrefix(m.Key, "GF:") {
		alts := []string{}
		if m.G != "" && ex.ghostDom(m.Key) == "Ptr" {
			alts = append(alts, "(>= (pb "+m.G+") "+ex.next0+")")
		}
		for _, q := range ex.modset {
			if q.Key == m.Key {
				if q.All {
					return
				}
				if m.G != "" {
					alts = append(alts, eq(m.G, q.G))
				}
			}
		}
		ex.assert("frame", "callee modifies "+m.Key, pos, reach, or(append(alts, "false")...))
		return
	}
	ex.writeCheckKey(reach, m.Key, m.Base, m.Idx, m.Field, pos)
}

// modItems evaluates a modifies clause.
func (ex *Exec) modItems(env *Env, fs *FuncSpec) (ms []ModItem, traces []string) {
	for _, c := range fs.Modifies {
		txt := strings.TrimSpace(c.Text)
		switch {
		case strings.HasPrefix(txt, "heap "):
			t, err := ex.w.goType(txt[5:], fs.Pkg, fs.Imports)
			if err != nil {
				panic(specErr(c.Where + ": " + err.Error()))
			}
			if m, ok := t.Underlying().(*types.Map); ok {
				ex.getMap(env.st, m)
				dk, vk := ex.mapKeys(m)
				ms = append(ms, ModItem{Key: dk, All: true}, ModItem{Key: vk, All: true})
				continue
			}
			ex.getHeap(env.st, t)
			ms = append(ms, ModItem{Key: ex.heapKey(t), All: true})
		case strings.HasPrefix(txt, "trace "):
			traces = append(traces, strings.TrimSpace(txt[6:]))
		case strings.HasPrefix(txt, "ghost "):
			g := strings.TrimSpace(txt[6:])
			k := ex.ghostKey(env, g)
			ms = append(ms, ModItem{Key: k, All: true})
		default:
			ms = append(ms, ex.modExpr(env, c)...)
		}
	}
	return
}

func (ex *Exec) modExpr(env *Env, c Clause) []ModItem {
	e := c.E
	for e.Op == "paren" {
		e = e.Args[0]
	}
	if e.Op == "un" && e.S == "*" {
		p := env.compile(e.Args[0])
		pt, ok := p.G.Go.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr(c.Where + ": modifies *x needs a pointer"))
		}
		ex.getHeap(env.st, pt.Elem())
		t := env.termOf(p)
		return []ModItem{{Key: ex.heapKey(pt.Elem()), Base: "(pb " + t + ")", Idx: "(pi " + t + ")"}}
	}
	if e.Op == "call" && e.S == "elems" {
		p := env.compile(e.Args[0])
		sl := p.G.Go.Underlying().(*types.Slice)
		ex.getHeap(env.st, sl.Elem())
		return []ModItem{{Key: ex.heapKey(sl.Elem()), Base: "(sb " + env.termOf(p) + ")"}}
	}
	if e.Op == "call" && e.S == "mapof" {
		p := env.compile(e.Args[0])
		m := p.G.Go.Underlying().(*types.Map)
		ex.getMap(env.st, m)
		dk, vk := ex.mapKeys(m)
		t := env.termOf(p)
		return []ModItem{{Key: dk, Base: t}, {Key: vk, Base: t}}
	}
	if e.Op == "field" {
		p := env.compile(e.Args[0])
		if k := env.ghostFieldKey(p, e.S); k != "" {
			return []ModItem{{Key: k, G: env.termOf(p)}}
		}
		pt, ok := p.G.Go.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr(c.Where + ": modifies x.f needs a pointer x"))
		}
		ex.getHeap(env.st, pt.Elem())
		t := env.termOf(p)
		return []ModItem{{Key: ex.heapKey(pt.Elem()), Base: "(pb " + t + ")", Idx: "(pi " + t + ")", Field: e.S}}
	}
	panic(specErr(c.Where + ": cannot use " + c.Text + " in modifies"))
}

// ---- builtins ----

func (ex *Exec) builtin(f *Frame, st *State, reach *string, c *ssa.CallCommon, bi *ssa.Builtin, pos token.Pos, dargs []Val) Val {
	var args []Val
	if dargs != nil {
		args = dargs
	} else {
		for _, a := range c.Args {
			args = append(args, ex.val(f, st, a))
		}
	}
	ti := types.Typ[types.Int]
	switch bi.Name() {
	case "ssa:deferstack":
		return Val{T: "0", Ty: c.Signature().Results().At(0).Type()}
	case "len":
		v := args[0]
		switch tt := v.Ty.Underlying().(type) {
		case *types.Slice:
			if v.View != nil {
				return Val{T: v.View.Len, Ty: ti}
			}
			return Val{T: ex.def("n", "Int", "(sn "+ex.term(st, *reach, v)+")"), Ty: ti}
		case *types.Basic:
			return Val{T: ex.def("n", "Int", "(slen "+ex.term(st, *reach, v)+")"), Ty: ti}
		case *types.Map:
			ex.guardTag(st, *reach, v.Guard, false, pos)
			d, _ := ex.getMap(st, tt)
			n := ex.def("n", "Int", "("+ex.u.card(ex.u.sortOf(tt.Key()))+" "+sel(d, ex.term(st, *reach, v))+")")
			ex.emit("(assert (>= " + n + " 0))")
			return Val{T: n, Ty: ti}
		case *types.Array:
			return Val{T: fmt.Sprint(tt.Len()), Ty: ti}
		case *types.Pointer:
			return Val{T: fmt.Sprint(tt.Elem().Underlying().(*types.Array).Len()), Ty: ti}
		}
	case "cap":
		v := args[0]
		if v.View != nil {
			return Val{T: ex.def("n", "Int", "(- (sc "+v.View.Base.T+") "+v.View.Off+")"), Ty: ti}
		}
		return Val{T: ex.def("n", "Int", "(sc "+ex.term(st, *reach, v)+")"), Ty: ti}
	case "append":
		return ex.appendOp(st, *reach, args, pos)
	case "copy":
		return ex.copyOp(st, *reach, args, pos)
	case "delete":
		v := args[0]
		m := v.Ty.Underlying().(*types.Map)
		ex.guardTag(st, *reach, v.Guard, true, pos)
		r := ex.term(st, *reach, v)
		k := ex.term(st, *reach, args[1])
		dk, _ := ex.mapKeys(m)
		d, _ := ex.getMap(st, m)
		ks := ex.u.sortOf(m.Key())
		row := sel(d, r)
		ex.writeCheckKey(*reach, dk, r, "", "", pos)
		ex.u.card(ks)
		st.vars[dk] = Val{T: ex.def("MD", "(Array Int (Array "+ks+" Bool))", "(ite (= "+r+" 0) "+d+" "+store(d, r, store(row, k, "false"))+")")}
		return Val{}
	case "close":
		for _, c := range ex.w.specs.Chans {
			if c.T != nil && types.Identical(c.T, args[0].Ty.Underlying().(*types.Chan).Elem()) {
				panic(unsupported("close of a declared channel"))
			}
		}
		// the channel's own state is not modelled; closing one that is already
		// closed is therefore not excluded (stated in DESIGN.md)
		ex.assert("nil", "close of nil channel", pos, *reach, not(eq(ex.term(st, *reach, args[0]), "0")))
		return Val{}
	case "print", "println":
		return Val{}
	case "recover":
		return Val{T: "anynil", Ty: types.NewInterfaceType(nil, nil)}
	case "min", "max":
		a, b := ex.term(st, *reach, args[0]), ex.term(st, *reach, args[1])
		if ex.u.sortOf(args[0].Ty) == "Int" && len(args) == 2 {
			op := "<="
			if bi.Name() == "max" {
				op = ">="
			}
			return Val{T: ex.def("mm", "Int", "(ite ("+op+" "+a+" "+b+") "+a+" "+b+")"), Ty: args[0].Ty}
		}
	}
	panic(unsupported("builtin " + bi.Name()))
}

func fixedLen(v Val) bool { return len(v.Len) == 1 && v.View == nil }

func (ex *Exec) appendOp(st *State, reach string, args []Val, pos token.Pos) Val {
	v := args[0]
	sl := v.Ty.Underlying().(*types.Slice)
	el := sl.Elem()
	so := ex.u.sortOf(el)
	s := ex.term(st, reach, v)
	n := "(sn " + s + ")"
	h := ex.getHeap(st, el)
	row := sel(h, "(sb "+s+")")
	var nrow, m string
	a := args[1]
	if b, ok := a.Ty.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := ex.term(st, reach, a)
		m = "(slen " + t + ")"
		nrow = ex.konst("row", "(Array Int Int)")
		ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (sbyte %s (- i %s)) (select %s i))) :pattern ((select %s i)))))", nrow, n, n, m, t, n, row, nrow))
	} else if fixedLen(a) {
		src := sel(h, "(sb "+ex.term(st, reach, a)+")")
		m = a.Len
		nrow = row
		for i := 0; i < int(a.Len[0]-'0'); i++ {
			ix := n
			if i > 0 {
				ix = fmt.Sprintf("(+ %s %d)", n, i)
			}
			nrow = store(nrow, ix, sel(src, fmt.Sprint(i)))
		}
		orow := ex.def("orow", "(Array Int "+so+")", row)
		nrow = ex.def("nrow", "(Array Int "+so+")", nrow)
		ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (< i %s) (= (select %s i) (select %s i))) :pattern ((select %s i)))))", n, nrow, orow, orow))
	} else {
		var src, off string
		if a.View != nil {
			src, off, m = sel(h, "(sb "+ex.term(st, reach, a.View.Base)+")"), a.View.Off, a.View.Len
		} else {
			t := ex.term(st, reach, a)
			src, off, m = sel(h, "(sb "+t+")"), "0", "(sn "+t+")"
		}
		src = ex.def("src", "(Array Int "+so+")", src)
		orow := ex.def("orow", "(Array Int "+so+")", row)
		nrow = ex.konst("row", "(Array Int "+so+")")
		ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ (- i %s) %s)) (select %s i))) :pattern ((select %s i)))))", nrow, n, n, m, src, n, off, orow, nrow))
		// the other direction, to connect facts about the source
		ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (select %s (+ (- i %s) %s)) (select %s i))) :pattern ((select %s i)))))", off, off, m, nrow, off, n, src, src))
	}
	fits := ex.def("fits", "Bool", "(and (not (= (sb "+s+") 0)) (<= (+ "+n+" "+m+") (sc "+s+")))")
	nx := ex.nextOf(st)
	base := ex.def("ab", "Int", "(ite "+fits+" (sb "+s+") "+nx+")")
	st.vars["next"] = Val{T: ex.def("nx", "Int", "(+ "+nx+" 1)")}
	ex.guardTag(st, reach, v.Guard, true, pos)
	ex.writeCheckKey(reach, ex.heapKey(el), base, "", "", pos)
	st.vars[ex.heapKey(el)] = Val{T: ex.def("E", "(Array Int (Array Int "+so+"))", store(h, base, nrow))}
	nn := ex.def("n", "Int", "(+ "+n+" "+m+")")
	c := ex.konst("cap", "Int")
	ex.emit(fmt.Sprintf("(assert (and (>= %s %s) (=> %s (= %s (sc %s)))))", c, nn, fits, c, s))
	if fixedLen(a) {
		// name the appended elements, so that quantified facts can reach them
		for i := 0; i < int(a.Len[0]-'0'); i++ {
			ex.emit(fmt.Sprintf("(assert (= (select (select %s %s) (+ %s %d)) (select (select %s (sb %s)) %d)))", st.vars[ex.heapKey(el)].T, base, n, i, h, ex.term(st, reach, a), i))
		}
	}
	// append of nothing to a nil slice is nil
	if fixedLen(a) {
		return Val{T: ex.mkslice(base, nn, c), Ty: v.Ty}
	}
	r := ex.mkslice(base, nn, c)
	return Val{T: ex.def("sl", "Sl", "(ite (and (= "+m+" 0) (= (sb "+s+") 0)) "+s+" "+r+")"), Ty: v.Ty}
}

func (ex *Exec) copyOp(st *State, reach string, args []Val, pos token.Pos) Val {
	d := args[0]
	el := d.Ty.Underlying().(*types.Slice).Elem()
	so := ex.u.sortOf(el)
	h := ex.getHeap(st, el)
	part := func(v Val) (base, off, n string) {
		if v.View != nil {
			return "(sb " + ex.term(st, reach, v.View.Base) + ")", v.View.Off, v.View.Len
		}
		t := ex.term(st, reach, v)
		return "(sb " + t + ")", "0", "(sn " + t + ")"
	}
	db, doff, dn := part(d)
	var sterm func(i string) string
	var snn string
	if b, ok := args[1].Ty.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := ex.term(st, reach, args[1])
		snn = "(slen " + t + ")"
		sterm = func(i string) string { return "(sbyte " + t + " " + i + ")" }
	} else {
		sb, soff, n := part(args[1])
		src := ex.def("src", "(Array Int "+so+")", sel(h, sb))
		snn = n
		sterm = func(i string) string { return sel(src, "(+ "+i+" "+soff+")") }
	}
	n := ex.def("cn", "Int", "(ite (<= "+dn+" "+snn+") "+dn+" "+snn+")")
	orow := ex.def("orow", "(Array Int "+so+")", sel(h, db))
	row := ex.konst("row", "(Array Int "+so+")")
	ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) %s (select %s i))) :pattern ((select %s i)))))", row, doff, doff, n, sterm("(- i "+doff+")"), orow, row))
	cond := "(> " + n + " 0)"
	ex.writeCheckKey(and(reach, cond), ex.heapKey(el), db, "", "", pos)
	st.vars[ex.heapKey(el)] = Val{T: ex.def("E", "(Array Int (Array Int "+so+"))", "(ite "+cond+" "+store(h, db, row)+" "+h+")")}
	return Val{T: n, Ty: types.Typ[types.Int]}
}

// ghostFieldKey names the state of a ghost field of a value, "" if there is none.
func (env *Env) ghostFieldKey(v SVal, name string) string {
	t := v.G.Go
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, g := range env.ex.w.specs.Ghosts {
		if g.Name != name || g.TypeName == "" {
			continue
		}
		gt, err := env.ex.w.goType(g.TypeName, g.Pkg, g.Imports)
		if err == nil && types.Identical(gt, t) {
			return env.ex.ghostKey(env, g.TypeName+"."+g.Name)
		}
	}
	return ""
}

// ghostDom is the index sort of a ghost field.
func (ex *Exec) ghostDom(k string) string {
	return strings.Fields(strings.TrimPrefix(ex.ghostSort[k], "(Array "))[0]
}

// fnFacts says what applying a known function value does, when the function
// computes its result from its arguments alone: by its contract, or because it
// returns a parameter or a constant.
func (ex *Exec) fnFacts(st *State, term string, fn *ssa.Function) {
	sig := fn.Signature
	if len(fn.FreeVars) > 0 || sig.Results().Len() != 1 || sig.Params().Len() == 0 || sig.Recv() != nil || sig.Variadic() || !readsArgsOnly(fn) {
		return
	}
	fs := ex.w.specs.Funcs[fn.RelString(nil)]
	var ret ssa.Value
	if fs == nil {
		if len(fn.Blocks) != 1 {
			return
		}
		r, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok {
			return
		}
		ret = r.Results[0]
		for n := 0; n < 8; n++ { // kept in locals written once
			u, ok := ret.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				break
			}
			al, ok := u.X.(*ssa.Alloc)
			if !ok {
				break
			}
			var sts []*ssa.Store
			for _, ins := range fn.Blocks[0].Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == al {
					sts = append(sts, s)
				}
			}
			if len(sts) != 1 {
				break
			}
			ret = sts[0].Val
		}
		switch ret.(type) {
		case *ssa.Parameter, *ssa.Const:
		default:
			return
		}
	} else if fs.Pure || len(fs.Modifies) > 0 || fs.ModAll || fs.Traced != "" || len(fs.Closures) > 0 || fs.Inline {
		return
	}
	var bs, rng, ts []string
	var args []Val
	for j := 0; j < sig.Params().Len(); j++ {
		t := sig.Params().At(j).Type()
		nm := fmt.Sprintf("fa_%d_%s", j, mangleRep.Replace(sig.Params().At(j).Name()))
		bs = append(bs, "("+nm+" "+ex.u.sortOf(t)+")")
		rng = append(rng, ex.refFacts(nm, t, ex.nextOf(st), 1))
		ts = append(ts, nm)
		args = append(args, Val{T: nm, Ty: t})
	}
	app := "(" + ex.cbUF(sig, 0) + " " + term + " " + strings.Join(ts, " ") + ")"
	rt := sig.Results().At(0).Type()
	var body string
	if fs != nil {
		ex.usedSpecs[fs.Key] = true
		env := ex.calleeEnv(fs, fn.RelString(nil), sig, args, st)
		for _, c := range fs.Requires {
			rng = append(rng, ex.compileBool(env, c))
		}
		for _, c := range fs.PanicIf {
			rng = append(rng, not(ex.compileBool(env, c)))
		}
		ex.bindResults(env, fs, sig, Val{T: app, Ty: rt})
		var es []string
		for _, c := range fs.Ensures {
			if c.Kind != "assert" {
				es = append(es, ex.compileBool(env, c))
			}
		}
		body = implies(and(rng...), and(es...))
	} else if pv, ok := ret.(*ssa.Parameter); ok {
		for j, q := range fn.Params {
			if q == pv {
				body = eq(app, ts[j])
			}
		}
	} else {
		c := ex.val(nil, st, ret)
		body = eq(app, ex.term(st, "true", c))
	}
	if body != "" {
		ex.emit("(assert (forall (" + strings.Join(bs, " ") + ") (! " + body + " :pattern (" + app + "))))")
	}
}

// readsArgsOnly: no loads, stores, calls (but those of len and cap), or other
// sources of state; struct parameters may be spilled to locals.
func readsArgsOnly(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef, *ssa.Panic, *ssa.MakeInterface, *ssa.RunDefers:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "ssa:deferstack" && b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			case *ssa.Alloc:
				if x.Heap {
					return false
				}
			case *ssa.FieldAddr:
				if !localAddr(x.X) {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && !localAddr(x.X) {
					return false
				}
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			default:
				return false
			}
			for _, o := range ins.Operands(nil) {
				if o != nil && *o != nil {
					if _, ok := (*o).(*ssa.Global); ok {
						return false
					}
				}
			}
		}
	}
	return len(fn.Blocks) > 0
}
func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return !x.Heap
	case *ssa.FieldAddr:
		return localAddr(x.X)
	}
	return false
}
