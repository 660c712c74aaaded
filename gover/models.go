package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model handles library functions whose meaning is built into the verifier.
func (ex *Exec) model(f *Frame, st *State, reach *string, fn *ssa.Function, key string, args []Val, pos token.Pos) (v Val, ok, done bool) {
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		ex.lockOp(st, *reach, args[0], key[strings.LastIndex(key, ".")+1:], pos)
		return Val{}, true, true
	case "sort.Search":
		return ex.sortSearch(f, st, *reach, args, pos), true, true
	case "strings.Compare":
		a, b := ex.term(st, *reach, args[0]), ex.term(st, *reach, args[1])
		ex.note("strings.Compare(a, b): -1, 0 or 1 by the order of strings")
		return Val{T: "(ite (= " + a + " " + b + ") 0 (ite (slt " + a + " " + b + ") (- 1) 1))", Ty: types.Typ[types.Int]}, true, true
	case "sort.Slice", "sort.SliceStable":
		ex.sortSlice(f, st, reach, args, pos)
		return Val{}, true, true
	case "sort.Sort", "sort.Stable":
		ex.sortSort(f, st, reach, args, pos)
		return Val{}, true, true
	case "sort.Strings", "sort.Ints":
		ex.sortPlain(f, st, reach, args, pos)
		return Val{}, true, true
	}
	if strings.HasPrefix(key, "slices.Sort[") {
		ex.sortPlain(f, st, reach, args, pos)
		return Val{}, true, true
	}
	if fn.Pkg != nil && (strings.HasSuffix(fn.Pkg.Pkg.Path(), "instrumentation-tools/debug") || strings.HasSuffix(fn.Pkg.Pkg.Path(), "instrumentation-tools/debug/error")) {
		if fn.Signature.Results().Len() == 0 {
			ex.note("package debug (logging) is assumed to have no effect on the program state")
			return Val{}, true, true
		}
	}
	return Val{}, false, false
}

func (ex *Exec) lockOp(st *State, reach string, recv Val, op string, pos token.Pos) {
	a := ex.addrOf(recv, reach, pos)
	cur := ex.def("lk", "Int", ex.applyPath(ex.rootVal(st, a), a.Path))
	var nv string
	switch op {
	case "Lock", "RLock":
		ex.assert("lock", op+" while the lock is already held (self-deadlock)", pos, reach, eq(cur, "0"))
		nv = "1"
		if op == "RLock" {
			nv = "2"
		}
	case "Unlock":
		ex.assert("lock", "Unlock of a mutex that is not write-locked", pos, reach, eq(cur, "1"))
		nv = "0"
	case "RUnlock":
		ex.assert("lock", "RUnlock of a mutex that is not read-locked", pos, reach, eq(cur, "2"))
		nv = "0"
	}
	if a.Cell != "" {
		root := ex.rootVal(st, a)
		old := st.vars[a.Cell]
		if old.Ty == nil {
			old.Ty = ex.rootType(a)
		}
		st.vars[a.Cell] = Val{T: ex.def("c", ex.u.sortOf(old.Ty), ex.updPath(root, a.Path, nv)), Ty: old.Ty}
	} else {
		ex.nilCheck(reach, a, pos)
		ex.recWrite(ex.heapKey(a.Heap), a.Base, "", "")
		ex.rawStore(st, a, nv)
	}
	for _, l := range ex.locks {
		if l.Cell == a.Cell && l.Base == a.Base && l.Idx == a.Idx && fmt.Sprint(l.Path) == fmt.Sprint(a.Path) {
			return
		}
	}
	if ex.dry == 0 {
		ex.locks = append(ex.locks, a)
	}
}

// symTerm runs a closure on symbolic arguments and returns its (single)
// boolean result as a term in those arguments. Obligations inside are
// generated under the condition given.
func (ex *Exec) symTerm(f *Frame, st *State, reach, cond string, v Val, args []Val, pos token.Pos) (string, bool) {
	c := v.Clo
	if c == nil && v.T != "" {
		c = ex.fnTable[v.T]
	}
	if c == nil {
		return "", false
	}
	mark := len(ex.log)
	r := ex.def("rc", "Bool", and(reach, cond))
	st2 := st.clone()
	res, ok := ex.callFn(f, st2, &r, c.Fn, args, c.Binds, pos)
	if !ok {
		return "", false
	}
	t := ex.term(st2, r, res)
	// nest the definitions made since as lets
	defs := ex.log[mark:]
	out := t
	for i := len(defs) - 1; i >= 0; i-- {
		d := defs[i]
		if strings.HasPrefix(d, "(declare-const") {
			// only allowed when it does not matter for the result
			name := strings.Fields(d)[1]
			if strings.Contains(out, name) {
				return "", false
			}
			continue
		}
		if !strings.HasPrefix(d, "(define-fun ") {
			continue
		}
		rest := d[len("(define-fun "):]
		sp := strings.Index(rest, " ")
		name := rest[:sp]
		if !containsSym(out, name) {
			continue
		}
		rest = strings.TrimPrefix(rest[sp:], " () ")
		// skip the sort
		_, body := splitSExpr(rest)
		body = strings.TrimSpace(body)
		body = body[:len(body)-1]
		out = "(let ((" + name + " " + body + ")) " + out + ")"
	}
	return out, true
}
func containsSym(s, sym string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], sym)
		if j < 0 {
			return false
		}
		k := i + j + len(sym)
		if (k >= len(s) || s[k] == ' ' || s[k] == ')') && (i+j == 0 || s[i+j-1] == ' ' || s[i+j-1] == '(') {
			return true
		}
		i = k
	}
}
func splitSExpr(s string) (first, rest string) {
	s = strings.TrimSpace(s)
	if s[0] != '(' {
		i := strings.IndexAny(s, " )")
		if i < 0 {
			return s, ""
		}
		return s[:i], s[i:]
	}
	d := 0
	for i := range s {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return s[:i+1], s[i+1:]
			}
		}
	}
	return s, ""
}

func (ex *Exec) sortSearch(f *Frame, st *State, reach string, args []Val, pos token.Pos) Val {
	n := ex.term(st, reach, args[0])
	ti := types.Typ[types.Int]
	r := ex.konst("srch", "Int")
	ex.assume("true", fmt.Sprintf("(and (<= 0 %s) (=> (>= %s 0) (<= %s %s)) (=> (< %s 0) (= %s 0)))", r, n, r, n, n, r))
	// obligations of the predicate, at an arbitrary index
	i := ex.konst("si", "Int")
	cond := fmt.Sprintf("(and (<= 0 %s) (< %s %s))", i, i, n)
	ex.symTerm(f, st, reach, cond, args[1], []Val{{T: i, Ty: ti}}, pos)
	hi, ok1 := ex.symTerm(f, st, reach, "(< "+r+" "+n+")", args[1], []Val{{T: r, Ty: ti}}, pos)
	rm := ex.def("rm", "Int", "(- "+r+" 1)")
	lo, ok2 := ex.symTerm(f, st, reach, "(and (> "+r+" 0) (<= "+r+" "+n+"))", args[1], []Val{{T: rm, Ty: ti}}, pos)
	if !ok1 || !ok2 {
		ex.note("sort.Search with an opaque predicate: only the index range is assumed")
		return Val{T: r, Ty: ti}
	}
	ex.note("sort.Search(n, f): returns r in [0,n] with f(r) true if r<n and f(r-1) false if r>0 (binary search; f side-effect free)")
	ex.assume(reach, fmt.Sprintf("(=> (and (< %s %s)) %s)", r, n, hi))
	ex.assume(reach, fmt.Sprintf("(=> (and (> %s 0) (<= %s %s)) (not %s))", r, r, n, lo))
	return Val{T: r, Ty: ti}
}

func (ex *Exec) sortSlice(f *Frame, st *State, reach *string, args []Val, pos token.Pos) {
	// args[0] is an interface holding the slice: find the boxed value
	ty, s := ex.unboxSlice(ex.term(st, *reach, args[0]))
	if s == "" {
		panic(unsupported("sort.Slice on an unknown value"))
	}
	ti := types.Typ[types.Int]
	ex.sortCore(st, reach, ty.Underlying().(*types.Slice).Elem(), s, pos, "sort.Slice(s, less)", func(st *State, cond, i, j string) (string, bool) {
		return ex.symTerm(f, st, *reach, cond, args[1], []Val{{T: i, Ty: ti}, {T: j, Ty: ti}}, pos)
	})
}

// sortSort models sort.Sort(x) for a slice type x whose methods are in the
// source: Len must be the length and Swap must exchange two elements
// (obligations); Less gives the order.
func (ex *Exec) sortSort(f *Frame, st *State, reach *string, args []Val, pos token.Pos) {
	ty, s := ex.unboxSlice(ex.term(st, *reach, args[0]))
	if s == "" {
		panic(unsupported("sort.Sort on an unknown value"))
	}
	el := ty.Underlying().(*types.Slice).Elem()
	so := ex.u.sortOf(el)
	ti := types.Typ[types.Int]
	meth := func(name string) *Closure {
		ms := ex.w.prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return &Closure{Fn: ex.w.prog.MethodValue(ms.At(i))}
			}
		}
		panic(unsupported("sort.Sort on a type without " + name))
	}
	recv := Val{T: s, Ty: ty}
	inr := func(i string) string { return "(and (<= 0 " + i + ") (< " + i + " (sn " + s + ")))" }
	st2 := st.clone()
	r := *reach
	lv, _ := ex.callFn(f, st2, &r, meth("Len").Fn, []Val{recv}, nil, pos)
	ex.assert("sort", "Len is the length of the sorted slice", pos, r, eq(ex.term(st2, r, lv), "(sn "+s+")"))
	i, j := ex.konst("wi", "Int"), ex.konst("wj", "Int")
	st2 = st.clone()
	r = ex.def("rc", "Bool", and(*reach, inr(i), inr(j)))
	h := ex.getHeap(st, el)
	row := ex.def("row0", "(Array Int "+so+")", sel(h, "(sb "+s+")"))
	d := ex.modAll
	ex.modAll = true
	ex.callFn(f, st2, &r, meth("Swap").Fn, []Val{recv, {T: i, Ty: ti}, {T: j, Ty: ti}}, nil, pos)
	ex.modAll = d
	h2 := ex.getHeap(st2, el)
	ex.assert("sort", "Swap exchanges exactly two elements of the sorted slice", pos, r, eq(h2, store(h, "(sb "+s+")", store(store(row, i, sel(row, j)), j, sel(row, i)))))
	ex.sortCore(st, reach, el, s, pos, "sort.Sort(s)", func(st *State, cond, i, j string) (string, bool) {
		return ex.symTerm(f, st, *reach, cond, Val{Clo: meth("Less")}, []Val{recv, {T: i, Ty: ti}, {T: j, Ty: ti}}, pos)
	})
}

// sortPlain models sort.Strings, sort.Ints and slices.Sort.
func (ex *Exec) sortPlain(f *Frame, st *State, reach *string, args []Val, pos token.Pos) {
	v := args[0]
	s := ex.term(st, *reach, v)
	el := v.Ty.Underlying().(*types.Slice).Elem()
	b, ok := el.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
		panic(unsupported("sorting elements of type " + el.String()))
	}
	op := "<"
	if b.Info()&types.IsString != 0 {
		op = "slt"
	}
	ex.sortCore(st, reach, el, s, pos, "sort of a slice of an ordered type", func(st *State, cond, i, j string) (string, bool) {
		row := sel(ex.getHeap(st, el), "(sb "+s+")")
		return "(" + op + " " + sel(row, i) + " " + sel(row, j) + ")", true
	})
}

func (ex *Exec) sortCore(st *State, reach *string, el types.Type, s string, pos token.Pos, what string, lessT func(st *State, cond, i, j string) (string, bool)) {
	so := ex.u.sortOf(el)
	n := "(sn " + s + ")"
	h := ex.getHeap(st, el)
	base := "(sb " + s + ")"
	row0 := ex.def("row0", "(Array Int "+so+")", sel(h, base))
	row := ex.konst("srt", "(Array Int "+so+")")
	// permutation witnesses
	pf, pg := ex.fresh("perm"), ex.fresh("perm")
	ex.emit(fmt.Sprintf("(declare-fun %s (Int) Int)\n(declare-fun %s (Int) Int)", pf, pg))
	in := func(i string) string { return "(and (<= 0 " + i + ") (< " + i + " " + n + "))" }
	ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> %s (and %s (= (%s (%s i)) i) (= (select %s i) (select %s (%s i))))) :pattern ((select %s i)))))", in("i"), in("("+pf+" i)"), pg, pf, row, row0, pf, row))
	ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> %s (and %s (= (%s (%s i)) i) (= (select %s (%s i)) (select %s i)))) :pattern ((select %s i)))))", in("i"), in("("+pg+" i)"), pf, pg, row, pg, row0, row0))
	ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (not %s) (= (select %s i) (select %s i))) :pattern ((select %s i)))))", in("i"), row, row0, row))
	// obligations inside less, on the original contents
	i, j := ex.konst("li", "Int"), ex.konst("lj", "Int")
	lessT(st, and(in(i), in(j)), i, j)
	ex.writeCheckKey(and(*reach, "(> "+n+" 1)"), ex.heapKey(el), base, "", "", pos)
	st.vars[ex.heapKey(el)] = Val{T: ex.def("E", "(Array Int (Array Int "+so+"))", store(h, base, row))}
	ex.emit(eqAssert(sel(st.vars[ex.heapKey(el)].T, base), row))
	qi, qj := ex.fresh("qi"), ex.fresh("qj")
	ex.emit(fmt.Sprintf("(declare-const %s Int)\n(declare-const %s Int)", qi, qj))
	d := ex.dry
	ex.dry++
	less, ok := lessT(st, and(in(qi), in(qj)), qj, qi)
	ex.dry = d
	if ok {
		bi, bj := qi+"b", qj+"b"
		less = replaceSym(replaceSym(less, qi, bi), qj, bj)
		ex.assume(*reach, fmt.Sprintf("(forall ((%s Int) (%s Int)) (! (=> (and (<= 0 %s) (< %s %s) (< %s %s)) (not %s)) :pattern ((select %s %s) (select %s %s))))", bi, bj, bi, bi, bj, bj, n, less, row, bi, row, bj))
		ex.note(what + ": result is a permutation of s in which less(j,i) is false for i<j (less assumed to be a strict weak order)")
	} else {
		ex.note(what + " with an opaque less: only the permutation is assumed")
	}
}
func eqAssert(a, b string) string { return "(assert (= " + a + " " + b + "))" }
func replaceSym(s, a, b string) string {
	var out strings.Builder
	for i := 0; i < len(s); {
		j := strings.Index(s[i:], a)
		if j < 0 {
			out.WriteString(s[i:])
			break
		}
		k := i + j + len(a)
		out.WriteString(s[i : i+j])
		if k >= len(s) || s[k] == ' ' || s[k] == ')' {
			out.WriteString(b)
		} else {
			out.WriteString(a)
		}
		i = k
	}
	return out.String()
}

// unboxSlice recognises an interface value that was just made from a slice.
func (ex *Exec) unboxSlice(t string) (types.Type, string) {
	for i := len(ex.log) - 1; i >= 0; i-- {
		p := "(define-fun " + t + " () Any "
		if strings.HasPrefix(ex.log[i], p) {
			b := ex.log[i][len(p) : len(ex.log[i])-1]
			if !strings.HasPrefix(b, "(box_") {
				return nil, ""
			}
			var tag int
			sp := strings.Index(b, " ")
			fmt.Sscanf(b[5:sp], "%d", &tag)
			for k, n := range ex.u.tags {
				if n == tag {
					if _, ok := ex.u.tagTypes[k].Underlying().(*types.Slice); ok {
						return ex.u.tagTypes[k], b[sp+1 : len(b)-1]
					}
				}
			}
		}
	}
	return nil, ""
}
