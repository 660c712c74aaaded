package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T     string
	Ty    types.Type
	Addr  *Addr
	Clo   *Closure
	Tup   []Val
	View  *View
	Guard *GuardTag
	Iter  *Iter
	Len   string  // known length of an array allocation (for Slice of arrays)
	MapOf *MapTag // ghost: value read from a map
}
type MapTag struct{}
type View struct {
	Base Val    // underlying slice (offset 0)
	Off  string // offset into it
	Len  string
}
type GuardTag struct {
	Obj   *Addr // address of the struct object (no path)
	Mutex int
	Name  string
}
type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	Model string
	Frame *Frame
}
type Iter struct {
	Key   string
	Map   Val
	Str   Val
	IsStr bool
	Dom0  string
}
type PathEl struct {
	Field int
	S     *StructInfo
	Index string
	Ty    types.Type // resulting type
}
type Addr struct {
	Cell   string
	Heap   types.Type // element type of heap
	Base   string
	Idx    string
	Path   []PathEl
	Ty     types.Type // pointee type
	Arr    bool       // address of a whole array object: pointee = E[Base] itself
	ViewOf bool
}

type State struct {
	vars map[string]Val
}

func (s *State) clone() *State {
	n := make(map[string]Val, len(s.vars))
	for k, v := range s.vars {
		n[k] = v
	}
	return &State{n}
}

type Obligation struct {
	Name    string
	Kind    string
	Desc    string
	Pos     string
	Idx     int // log index
	Without []string
	Reach   string
	Cond    string
	Props   []string
	Cover   bool // must be satisfiable/unknown (reachability)
	Result  string
	Solver  string
	Millis  int64
	Out     string
	File    string
	Local   []string // extra assumptions only for this obligation
	mu      sync.Mutex
}

type Exec struct {
	tag         string
	tags        map[int]string // log index of a hypothesis -> text of its clause
	w           *World
	u           *Universe
	log         []string
	obs         []*Obligation
	n           int
	dry         int
	top         *Frame
	next0       string
	modset      []ModItem
	modAll      bool
	entry       *State
	frames      int
	lenv        map[string]int
	obsN        map[string]int
	unsup       []string
	prop        string
	inlineDepth int
	rowAt       map[string]int
	assumed     map[string]bool
	touched     map[string]bool
	fspec       *FuncSpec
	pureFns     map[string]bool // function values returned by contract with closure facts
	fnTable     map[string]*Closure
	cloTerm     map[*ssa.Function]string
	quantN      int
	cleanup     []func(*State, string)
	cbCount     map[string]bool
	heapTypes   map[string]types.Type
	mapTypes    map[string]*types.Map
	mdKeySort   map[string]string
	ghostSort   map[string]string
	locks       []*Addr
	extCalls    map[string]bool
	usedSpecs   map[string]bool
	inlined     map[string]bool
	cellNames   map[string]string
	quant       []string
	usedUF      map[string]bool
	traceTy     map[string]types.Type
	ghostTy     map[string]GType
	decVal      map[string]string
	usedLemmas  map[string]bool
	lemma       *LemmaSpec
	opaque      map[string]bool
	recs        []*writeRec
	nextSyms    map[string]bool
}

type ModItem struct {
	G     string // ghost field: the value it belongs to
	Key   string // heap key
	Base  string
	Idx   string
	Field string
	All   bool
	Text  string
}

type Frame struct {
	id       int
	fn       *ssa.Function
	spec     *FuncSpec
	vals     map[ssa.Value]Val
	parent   *Frame
	lex      *Frame
	path     string
	defers   []deferred
	loops    map[*ssa.BasicBlock]*Loop
	order    []*ssa.BasicBlock
	entry    *State
	iters    map[*ssa.BasicBlock]*Iter
	callNo   map[string]int
	params   map[string]Val
	loopPre  map[*ssa.BasicBlock]*State
	loopHead map[*ssa.BasicBlock]*State // state at the start of an arbitrary iteration
}
type deferred struct {
	block *ssa.BasicBlock
	call  *ssa.Defer
	args  []Val
	fnv   Val
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
	parent *Loop
	iter   *Iter
}

type edge struct {
	pred  *ssa.BasicBlock
	reach string
	st    *State
}
type retEdge struct {
	reach string
	st    *State
	vals  []Val
}

func (ex *Exec) emit(s string) {
	if ex.tag != "" && strings.HasPrefix(s, "(assert") {
		ex.tags[len(ex.log)] = ex.tag
	} else {
		delete(ex.tags, len(ex.log))
	}
	ex.log = append(ex.log, s)
}

// assumeClause and assertClause remember which clause a hypothesis comes from.
func (ex *Exec) assumeClause(reach, cond string, c Clause) {
	ex.tag = c.Text
	ex.assume(reach, cond)
	ex.tag = ""
}

func (ex *Exec) assertClause(kind, desc string, pos token.Pos, reach, cond string, c Clause) {
	ex.tag = c.Text
	o := ex.assert(kind, desc, pos, reach, cond)
	ex.tag = ""
	if o != nil {
		o.Desc = c.Text
		o.Props = c.Props
		o.Without = c.Without
	}
}
func (ex *Exec) fresh(p string) string {
	ex.n++
	return fmt.Sprintf("%s!%d", p, ex.n)
}
func isAtomic(t string) bool {
	return !strings.ContainsAny(t, " (") || (len(t) < 14 && strings.HasPrefix(t, "(- "))
}
func (ex *Exec) def(p, sort, term string) string {
	if isAtomic(term) {
		return term
	}
	n := ex.fresh(p)
	ex.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, sort, term))
	return n
}
func (ex *Exec) konst(p, sort string) string {
	n := ex.fresh(p)
	ex.emit(fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}
func (ex *Exec) assume(reach, cond string) {
	if cond == "true" || cond == "" {
		return
	}
	if reach == "true" {
		ex.emit("(assert " + cond + ")")
	} else {
		ex.emit("(assert (=> " + reach + " " + cond + "))")
	}
}
func (ex *Exec) assert(kind, desc string, pos token.Pos, reach, cond string) *Obligation {
	if ex.dry > 0 {
		return nil
	}
	if cond == "true" {
		cond = "true"
	}
	base := fmt.Sprintf("%s/%s", kind, desc)
	ex.obsN[base]++
	name := base
	if ex.obsN[base] > 1 {
		name = fmt.Sprintf("%s#%d", base, ex.obsN[base])
	}
	o := &Obligation{Name: name, Kind: kind, Desc: desc, Pos: ex.w.pos(pos), Idx: len(ex.log), Reach: reach, Cond: cond}
	ex.obs = append(ex.obs, o)
	// proven facts may be used afterwards
	ex.assume(reach, cond)
	return o
}

func and(a ...string) string {
	var r []string
	for _, x := range a {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return "true"
	case 1:
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}
func or(a ...string) string {
	var r []string
	for _, x := range a {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return "false"
	case 1:
		return r[0]
	}
	return "(or " + strings.Join(r, " ") + ")"
}
func not(a string) string {
	if a == "true" {
		return "false"
	}
	if a == "false" {
		return "true"
	}
	if strings.HasPrefix(a, "(not ") && balancedTail(a) {
		return a[5 : len(a)-1]
	}
	return "(not " + a + ")"
}
func balancedTail(a string) bool {
	d := 0
	for i := 5; i < len(a)-1; i++ {
		if a[i] == '(' {
			d++
		}
		if a[i] == ')' {
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}
func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func sel(a, i string) string      { return "(select " + a + " " + i + ")" }
func store(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

// ---- heaps ----

func (ex *Exec) heapKey(t types.Type) string { return "E:" + typeKey(t) }
func (ex *Exec) getHeap(st *State, t types.Type) string {
	k := ex.heapKey(t)
	if v, ok := st.vars[k]; ok {
		return v.T
	}
	ex.heapTypes[k] = t
	so := "(Array Int (Array Int " + ex.u.sortOf(t) + "))"
	n := ex.lazyInit(k, "H_"+mangle(t), so)
	ex.heapFacts(k, n, t)
	st.vars[k] = Val{T: n}
	return n
}

// lazyInit declares the entry version of a state variable that is first
// mentioned late; the same constant is used everywhere (it is the value at entry).
func (ex *Exec) lazyInit(key, pfx, so string) string {
	n := pfx + "!0"
	ex.u.decl("entry:"+key+":"+n, fmt.Sprintf("(declare-const %s %s)", n, so))
	if _, ok := ex.entry.vars[key]; !ok {
		ex.entry.vars[key] = Val{T: n}
	}
	return n
}

// closed-heap facts for the entry version: references stored in objects that
// existed at entry point to objects that existed at entry.
func (ex *Exec) heapFacts(key, n string, t types.Type) {
	f := ex.refFacts("(select (select "+n+" r) i)", t, ex.next0, 2)
	if f == "true" {
		return
	}
	ex.u.decl("heapfacts:"+key+":"+n, fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern ((select (select %s r) i)))))", ex.next0, f, n))
}

// refFacts: facts about every value of type t in a state with allocation bound next.
func (ex *Exec) refFacts(term string, t types.Type, next string, depth int) string {
	if ex.u.isMutex(t) {
		return "(and (<= 0 " + term + ") (<= " + term + " 2))"
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, term, term, hi)
		}
	case *types.Pointer:
		return fmt.Sprintf("(and (<= 0 (pb %s)) (< (pb %s) %s) (<= 0 (pi %s)))", term, term, next, term)
	case *types.Slice:
		return fmt.Sprintf("(and (<= 0 (sn %s)) (<= (sn %s) (sc %s)) (<= 0 (sb %s)) (< (sb %s) %s))", term, term, term, term, term, next)
	case *types.Map, *types.Chan:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", term, term, next)
	case *types.Struct:
		if depth <= 0 {
			return "true"
		}
		s := ex.u.structOf(t)
		if s.Opaque {
			return "true"
		}
		var fs []string
		for _, f := range s.Fields {
			fs = append(fs, ex.refFacts("("+f.Acc+" "+term+")", f.T, next, depth-1))
		}
		return and(fs...)
	case *types.Array:
		_ = tt
	case *types.Interface:
		if depth >= 1 {
			return ex.anyFacts(term, next)
		}
	}
	return "true"
}

// anyFacts: an interface value holding a pointer points to an allocated object.
func (ex *Exec) anyFacts(term, next string) string {
	return "true"
}

func (ex *Exec) facts(reach string, st *State, term string, t types.Type) {
	if f := ex.refFacts(term, t, ex.nextOf(st), 1); f != "true" {
		ex.assume(reach, f)
	}
}

func (ex *Exec) nextOf(st *State) string {
	t := st.vars["next"].T
	if ex.nextSyms == nil {
		ex.nextSyms = map[string]bool{}
	}
	ex.nextSyms[t] = true
	return t
}

func (ex *Exec) mapKeys(m *types.Map) (dk, vk string) {
	s := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	return "MD:" + s, "MV:" + s
}
func (ex *Exec) mapTypeOf(t types.Type) *types.Map { return t.Underlying().(*types.Map) }

func (ex *Exec) getMap(st *State, m *types.Map) (d, v string) {
	dk, vk := ex.mapKeys(m)
	ks, vs := ex.u.sortOf(m.Key()), ex.u.sortOf(m.Elem())
	nm := mangle(m.Key()) + "_" + mangle(m.Elem())
	ex.mapTypes[dk], ex.mapTypes[vk], ex.mdKeySort[dk] = m, m, ks
	if x, ok := st.vars[dk]; ok {
		d = x.T
	} else {
		d = ex.lazyInit(dk, "MD_"+nm, "(Array Int (Array "+ks+" Bool))")
		e := ex.u.emptySet(ks)
		ex.u.decl("mdnil:"+d, fmt.Sprintf("(assert (= (select %s 0) %s))", d, e))
		c := ex.u.card(ks)
		fin := "fin" + c[4:]
		ex.u.decl("mdfin:"+d, fmt.Sprintf("(assert (forall ((r Int)) (! (%s (select %s r)) :pattern ((select %s r)))))", fin, d, d))
		st.vars[dk] = Val{T: d}
	}
	if x, ok := st.vars[vk]; ok {
		v = x.T
	} else {
		v = ex.lazyInit(vk, "MV_"+nm, "(Array Int (Array "+ks+" "+vs+"))")
		f := ex.refFacts("(select (select "+v+" r) k)", m.Elem(), ex.next0, 2)
		if f != "true" {
			ex.u.decl("heapfacts:"+vk+":"+v, fmt.Sprintf("(assert (forall ((r Int) (k %s)) (! (=> (and (<= 0 r) (< r %s) (select (select %s r) k)) %s) :pattern ((select (select %s r) k)))))", ks, ex.next0, d, f, v))
		}
		st.vars[vk] = Val{T: v}
	}
	return
}

func (ex *Exec) alloc(st *State, reach string) string {
	nx := ex.nextOf(st)
	st.vars["next"] = Val{T: ex.def("nx", "Int", "(+ "+nx+" 1)")}
	return nx
}

// newObject allocates an object of type t holding term and returns its pointer.
func (ex *Exec) newObject(st *State, reach string, t types.Type, term string) string {
	b := ex.alloc(st, reach)
	h := ex.getHeap(st, t)
	so := ex.u.sortOf(t)
	_ = so
	st.vars[ex.heapKey(t)] = Val{T: ex.def("E", "(Array Int (Array Int "+so+"))", store(h, b, store(sel(h, b), "0", term)))}
	return "(mkptr " + b + " 0)"
}

// ---- address load/store ----

func (ex *Exec) addrOf(v Val, reach string, pos token.Pos) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	pt := v.Ty.Underlying().(*types.Pointer)
	if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
		return &Addr{Heap: pt.Elem().Underlying().(*types.Array).Elem(), Base: "(pb " + v.T + ")", Arr: true, Ty: pt.Elem()}
	}
	return &Addr{Heap: pt.Elem(), Base: "(pb " + v.T + ")", Idx: "(pi " + v.T + ")", Ty: pt.Elem()}
}

func (ex *Exec) rootVal(st *State, a *Addr) string {
	if a.Cell != "" {
		v, ok := st.vars[a.Cell]
		if !ok {
			if strings.HasPrefix(a.Cell, "GV:") {
				so := ex.u.sortOf(ex.rootType(a))
				n := ex.lazyInit(a.Cell, "gv_"+mangleRep.Replace(a.Cell[3:]), so)
				if _, dup := st.vars[a.Cell]; !dup {
					st.vars[a.Cell] = Val{T: n, Ty: ex.rootType(a)}
				}
				ex.w.globalFacts(ex, a.Cell, n, ex.rootType(a))
				return n
			}
			panic(unsupported("uninitialised cell " + a.Cell))
		}
		return ex.term(st, "true", v)
	}
	h := ex.getHeap(st, a.Heap)
	if a.Arr {
		return sel(h, a.Base)
	}
	return sel(sel(h, a.Base), a.Idx)
}
func (ex *Exec) rootType(a *Addr) types.Type {
	if len(a.Path) == 0 {
		return a.Ty
	}
	if a.Path[0].S != nil {
		return a.Path[0].S.Named
	}
	return a.Path[0].Ty // not precise for arrays; callers only need for globals
}

func (ex *Exec) applyPath(root string, path []PathEl) string {
	for _, p := range path {
		if p.S != nil {
			if p.S.Opaque {
				panic(unsupported("field of opaque struct " + p.S.Name))
			}
			root = "(" + p.S.Fields[p.Field].Acc + " " + root + ")"
		} else {
			root = sel(root, p.Index)
		}
	}
	return root
}
func (ex *Exec) updPath(root string, path []PathEl, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.S == nil {
		return store(root, p.Index, ex.updPath(sel(root, p.Index), path[1:], v))
	}
	if p.S.Opaque {
		panic(unsupported("field of opaque struct " + p.S.Name))
	}
	a := make([]string, len(p.S.Fields))
	for i, f := range p.S.Fields {
		a[i] = "(" + f.Acc + " " + root + ")"
		if i == p.Field {
			a[i] = ex.updPath(a[i], path[1:], v)
		}
	}
	return "(" + p.S.Ctor + " " + strings.Join(a, " ") + ")"
}

func (ex *Exec) load(st *State, reach string, a *Addr, pos token.Pos) Val {
	if a.Cell != "" && len(a.Path) == 0 {
		if v, ok := st.vars[a.Cell]; ok {
			return v
		}
	}
	if a.Cell == "" {
		ex.nilCheck(reach, a, pos)
	}
	ex.guardCheck(st, reach, a, false, pos)
	t := ex.applyPath(ex.rootVal(st, a), a.Path)
	so := ex.u.sortOf(a.Ty)
	t = ex.def("ld", so, t)
	ex.facts(reach, st, t, a.Ty)
	v := Val{T: t, Ty: a.Ty}
	if g := ex.guardOf(a); g != nil {
		switch a.Ty.Underlying().(type) {
		case *types.Map, *types.Slice:
			v.Guard = g
		}
	}
	return v
}

func (ex *Exec) nilCheck(reach string, a *Addr, pos token.Pos) {
	if strings.HasPrefix(a.Base, "(pb ") || strings.HasPrefix(a.Base, "ld!") {
		ex.assert("nil", "dereference", pos, reach, "(not (= "+a.Base+" 0))")
	}
}

func (ex *Exec) guardOf(a *Addr) *GuardTag {
	if a.Cell != "" || len(a.Path) == 0 || a.Path[0].S == nil {
		return nil
	}
	s := a.Path[0].S
	g, ok := ex.w.guards[typeKey(s.Named)+"."+s.Fields[a.Path[0].Field].Name]
	if !ok {
		return nil
	}
	for i, f := range s.Fields {
		if f.Name == g {
			o := *a
			o.Path = nil
			o.Ty = s.Named
			return &GuardTag{Obj: &o, Mutex: i, Name: s.Name + "." + s.Fields[a.Path[0].Field].Name}
		}
	}
	return nil
}

func (ex *Exec) guardCheck(st *State, reach string, a *Addr, write bool, pos token.Pos) {
	g := ex.guardOf(a)
	ex.guardTag(st, reach, g, write, pos)
}
func (ex *Exec) guardTag(st *State, reach string, g *GuardTag, write bool, pos token.Pos) {
	if g == nil {
		return
	}
	si := ex.u.structOf(g.Obj.Ty)
	lk := "(" + si.Fields[g.Mutex].Acc + " " + ex.rootVal(st, g.Obj) + ")"
	c := "(not (= " + lk + " 0))"
	d := "read"
	if write {
		c = "(= " + lk + " 1)"
		d = "write"
	}
	ex.assert("guarded-"+d, g.Name, pos, reach, or("(>= "+g.Obj.Base+" "+ex.next0+")", c))
}

func (ex *Exec) storeTo(st *State, reach string, a *Addr, v Val, pos token.Pos) {
	if a.ViewOf {
		panic(unsupported("store through a copied subslice view"))
	}
	if a.Cell != "" && len(a.Path) == 0 {
		v.Ty = a.Ty
		st.vars[a.Cell] = v
		return
	}
	t := ex.term(st, reach, v)
	if a.Cell != "" {
		root := ex.rootVal(st, a)
		old := st.vars[a.Cell]
		st.vars[a.Cell] = Val{T: ex.def("c", ex.u.sortOf(old.Ty), ex.updPath(root, a.Path, t)), Ty: old.Ty}
		return
	}
	ex.nilCheck(reach, a, pos)
	ex.guardCheck(st, reach, a, true, pos)
	ex.writeCheck(st, reach, a, pos)
	ex.rawStore(st, a, t)
}

func (ex *Exec) rawStore(st *State, a *Addr, t string) {
	h := ex.getHeap(st, a.Heap)
	so := "(Array Int (Array Int " + ex.u.sortOf(a.Heap) + "))"
	var nh string
	if a.Arr {
		nh = store(h, a.Base, ex.updPath(sel(h, a.Base), a.Path, t))
	} else {
		row := sel(h, a.Base)
		nh = store(h, a.Base, store(row, a.Idx, ex.updPath(sel(row, a.Idx), a.Path, t)))
	}
	st.vars[ex.heapKey(a.Heap)] = Val{T: ex.def("E", so, nh)}
}

// writeCheck: the written object is new or named in the modifies clause.
func (ex *Exec) writeCheck(st *State, reach string, a *Addr, pos token.Pos) {
	field := ""
	if len(a.Path) > 0 && a.Path[0].S != nil && !a.Arr {
		field = a.Path[0].S.Fields[a.Path[0].Field].Name
	}
	ex.writeCheckKey(reach, ex.heapKey(a.Heap), a.Base, a.Idx, field, pos)
}
func (ex *Exec) writeCheckKey(reach, key, base, idx, field string, pos token.Pos) {
	ex.recWrite(key, base, idx, field)
	if ex.modAll {
		return
	}
	// the elements of a nil slice are none
	alts := []string{"(>= " + base + " " + ex.next0 + ")", eq(base, "0")}
	for _, m := range ex.modset {
		if m.Key != key {
			continue
		}
		if m.All {
			return
		}
		if m.Field != "" && m.Field != field {
			continue
		}
		c := eq(base, m.Base)
		if m.Idx != "" && idx != "" {
			c = and(c, eq(idx, m.Idx))
		}
		alts = append(alts, c)
	}
	ex.assert("frame", "write to "+strings.TrimPrefix(key, "E:"), pos, reach, or(alts...))
}

// ---- values ----

func (ex *Exec) term(st *State, reach string, v Val) string {
	if v.T != "" {
		return v.T
	}
	if v.Addr != nil {
		a := v.Addr
		if a.Cell == "" && len(a.Path) == 0 {
			if a.Arr {
				return "(mkptr " + a.Base + " 0)"
			}
			if strings.HasPrefix(a.Base, "(pb ") && a.Idx == "(pi "+a.Base[4:] {
				return strings.TrimSuffix(a.Base[4:], ")")
			}
			return "(mkptr " + a.Base + " " + a.Idx + ")"
		}
		panic(unsupported("interior or local pointer used as a value"))
	}
	if v.View != nil {
		// materialise a copy
		b := ex.alloc(st, reach)
		el := v.View.Base.Ty.Underlying().(*types.Slice).Elem()
		h := ex.getHeap(st, el)
		src := ex.term(st, reach, v.View.Base)
		arr := ex.konst("vw", "(Array Int "+ex.u.sortOf(el)+")")
		ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s i) (select (select %s (sb %s)) (+ i %s)))) :pattern ((select %s i)))))", v.View.Len, arr, h, src, v.View.Off, arr))
		st.vars[ex.heapKey(el)] = Val{T: ex.def("E", "(Array Int (Array Int "+ex.u.sortOf(el)+"))", store(h, b, arr))}
		ex.note("a subslice with a non-zero start, when stored or passed on, is modelled as a copy (its later writes would not alias)")
		return ex.mkslice(b, v.View.Len, v.View.Len)
	}
	if v.Clo != nil {
		n := ex.konst("clo", "Fn")
		ex.fnTable[n] = v.Clo
		ex.emit("(assert (not (= " + n + " fnnil)))")
		if len(v.Clo.Fn.FreeVars) == 0 {
			if ex.cloTerm == nil {
				ex.cloTerm = map[*ssa.Function]string{}
			}
			if f, ok := ex.cloTerm[v.Clo.Fn]; ok {
				ex.emit("(assert (= " + n + " " + f + "))")
			} else {
				ex.cloTerm[v.Clo.Fn] = n
			}
		}
		ex.fnFacts(st, n, v.Clo.Fn)
		return n
	}
	if len(v.Tup) > 0 {
		panic(unsupported("tuple as term"))
	}
	panic(unsupported(fmt.Sprintf("value without term (%v)", v.Ty)))
}

func (ex *Exec) mkslice(b, n, c string) string {
	return ex.def("sl", "Sl", "(mksl "+b+" "+n+" "+c+")")
}

func (ex *Exec) note(s string) { ex.assumed[s] = true }

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{T: ex.u.zero(t), Ty: t}
	}
	return Val{T: ex.constTerm(c.Value, t), Ty: t}
}
func (ex *Exec) constTerm(v constant.Value, t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case b.Info()&types.IsString != 0:
		return ex.u.strLit(constant.StringVal(v))
	case b.Info()&types.IsInteger != 0:
		return smtInt(constant.ToInt(v).ExactString())
	case b.Info()&types.IsFloat != 0:
		f := constant.ToFloat(v)
		r := new(big.Rat)
		fl, _ := constant.Float64Val(f)
		r.SetFloat64(fl)
		return "(ffin " + smtRat(r) + ")"
	}
	panic(unsupported("const " + v.String()))
}
func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}
func smtRat(r *big.Rat) string {
	n, d := r.Num(), r.Denom()
	neg := n.Sign() < 0
	an := new(big.Int).Abs(n)
	s := an.String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + an.String() + ".0 " + d.String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (ex *Exec) val(f *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		pt := x.Type().Underlying().(*types.Pointer).Elem()
		return Val{Ty: x.Type(), Addr: &Addr{Cell: "GV:" + x.Pkg.Pkg.Path() + "." + x.Name(), Ty: pt}}
	case *ssa.Function:
		return Val{Ty: x.Type(), Clo: &Closure{Fn: x}}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := f.vals[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s not available in %s", v.Name(), f.fn)))
	}
	return r
}

// ---- loops ----

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, []*ssa.BasicBlock) {
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	order := make([]*ssa.BasicBlock, len(post))
	for i, b := range post {
		order[len(post)-1-i] = b
	}
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		loops[h].ord = i + 1
	}
	// RPO with loop bodies contiguous is needed so that all of a loop is run before its exits
	order = contiguous(order, loops)
	return loops, order
}

// contiguous reorders so that every block of a loop precedes blocks outside it that
// come after the header (still topological w.r.t. forward edges).
func contiguous(order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*Loop) []*ssa.BasicBlock {
	return order
}

func (ex *Exec) newFrame(fn *ssa.Function, parent *Frame, path string) *Frame {
	ex.frames++
	f := &Frame{id: ex.frames, fn: fn, vals: map[ssa.Value]Val{}, parent: parent, path: path, iters: map[*ssa.BasicBlock]*Iter{}, callNo: map[string]int{}, params: map[string]Val{}, loopPre: map[*ssa.BasicBlock]*State{}, loopHead: map[*ssa.BasicBlock]*State{}}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	f.loops, f.order = findLoops(fn)
	return f
}

type region struct {
	dry   *Loop
	edges []edge // back edges of the dry loop
	rets  []retEdge
}

// runFunc executes a whole function body.
func (ex *Exec) runFunc(f *Frame, st *State, reach string) []retEdge {
	rg := &region{}
	pend := map[*ssa.BasicBlock][]edge{f.fn.Blocks[0]: {{nil, reach, st}}}
	ex.runBlocks(f, f.order, pend, rg)
	return rg.rets
}

func (ex *Exec) mergeEdges(f *Frame, in []edge) (string, *State) {
	if len(in) == 1 {
		return in[0].reach, in[0].st.clone()
	}
	var rs []string
	for _, e := range in {
		rs = append(rs, e.reach)
	}
	reach := ex.def("r", "Bool", or(rs...))
	st := &State{vars: map[string]Val{}}
	keys := map[string]bool{}
	for _, e := range in {
		for k := range e.st.vars {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var vs []Val
		missing := false
		for _, e := range in {
			v, ok := e.st.vars[k]
			if !ok {
				// heaps touched lazily on one side only: entry version on the other
				if ev, ok2 := ex.entry.vars[k]; ok2 {
					v, ok = ev, true
				}
			}
			if !ok {
				missing = true
				break
			}
			vs = append(vs, v)
		}
		if missing {
			continue
		}
		if v, ok := ex.mergeVals(in, vs, k); ok {
			st.vars[k] = v
		}
	}
	return reach, st
}

func sameVal(a, b Val) bool {
	if a.T != "" || b.T != "" {
		return a.T == b.T
	}
	if a.Addr != nil && b.Addr != nil {
		return a.Addr == b.Addr || (a.Addr.Cell != "" && a.Addr.Cell == b.Addr.Cell && len(a.Addr.Path) == 0 && len(b.Addr.Path) == 0) || (a.Addr.Cell == "" && b.Addr.Cell == "" && a.Addr.Base == b.Addr.Base && a.Addr.Idx == b.Addr.Idx && len(a.Addr.Path) == 0 && len(b.Addr.Path) == 0)
	}
	if a.Clo != nil && b.Clo != nil {
		return a.Clo == b.Clo
	}
	if a.View != nil && b.View != nil {
		return a.View == b.View
	}
	if len(a.Tup) > 0 && len(a.Tup) == len(b.Tup) {
		for i := range a.Tup {
			if !sameVal(a.Tup[i], b.Tup[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (ex *Exec) mergeVals(in []edge, vs []Val, key string) (Val, bool) {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(vs[0], v) {
			same = false
		}
	}
	if same {
		return vs[0], true
	}
	r := vs[0]
	res := Val{Ty: r.Ty, Guard: r.Guard, Len: r.Len}
	for _, v := range vs {
		if v.Len != res.Len {
			res.Len = ""
		}
		if (v.Guard == nil) != (res.Guard == nil) {
			if v.Guard != nil {
				res.Guard = v.Guard
			}
		}
	}
	if len(r.Tup) > 0 {
		for i := range r.Tup {
			var c []Val
			for _, v := range vs {
				c = append(c, v.Tup[i])
			}
			m, ok := ex.mergeVals(in, c, key)
			if !ok {
				return Val{}, false
			}
			res.Tup = append(res.Tup, m)
		}
		return res, true
	}
	ts := make([]string, len(vs))
	for i, v := range vs {
		t, err := ex.tryTerm(in[i].st, in[i].reach, v)
		if err != nil {
			return Val{}, false
		}
		ts[i] = t
	}
	so := ex.sortOfKey(key, r)
	t := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		if ts[i] == t {
			continue
		}
		t = "(ite " + in[i].reach + " " + ts[i] + " " + t + ")"
	}
	res.T = ex.def("m", so, t)
	return res, true
}

func (ex *Exec) tryTerm(st *State, reach string, v Val) (t string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	return ex.term(st, reach, v), nil
}

func (ex *Exec) sortOfKey(k string, v Val) string {
	if s, ok := ex.ghostSort[k]; ok {
		return s
	}
	switch {
	case k == "next":
		return "Int"
	case strings.HasPrefix(k, "E:"), strings.HasPrefix(k, "MD:"), strings.HasPrefix(k, "MV:"), strings.HasPrefix(k, "GF:"), strings.HasPrefix(k, "VIS:"):
		return ex.keySort(k)
	}
	if v.Ty != nil {
		return ex.u.sortOf(v.Ty)
	}
	panic(unsupported("sort of state variable " + k))
}

func (ex *Exec) runBlocks(f *Frame, order []*ssa.BasicBlock, pend map[*ssa.BasicBlock][]edge, rg *region) {
	for _, b := range order {
		in := pend[b]
		if len(in) == 0 {
			continue
		}
		delete(pend, b)
		reach, st := ex.mergeEdges(f, in)
		if l := f.loops[b]; l != nil && (rg.dry == nil || rg.dry.header != b) {
			st = ex.enterLoop(f, l, st, reach, in)
			ex.runBlock(f, b, st, reach, nil, pend, rg)
			continue
		}
		ex.runBlock(f, b, st, reach, in, pend, rg)
	}
}

// enterLoop asserts invariants, havocs what the loop changes, assumes invariants.
func (ex *Exec) enterLoop(f *Frame, l *Loop, st0 *State, reach string, in []edge) *State {
	// phis at a loop header: not produced in naive form except for boolean operators
	f.loopPre[l.header] = st0.clone()
	f.loopHead[l.header] = f.loopPre[l.header]
	ex.loopInvs(f, l, st0, reach, "inv-init", true)
	H := map[string]bool{}
	lim := ex.n
	var rec *writeRec
	var resv *baseResolver
	for round := 0; ; round++ {
		rec = &writeRec{items: map[string][]ModItem{}, all: map[string]bool{}}
		st := ex.havoc(st0, H, reach)
		mark := len(ex.log)
		nsave := ex.n
		_ = nsave
		ex.dry++
		ex.recs = append(ex.recs, rec)
		rg := &region{dry: l}
		sub := []*ssa.BasicBlock{}
		for _, b := range f.order {
			if l.body[b] {
				sub = append(sub, b)
			}
		}
		pend := map[*ssa.BasicBlock][]edge{}
		start := st.clone()
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						err = u
						return
					}
					panic(r)
				}
			}()
			pend[l.header] = []edge{{nil, reach, start}}
			ex.runBlocks(f, sub, pend, rg)
		}()
		ex.dry--
		ex.recs = ex.recs[:len(ex.recs)-1]
		resv = newResolver(ex, lim, ex.log[mark:])
		ex.log = ex.log[:mark]
		if err != nil {
			panic(err)
		}
		changed := false
		check := func(e *State) {
			for k, v := range e.vars {
				o, ok := st.vars[k]
				if !ok {
					if ev, ok2 := ex.entry.vars[k]; ok2 {
						o, ok = ev, true
						st0.vars[k] = ev
					}
				}
				if ok && !sameVal(o, v) && !H[k] {
					H[k] = true
					changed = true
				}
			}
		}
		for _, e := range rg.edges {
			check(e.st)
		}
		if !changed || round > 8 {
			if changed {
				rec.any = true
			}
			break
		}
	}
	st := ex.havoc(st0, H, reach)
	// free frame assumption
	ex.frameAssume(st, reach, H)
	ex.loopFrame(rec, resv, st0, st, H)
	f.loopHead[l.header] = st.clone()
	ex.loopInvs(f, l, st, reach, "", false)
	return st
}

func (ex *Exec) havoc(st0 *State, H map[string]bool, reach string) *State {
	st := st0.clone()
	for _, k := range sortedKeys(H) {
		v, ok := st.vars[k]
		if !ok {
			continue
		}
		if v.T == "" {
			if _, err := ex.tryTerm(st, reach, v); err != nil {
				delete(st.vars, k)
				continue
			}
		}
		so := ex.sortOfKey(k, v)
		n := ex.konst("h", so)
		nv := Val{T: n, Ty: v.Ty, Guard: v.Guard}
		st.vars[k] = nv
		if k == "next" {
			ex.assume("true", "(>= "+n+" "+st0.vars[k].T+")")
		}
		if strings.HasPrefix(k, "TN:") {
			ex.assume("true", "(>= "+n+" "+st0.vars[k].T+")")
		}
		if strings.HasPrefix(k, "TA:") {
			tn := k[3:strings.LastIndex(k, ":")]
			if o, ok := st0.vars["TN:"+tn]; ok {
				ex.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (< i %s) (= (select %s i) (select %s i))) :pattern ((select %s i)))))", o.T, n, st0.vars[k].T, n))
			}
		}
		if strings.HasPrefix(k, "MD:") {
			// finiteness of map domains, and the nil map stays empty
			ks := ex.mdKeySort[k]
			c := ex.u.card(ks)
			ex.emit(fmt.Sprintf("(assert (forall ((r Int)) (! (fin%s (select %s r)) :pattern ((select %s r)))))", c[4:], n, n))
			ex.emit(fmt.Sprintf("(assert (= (select %s 0) %s))", n, ex.u.emptySet(ks)))
		}
	}
	for _, k := range sortedKeys(H) {
		v, ok := st.vars[k]
		if ok && v.Ty != nil {
			ex.facts("true", st, v.T, v.Ty)
		}
		if ok {
			ex.closedFacts(k, v.T, st)
		}
	}
	return st
}

// closedFacts: references stored in a havocked heap point to allocated objects.
func (ex *Exec) closedFacts(k, n string, st *State) {
	nx := ex.nextOf(st)
	if t, ok := ex.heapTypes[k]; ok {
		f := ex.refFacts("(select (select "+n+" r) i)", t, nx, 2)
		if f != "true" {
			ex.emit(fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern ((select (select %s r) i)))))", nx, f, n))
		}
	}
	if m, ok := ex.mapTypes[k]; ok && strings.HasPrefix(k, "MV:") {
		f := ex.refFacts("(select (select "+n+" r) k)", m.Elem(), nx, 2)
		dk, _ := ex.mapKeys(m)
		d := st.vars[dk].T
		if f != "true" && d != "" {
			ex.emit(fmt.Sprintf("(assert (forall ((r Int) (k %s)) (! (=> (and (<= 0 r) (< r %s) (select (select %s r) k)) %s) :pattern ((select (select %s r) k)))))", ex.u.sortOf(m.Key()), nx, d, f, n))
		}
	}
}

// frameAssume: objects that existed at entry and are not in the modifies clause
// keep their entry contents (every write is checked against this).
func (ex *Exec) frameAssume(st *State, reach string, H map[string]bool) {
	if ex.modAll {
		return
	}
	for _, k := range sortedKeys(H) {
		if strings.HasPrefix(k, "GF:") && (ex.ghostDom(k) == "Ptr" || ex.ghostDom(k) == "Any") {
			if e0, ok := ex.entry.vars[k]; ok {
				ex.emitGhostFrame(k, e0.T, st.vars[k].T, ex.next0, ex.modset)
			}
			continue
		}
		if !(strings.HasPrefix(k, "E:") || strings.HasPrefix(k, "MD:") || strings.HasPrefix(k, "MV:")) {
			continue
		}
		e0, ok := ex.entry.vars[k]
		if !ok {
			continue
		}
		ex.emitFrame(k, e0.T, st.vars[k].T, ex.next0, ex.modset)
	}
}

func (ex *Exec) emitGhostFrame(k, e0, e1, bound string, ms []ModItem) {
	conds := []string{}
	d := ex.ghostDom(k)
	if d == "Ptr" {
		conds = append(conds, "(< (pb p) "+bound+")")
	}
	for _, m := range ms {
		if m.Key != k {
			continue
		}
		if m.All {
			return
		}
		conds = append(conds, "(not (= p "+m.G+"))")
	}
	c := "true"
	if len(conds) > 0 {
		c = and(conds...)
	}
	ex.emit(fmt.Sprintf("(assert (forall ((p %s)) (! (=> %s (= (select %s p) (select %s p))) :pattern ((select %s p)))))", d, c, e1, e0, e1))
}

func (ex *Exec) emitFrame(k, e0, e1, bound string, ms []ModItem) {
	conds := []string{"(<= 0 r)", "(< r " + bound + ")"}
	for _, m := range ms {
		if m.Key != k {
			continue
		}
		if m.All {
			return
		}
		conds = append(conds, "(not (= r "+m.Base+"))")
	}
	ex.emit(fmt.Sprintf("(assert (forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r)))))", and(conds...), e1, e0, e1))
	for _, m := range ms {
		if m.Key == k && m.Field != "" {
			t := ex.heapTypes[k]
			si := ex.u.structOf(t)
			// only the named fields may differ
			fields := map[string]bool{}
			for _, m2 := range ms {
				if m2.Key == k && m2.Base == m.Base && m2.Idx == m.Idx {
					if m2.Field == "" {
						fields = nil
						break
					}
					fields[m2.Field] = true
				}
			}
			if fields == nil {
				continue
			}
			a1 := sel(sel(e1, m.Base), m.Idx)
			a0 := sel(sel(e0, m.Base), m.Idx)
			for _, fi := range si.Fields {
				if !fields[fi.Name] {
					ex.emit(fmt.Sprintf("(assert (= (%s %s) (%s %s)))", fi.Acc, a1, fi.Acc, a0))
				}
			}
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (ex *Exec) runBlock(f *Frame, b *ssa.BasicBlock, st *State, reach string, in []edge, pend map[*ssa.BasicBlock][]edge, rg *region) {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.If:
			c := ex.term(st, reach, ex.val(f, st, x.Cond))
			c = ex.def("cnd", "Bool", c)
			ex.edgeTo(f, b, b.Succs[0], ex.def("r", "Bool", and(reach, c)), st, pend, rg)
			ex.edgeTo(f, b, b.Succs[1], ex.def("r", "Bool", and(reach, not(c))), st.clone(), pend, rg)
			return
		case *ssa.Jump:
			ex.edgeTo(f, b, b.Succs[0], reach, st, pend, rg)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, ex.val(f, st, r))
			}
			rg.rets = append(rg.rets, retEdge{reach, st, vs})
			return
		case *ssa.Panic:
			ex.panicAt(f, st, reach, x.Pos(), "explicit panic")
			return
		case *ssa.Phi:
			if in == nil {
				panic(unsupported("phi at loop header"))
			}
			var vs []Val
			for _, e := range in {
				for i, p := range b.Preds {
					if p == e.pred {
						vs = append(vs, ex.val(f, e.st, x.Edges[i]))
					}
				}
			}
			if len(vs) != len(in) {
				panic(unsupported("phi edges"))
			}
			v, ok := ex.mergeVals(in, vs, "phi")
			if !ok {
				panic(unsupported("phi of unmergeable values"))
			}
			v.Ty = x.Type()
			f.vals[x] = v
		default:
			ok := ex.instr(f, b, st, &reach, ins)
			if !ok {
				return
			}
		}
	}
}

func (ex *Exec) panicAt(f *Frame, st *State, reach string, pos token.Pos, what string) {
	cond := "false"
	if ex.fspec != nil && len(ex.fspec.PanicIf) > 0 {
		var cs []string
		for _, c := range ex.fspec.PanicIf {
			cs = append(cs, ex.compileBool(ex.topEnv(ex.entry), c))
		}
		cond = or(cs...)
	}
	ex.assert("panic", what, pos, reach, cond)
}

func (ex *Exec) edgeTo(f *Frame, from, to *ssa.BasicBlock, reach string, st *State, pend map[*ssa.BasicBlock][]edge, rg *region) {
	if l := f.loops[to]; l != nil && l.body[from] {
		// back edge
		if rg.dry == l {
			rg.edges = append(rg.edges, edge{from, reach, st})
			return
		}
		if rg.dry != nil && !rg.dry.body[to] {
			return
		}
		ex.loopInvs(f, l, st, reach, "inv-preserve", true)
		if rg.dry != nil {
			// inner loop during a dry run: its changes matter to the outer loop through its exits
			rg.edges = append(rg.edges, edge{from, reach, st})
		}
		return
	}
	if rg.dry != nil && !rg.dry.body[to] {
		return // leaving the loop under dry run
	}
	for _, l := range f.loops {
		if l.body[from] && !l.body[to] {
			if ls, fs := ex.loopSpec(f, l); ls != nil && len(ls.UseExit) > 0 {
				env := ex.frameEnv(f, st, l)
				env.pkg, env.imports = fs.Pkg, fs.Imports
				for _, u := range ls.UseExit {
					ex.useHint(env, u, reach)
				}
			}
		}
	}
	pend[to] = append(pend[to], edge{from, reach, st})
}
