package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specError struct{ msg string }

func (e specError) Error() string { return "spec error: " + e.msg }
func specErr(s string) specError  { return specError{s} }

// SVal is a specification value.
type SVal struct {
	T string
	G GType
	V *Val // when it has no term of its own (views, addresses, closures)
}

type Env struct {
	ex      *Exec
	st      *State
	old     *State
	pre     *State
	head    *State
	vars    map[string]SVal
	frame   *Frame
	locals  bool // program variables of the frame are visible
	blk     *ssa.BasicBlock
	loop    *Loop
	pkg     string
	imports map[string]string
	params0 map[string]SVal // entry values, for old(param)
	depth   int
	where   string
	hint    bool // inside a quantified hint: lemma instances and unfoldings are formulas
}

func (env *Env) clone() *Env {
	e := *env
	e.vars = make(map[string]SVal, len(env.vars))
	for k, v := range env.vars {
		e.vars[k] = v
	}
	return &e
}
func (env *Env) fail(f string, a ...interface{}) {
	panic(specErr(env.where + ": " + fmt.Sprintf(f, a...)))
}

func (ex *Exec) sval(v Val) SVal {
	g := GType{Go: v.Ty}
	if v.Ty != nil {
		if _, ok := v.Ty.(*types.Tuple); !ok {
			g.Sort = ex.u.sortOf(v.Ty)
		}
	}
	if v.T != "" {
		return SVal{T: v.T, G: g}
	}
	if v.Addr != nil && v.Addr.Cell == "" && len(v.Addr.Path) == 0 {
		a := v.Addr
		if a.Arr {
			return SVal{T: "(mkptr " + a.Base + " 0)", G: g}
		}
		return SVal{T: "(mkptr " + a.Base + " " + a.Idx + ")", G: g}
	}
	vv := v
	return SVal{G: g, V: &vv}
}

func (env *Env) termOf(s SVal) string {
	if s.T != "" {
		return s.T
	}
	if s.V != nil && s.V.Clo != nil {
		n := env.ex.term(env.st, "true", *s.V)
		return n
	}
	if s.V != nil && s.V.View != nil {
		t, err := env.ex.tryTerm(env.st.clone(), "true", *s.V)
		if err == nil {
			return t
		}
	}
	env.fail("value has no term")
	return ""
}

// compileBool compiles a clause to an SMT boolean.
func (ex *Exec) compileBool(env *Env, c Clause) string {
	e := *env
	e.where = c.Where
	v := e.compile(c.E)
	if v.G.Sort != "Bool" {
		panic(specErr(c.Where + ": clause is not boolean: " + c.Text))
	}
	return v.T
}

// topEnv: environment for contracts of the function being verified.
func (ex *Exec) topEnv(st *State) *Env { return ex.fnEnv(ex.top, st) }

func (ex *Exec) fnEnv(f *Frame, st *State) *Env {
	env := &Env{ex: ex, st: st, old: f.entry, vars: map[string]SVal{}, frame: f, pkg: f.pkgPath()}
	if f.spec != nil {
		env.imports = f.spec.Imports
		env.pkg = f.spec.Pkg
		for i, p := range f.fn.Params {
			if i < len(f.spec.Params) {
				env.vars[specName(f.spec.Params[i])] = ex.sval(f.params[p.Name()])
			}
		}
	}
	for n, v := range f.params {
		if _, ok := env.vars[n]; !ok {
			env.vars[n] = ex.sval(v)
		}
	}
	env.params0 = env.vars
	return env
}

// frameEnv: environment inside a body (loop invariants).
func (ex *Exec) frameEnv(f *Frame, st *State, l *Loop) *Env {
	env := ex.fnEnv(f, st)
	env.locals = true
	env.loop = l
	if l != nil {
		env.pre = f.loopPre[l.header]
		env.head = f.loopHead[l.header]
	}
	env.vars = map[string]SVal{}
	return env
}

func (f *Frame) pkgPath() string {
	if f.fn.Pkg != nil {
		return f.fn.Pkg.Pkg.Path()
	}
	return ""
}

// local finds a program variable of the frame (or an enclosing function) by name.
func (env *Env) local(name string) (SVal, bool) {
	for f := env.frame; f != nil; {
		if v, ok := env.localIn(f, name); ok {
			return v, true
		}
		f = f.parent
	}
	return SVal{}, false
}

func (env *Env) localIn(f *Frame, name string) (SVal, bool) {
	ex := env.ex
	n := 0
	want := 0
	if i := strings.LastIndex(name, "$"); i > 0 {
		if k, err := strconv.Atoi(name[i+1:]); err == nil {
			want, name = k, name[:i]
		}
	}
	var best *ssa.Alloc
	hdr := (*ssa.BasicBlock)(nil)
	if env.loop != nil && f == env.frame {
		hdr = env.loop.header
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			n++
			if want > 0 {
				if n == want {
					best = a
				}
				continue
			}
			if hdr != nil && !b.Dominates(hdr) {
				continue
			}
			if _, ok := f.vals[a]; !ok {
				continue
			}
			best = a
		}
	}
	if best != nil {
		v, ok := f.vals[best]
		if !ok {
			return SVal{}, false
		}
		return env.loadAddr(v.Addr), true
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			if v, ok := f.vals[fv]; ok {
				if v.Addr != nil {
					return env.loadAddr(v.Addr), true
				}
				s := ex.sval(v)
				return env.deref(s), true
			}
		}
	}
	if v, ok := f.params[name]; ok {
		return ex.sval(v), true
	}
	return SVal{}, false
}

func (env *Env) loadAddr(a *Addr) SVal {
	ex := env.ex
	if a.Cell != "" && len(a.Path) == 0 {
		if v, ok := env.st.vars[a.Cell]; ok {
			if v.Ty == nil {
				v.Ty = a.Ty
			}
			return ex.sval(v)
		}
		if !strings.HasPrefix(a.Cell, "GV:") {
			env.fail("variable not live here (%s)", ex.cellNames[a.Cell])
		}
	}
	return SVal{T: ex.applyPath(ex.rootVal(env.st, a), a.Path), G: ex.u.gt(a.Ty)}
}

func (env *Env) deref(s SVal) SVal {
	ex := env.ex
	pt, ok := s.G.Go.Underlying().(*types.Pointer)
	if !ok {
		env.fail("dereference of a non-pointer")
	}
	if s.V != nil && s.V.Addr != nil {
		return env.loadAddr(s.V.Addr)
	}
	t := env.termOf(s)
	h := ex.getHeap(env.st, pt.Elem())
	return SVal{T: sel(sel(h, "(pb "+t+")"), "(pi "+t+")"), G: ex.u.gt(pt.Elem())}
}

func (ex *Exec) ghostKey(env *Env, name string) string {
	for _, g := range ex.w.specs.Ghosts {
		if g.Name == name || g.TypeName+"."+g.Name == name {
			k := "GF:" + g.Pkg + "." + g.TypeName + "." + g.Name
			if _, ok := ex.ghostSort[k]; !ok {
				gt, err := ex.w.resolveType(ex.u, g.Sort, g.Pkg, g.Imports)
				if err != nil {
					panic(specErr(err.Error()))
				}
				dom := "Int"
				if g.TypeName != "" {
					t, err := ex.w.goType(g.TypeName, g.Pkg, g.Imports)
					if err != nil {
						panic(specErr(err.Error()))
					}
					dom = ex.u.sortOf(t)
					if _, ok := t.Underlying().(*types.Struct); ok {
						dom = "Ptr"
					}
				}
				ex.ghostSort[k] = "(Array " + dom + " " + gt.Sort + ")"
				ex.ghostTy[k] = gt
			}
			if _, ok := env.st.vars[k]; !ok {
				n := ex.lazyInit(k, "GF_"+mangleRep.Replace(k[3:]), ex.ghostSort[k])
				env.st.vars[k] = Val{T: n}
			}
			return k
		}
	}
	panic(specErr("unknown ghost " + name))
}

func realLit(s string) string {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(specErr("bad number " + s))
	}
	return smtRat(r)
}

func (env *Env) compile(e *Ex) SVal {
	ex := env.ex
	switch e.Op {
	case "paren":
		return env.compile(e.Args[0])
	case "int":
		n, ok := new(big.Int).SetString(e.S, 0)
		if !ok {
			env.fail("bad integer %s", e.S)
		}
		g := gInt
		g.Unt = true
		return SVal{T: n.String(), G: g}
	case "real":
		return SVal{T: realLit(e.S), G: gReal}
	case "str":
		s, err := strconv.Unquote(e.S)
		if err != nil {
			env.fail("bad string %s", e.S)
		}
		return SVal{T: ex.u.strLit(s), G: gStr}
	case "char":
		r, _, _, err := strconv.UnquoteChar(e.S[1:len(e.S)-1], '\'')
		if err != nil {
			env.fail("bad char %s", e.S)
		}
		return SVal{T: fmt.Sprint(int(r)), G: gInt}
	case "ident":
		return env.ident(e.S)
	case "chain":
		var cs []string
		for _, a := range e.Args {
			cs = append(cs, env.bin(a))
		}
		return SVal{T: and(cs...), G: gBool}
	case "bin":
		switch e.S {
		case "==", "!=", "<", "<=", ">", ">=", "in":
			return SVal{T: env.bin(e), G: gBool}
		}
		return env.arith(e)
	case "un":
		switch e.S {
		case "!":
			return SVal{T: not(env.bool(e.Args[0])), G: gBool}
		case "-":
			v := env.compile(e.Args[0])
			if v.G.Sort == "F" {
				return SVal{T: "(fneg " + v.T + ")", G: v.G}
			}
			return SVal{T: "(- " + v.T + ")", G: v.G}
		case "*":
			return env.deref(env.compile(e.Args[0]))
		case "&":
			return env.addrOfEx(e.Args[0])
		}
	case "cond":
		c := env.bool(e.Args[0])
		a, b := env.compile(e.Args[1]), env.compile(e.Args[2])
		a, b = env.unify(a, b)
		return SVal{T: "(ite " + c + " " + env.termOf(a) + " " + env.termOf(b) + ")", G: a.G}
	case "let":
		v := env.compile(e.Args[0])
		n := env.clone()
		n.vars[e.S] = v
		return n.compile(e.Args[1])
	case "forall", "exists":
		return env.quant(e)
	case "field":
		return env.field(e)
	case "index":
		return env.index(env.compile(e.Args[0]), env.compile(e.Args[1]))
	case "substr":
		a := env.compile(e.Args[0])
		if a.G.Sort != "Str" {
			env.fail("piece of something that is not a string")
		}
		lo := env.termOf(env.compile(e.Args[1]))
		hi := "(slen " + a.T + ")"
		if len(e.Args) > 2 {
			hi = env.termOf(env.compile(e.Args[2]))
		}
		return SVal{T: "(ssub " + a.T + " " + lo + " " + hi + ")", G: gStr}
	case "update":
		a, k, v := env.compile(e.Args[0]), env.compile(e.Args[1]), env.compile(e.Args[2])
		if a.G.Key == nil {
			env.fail("update of a non-array")
		}
		return SVal{T: store(a.T, env.coerce(k, *a.G.Key), env.coerce(v, *a.G.Elem)), G: a.G}
	case "assert":
		v := env.compile(e.Args[0])
		t, err := ex.w.goType(e.S, env.pkg, env.imports)
		if err != nil {
			env.fail("%v", err)
		}
		return SVal{T: fmt.Sprintf("(unbox_%d %s)", ex.u.tag(t), env.termOf(v)), G: ex.u.gt(t)}
	case "call", "mcall":
		return env.callEx(e)
	}
	env.fail("cannot compile %s", e.Op)
	return SVal{}
}

func (env *Env) bool(e *Ex) string {
	v := env.compile(e)
	if v.G.Sort != "Bool" {
		env.fail("boolean expected, got %s", v.G.Sort)
	}
	return v.T
}

func (env *Env) ident(n string) SVal {
	ex := env.ex
	if v, ok := env.vars[n]; ok {
		return v
	}
	switch n {
	case "true", "false":
		return SVal{T: n, G: gBool}
	case "nil":
		return SVal{T: "nil", G: GType{Sort: "nil", Nil: true}}
	case "$next":
		return SVal{T: ex.nextOf(env.st), G: gInt}
	}
	if env.locals {
		switch n {
		case "$i":
			return env.rangeIdx()
		case "$range":
			return env.rangeVal()
		case "visited", "$pos":
			return env.visited()
		}
		if v, ok := env.local(n); ok {
			return v
		}
	}
	if v, ok := env.params0[n]; ok {
		return v
	}
	if p, ok := ex.w.specs.Preds[n]; ok && len(p.Params) == 0 {
		return env.pred(p, nil)
	}
	if p, ok := ex.w.specs.UFs[n]; ok && len(p.Params) == 0 {
		return env.uf(p, nil)
	}
	if v, ok := env.global(env.pkg, n); ok {
		return v
	}
	env.fail("unknown name %q", n)
	return SVal{}
}

func (env *Env) global(pkg, n string) (SVal, bool) {
	ex := env.ex
	tp := ex.w.tpkgs[pkg]
	if tp == nil {
		return SVal{}, false
	}
	switch o := tp.Scope().Lookup(n).(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return SVal{T: ex.constTerm(o.Val(), t), G: ex.u.gt(t)}, true
		}
		g := ex.u.gt(t)
		if o.Val().Kind() == constant.Int {
			return SVal{T: ex.constTerm(constant.ToInt(o.Val()), t), G: g}, true
		}
		return SVal{T: ex.constTerm(o.Val(), t), G: g}, true
	case *types.Var:
		a := &Addr{Cell: "GV:" + pkg + "." + n, Ty: o.Type()}
		return env.loadAddr(a), true
	}
	return SVal{}, false
}

// rangeVal is the slice a range loop walks over.
func (env *Env) rangeVal() SVal {
	if env.loop == nil {
		env.fail("$range outside a loop")
	}
	for _, ins := range env.loop.header.Instrs {
		if b, ok := ins.(*ssa.BinOp); ok && b.Op == token.LSS {
			if c, ok := b.Y.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return env.ex.sval(env.frame.vals[c.Call.Args[0]])
				}
			}
		}
	}
	env.fail("$range: not a slice range loop")
	return SVal{}
}

func (env *Env) rangeIdx() SVal {
	if env.loop == nil {
		env.fail("$i outside a loop")
	}
	f := env.frame
	// the rangeindex variable stored to in the loop header
	for _, ins := range env.loop.header.Instrs {
		if s, ok := ins.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				v := env.loadAddr(f.vals[a].Addr)
				return SVal{T: "(+ " + v.T + " 1)", G: gInt}
			}
		}
	}
	env.fail("$i: not a slice range loop")
	return SVal{}
}

func (env *Env) visited() SVal {
	if env.loop == nil {
		env.fail("visited outside a loop")
	}
	for _, ins := range env.loop.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			it := env.frame.vals[n.Iter].Iter
			v := env.st.vars[it.Key]
			if it.IsStr {
				return SVal{T: v.T, G: gInt}
			}
			m := it.Map.Ty.Underlying().(*types.Map)
			return SVal{T: v.T, G: arrType(env.ex.u.gt(m.Key()), gBool)}
		}
	}
	env.fail("visited: not a map range loop")
	return SVal{}
}

// unify makes both operands the same sort.
func (env *Env) unify(a, b SVal) (SVal, SVal) {
	if a.G.Nil && !b.G.Nil {
		a = env.nilOf(b.G)
	} else if b.G.Nil && !a.G.Nil {
		b = env.nilOf(a.G)
	}
	if a.G.Sort == b.G.Sort {
		return a, b
	}
	conv := func(x SVal, to GType) SVal {
		if x.G.Sort == "Int" && to.Sort == "Real" {
			if x.G.Unt {
				return SVal{T: x.T + ".0", G: gReal}
			}
			return SVal{T: "(to_real " + x.T + ")", G: gReal}
		}
		if x.G.Sort == "Int" && to.Sort == "F" && x.G.Unt {
			return SVal{T: "(ffin " + x.T + ".0)", G: to}
		}
		if x.G.Sort == "Real" && to.Sort == "F" {
			return SVal{T: "(ffin " + x.T + ")", G: to}
		}
		return x
	}
	if strings.HasPrefix(a.T, "(- ") && a.G.Unt {
		a.G.Unt = false
	}
	a2 := conv(a, b.G)
	if a2.G.Sort == b.G.Sort {
		return a2, b
	}
	b2 := conv(b, a.G)
	if a.G.Sort == b2.G.Sort {
		return a, b2
	}
	// boxing
	if a.G.Sort == "Any" && b.G.Go != nil {
		return a, SVal{T: fmt.Sprintf("(box_%d %s)", env.ex.u.tag(b.G.Go), env.termOf(b)), G: a.G}
	}
	if b.G.Sort == "Any" && a.G.Go != nil {
		return SVal{T: fmt.Sprintf("(box_%d %s)", env.ex.u.tag(a.G.Go), env.termOf(a)), G: b.G}, b
	}
	env.fail("operands of different sorts %s and %s", a.G.Sort, b.G.Sort)
	return a, b
}

func (env *Env) coerce(v SVal, to GType) string {
	if v.G.Sort == to.Sort {
		return env.termOf(v)
	}
	a, _ := env.unify(v, SVal{T: "?", G: to})
	if a.G.Sort != to.Sort {
		env.fail("cannot use %s as %s", v.G.Sort, to.Sort)
	}
	return env.termOf(a)
}

func (env *Env) nilOf(g GType) SVal {
	switch g.Sort {
	case "Ptr":
		return SVal{T: "nilptr", G: g}
	case "Sl":
		return SVal{T: "nilsl", G: g}
	case "Any":
		return SVal{T: "anynil", G: g}
	case "Fn":
		return SVal{T: "fnnil", G: g}
	case "Int":
		return SVal{T: "0", G: g}
	}
	env.fail("nil of sort %s", g.Sort)
	return SVal{}
}

func (env *Env) bin(e *Ex) string {
	if e.Op != "bin" {
		return env.bool(e)
	}
	a, b := env.compile(e.Args[0]), env.compile(e.Args[1])
	switch e.S {
	case "in":
		return env.in(a, b)
	case "==", "!=":
		var r string
		if a.G.Nil != b.G.Nil {
			x := a
			if a.G.Nil {
				x = b
			}
			if x.V != nil && x.V.View != nil {
				r = eq("(sb "+env.termOf(env.ex.sval(x.V.View.Base))+")", "0")
			} else if x.V != nil {
				r = "false"
			} else {
				switch x.G.Sort {
				case "Ptr":
					r = eq("(pb "+x.T+")", "0")
				case "Sl":
					r = eq("(sb "+x.T+")", "0")
				default:
					r = eq(x.T, env.nilOf(x.G).T)
				}
			}
		} else {
			a, b = env.unify(a, b)
			r = eq(env.termOf(a), env.termOf(b))
		}
		if e.S == "!=" {
			return not(r)
		}
		return r
	}
	a, b = env.unify(a, b)
	switch a.G.Sort {
	case "Int", "Real":
		return "(" + e.S + " " + a.T + " " + b.T + ")"
	case "F":
		switch e.S {
		case "<":
			return "(flt " + a.T + " " + b.T + ")"
		case "<=":
			return "(fle " + a.T + " " + b.T + ")"
		case ">":
			return "(flt " + b.T + " " + a.T + ")"
		case ">=":
			return "(fle " + b.T + " " + a.T + ")"
		}
	case "Str":
		switch e.S {
		case "<":
			return "(slt " + a.T + " " + b.T + ")"
		case "<=":
			return "(not (slt " + b.T + " " + a.T + "))"
		case ">":
			return "(slt " + b.T + " " + a.T + ")"
		case ">=":
			return "(not (slt " + a.T + " " + b.T + "))"
		}
	}
	env.fail("cannot compare %s", a.G.Sort)
	return ""
}

func (env *Env) in(k, s SVal) string {
	if s.G.Key != nil {
		return sel(s.T, env.coerce(k, *s.G.Key))
	}
	if s.G.Go != nil {
		if m, ok := s.G.Go.Underlying().(*types.Map); ok {
			d, _ := env.ex.getMap(env.st, m)
			row, kt := sel(d, env.termOf(s)), env.coerce(k, env.ex.u.gt(m.Key()))
			env.touch(row, kt, "(Array "+env.ex.u.sortOf(m.Key())+" Bool)")
			return sel(row, kt)
		}
	}
	env.fail("'in' needs a set or a map")
	return ""
}

func (env *Env) arith(e *Ex) SVal {
	switch e.S {
	case "&&":
		return SVal{T: and(env.bool(e.Args[0]), env.bool(e.Args[1])), G: gBool}
	case "||":
		return SVal{T: or(env.bool(e.Args[0]), env.bool(e.Args[1])), G: gBool}
	case "==>":
		return SVal{T: implies(env.bool(e.Args[0]), env.bool(e.Args[1])), G: gBool}
	case "<==>":
		return SVal{T: "(= " + env.bool(e.Args[0]) + " " + env.bool(e.Args[1]) + ")", G: gBool}
	}
	a, b := env.unify(env.compile(e.Args[0]), env.compile(e.Args[1]))
	g := a.G
	if a.G.Unt {
		g = b.G
	}
	switch a.G.Sort {
	case "Int":
		switch e.S {
		case "+", "-", "*":
			return SVal{T: "(" + e.S + " " + a.T + " " + b.T + ")", G: g}
		case "/":
			return SVal{T: "(godiv " + a.T + " " + b.T + ")", G: g}
		case "%":
			return SVal{T: "(gomod " + a.T + " " + b.T + ")", G: g}
		}
	case "Real":
		if e.S == "*" {
			return SVal{T: "(rmul " + a.T + " " + b.T + ")", G: gReal}
		}
		return SVal{T: "(" + e.S + " " + a.T + " " + b.T + ")", G: gReal}
	case "F":
		op := map[string]string{"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[e.S]
		return SVal{T: "(" + op + " " + a.T + " " + b.T + ")", G: g}
	case "Str":
		if e.S == "+" {
			return SVal{T: "(scat " + a.T + " " + b.T + ")", G: g}
		}
	}
	env.fail("arithmetic %s on %s", e.S, a.G.Sort)
	return SVal{}
}

func (env *Env) quant(e *Ex) SVal {
	ex := env.ex
	n := env.clone()
	var bs []string
	for _, v := range e.Vars {
		gt, err := ex.w.resolveType(ex.u, v.Type, env.pkg, env.imports)
		if err != nil {
			env.fail("%v", err)
		}
		ex.quantN++
		nm := fmt.Sprintf("%s?%d", strings.ReplaceAll(v.Name, "$", "_"), ex.quantN)
		n.vars[v.Name] = SVal{T: nm, G: gt}
		bs = append(bs, "("+nm+" "+gt.Sort+")")
	}
	body := n.bool(e.Args[0])
	if len(e.Trig) > 0 {
		var ps []string
		for _, tr := range e.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, n.termOf(n.compile(t)))
			}
			ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
		}
		body = "(! " + body + " " + strings.Join(ps, " ") + ")"
	}
	return SVal{T: "(" + e.Op + " (" + strings.Join(bs, " ") + ") " + body + ")", G: gBool}
}

func (env *Env) field(e *Ex) SVal {
	ex := env.ex
	// package-qualified name
	if id := e.Args[0]; id.Op == "ident" {
		if _, shadow := env.vars[id.S]; !shadow {
			if p, ok := env.imports[id.S]; ok {
				if v, ok := env.global(p, e.S); ok {
					return v
				}
				env.fail("unknown %s.%s", id.S, e.S)
			}
		}
	}
	return env.fieldOf(env.compile(e.Args[0]), e.S, ex)
}

func (env *Env) fieldOf(v SVal, name string, ex *Exec) SVal {
	if v.G.Go == nil {
		env.fail("field %s of a pure value", name)
	}
	t := v.G.Go
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	// ghost field?
	for _, g := range ex.w.specs.Ghosts {
		if g.Name != name || g.TypeName == "" {
			continue
		}
		gt, err := ex.w.goType(g.TypeName, g.Pkg, g.Imports)
		if err == nil && types.Identical(gt, t) {
			k := ex.ghostKey(env, g.TypeName+"."+g.Name)
			return SVal{T: sel(env.st.vars[k].T, env.termOf(v)), G: ex.ghostTy[k]}
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		env.fail("field %s of %s", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			sv := v
			if ptr {
				sv = env.deref(v)
			}
			si := ex.u.structOf(t)
			if si.Opaque {
				env.fail("field of opaque struct")
			}
			return SVal{T: "(" + si.Fields[i].Acc + " " + env.termOf(sv) + ")", G: ex.u.gt(st.Field(i).Type())}
		}
	}
	// promoted
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			ft := st.Field(i).Type()
			b := ft
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				b = p.Elem()
			}
			if bs, ok := b.Underlying().(*types.Struct); ok {
				for j := 0; j < bs.NumFields(); j++ {
					if bs.Field(j).Name() == name {
						return env.fieldOf(env.fieldOf(v, st.Field(i).Name(), ex), name, ex)
					}
				}
			}
		}
	}
	env.fail("no field %s in %s", name, t)
	return SVal{}
}

func (env *Env) addrOfEx(e *Ex) SVal {
	for e.Op == "paren" {
		e = e.Args[0]
	}
	if e.Op == "index" {
		a, i := env.compile(e.Args[0]), env.compile(e.Args[1])
		sl, ok := a.G.Go.Underlying().(*types.Slice)
		if ok {
			return SVal{T: "(mkptr (sb " + env.termOf(a) + ") " + i.T + ")", G: env.ex.u.gt(types.NewPointer(sl.Elem()))}
		}
	}
	env.fail("& of unsupported expression")
	return SVal{}
}

func (env *Env) index(a, i SVal) SVal {
	ex := env.ex
	if a.G.Key != nil {
		return SVal{T: sel(a.T, env.coerce(i, *a.G.Key)), G: *a.G.Elem}
	}
	if a.G.Go == nil {
		env.fail("index of %s", a.G.Sort)
	}
	switch t := a.G.Go.Underlying().(type) {
	case *types.Slice:
		h := ex.getHeap(env.st, t.Elem())
		if a.V != nil && a.V.View != nil {
			b := env.termOf(ex.sval(a.V.View.Base))
			return SVal{T: sel(sel(h, "(sb "+b+")"), "(+ "+a.V.View.Off+" "+i.T+")"), G: ex.u.gt(t.Elem())}
		}
		row := sel(h, "(sb "+env.termOf(a)+")")
		env.touch(row, i.T, "(Array Int "+ex.u.sortOf(t.Elem())+")")
		return SVal{T: sel(row, i.T), G: ex.u.gt(t.Elem())}
	case *types.Map:
		_, v := ex.getMap(env.st, t)
		env.touch(sel(v, env.termOf(a)), i.T, "(Array "+ex.u.sortOf(t.Key())+" "+ex.u.sortOf(t.Elem())+")")
		return SVal{T: sel(sel(v, env.termOf(a)), env.coerce(i, ex.u.gt(t.Key()))), G: ex.u.gt(t.Elem())}
	case *types.Array:
		return SVal{T: sel(env.termOf(a), i.T), G: ex.u.gt(t.Elem())}
	case *types.Basic:
		if a.G.Sort == "Str" {
			return SVal{T: "(sbyte " + a.T + " " + i.T + ")", G: gInt}
		}
	case *types.Pointer:
		return env.index(env.deref(a), i)
	}
	env.fail("index of %s", a.G.Go)
	return SVal{}
}

// touch names a row of the heap that occurs under a quantifier, so that the
// solver's triggers can match against it.
func (env *Env) touch(row, idx, sort string) {
	ex := env.ex
	if !strings.Contains(idx, "?") || strings.Contains(row, "?") || isAtomic(row) {
		return
	}
	if i, ok := ex.rowAt[row]; ok && i < len(ex.log) && strings.HasSuffix(ex.log[i], row+"))") {
		return
	}
	if ex.rowAt == nil {
		ex.rowAt = map[string]int{}
	}
	n := ex.fresh("row")
	ex.rowAt[row] = len(ex.log)
	ex.emit("(declare-const " + n + " " + sort + ")\n(assert (= " + n + " " + row + "))")
}

type sig struct {
	args []string
	ret  GType
}

var smtFuncs = map[string]sig{
	"slen": {[]string{"Str"}, gInt}, "sbyte": {[]string{"Str", "Int"}, gInt}, "ssub": {[]string{"Str", "Int", "Int"}, gStr}, "scat": {[]string{"Str", "Str"}, gStr},
	"runeat": {[]string{"Str", "Int"}, gInt}, "runew": {[]string{"Str", "Int"}, gInt}, "slt": {[]string{"Str", "Str"}, gBool},
	"fr": {[]string{"F"}, gReal}, "fisfin": {[]string{"F"}, gBool}, "fround": {[]string{"F"}, gF}, "fabs": {[]string{"F"}, gF}, "ffin": {[]string{"Real"}, gF}, "rnd": {[]string{"Real"}, gF}, "i2f": {[]string{"Int"}, gF}, "f2i": {[]string{"F"}, gInt},
	"fle": {[]string{"F", "F"}, gBool}, "flt": {[]string{"F", "F"}, gBool}, "fadd": {[]string{"F", "F"}, gF}, "fsub": {[]string{"F", "F"}, gF}, "fmul": {[]string{"F", "F"}, gF}, "fdiv": {[]string{"F", "F"}, gF},
	"absi": {[]string{"Int"}, gInt}, "absr": {[]string{"Real"}, gReal}, "to_real": {[]string{"Int"}, gReal}, "to_int": {[]string{"Real"}, gInt}, "roundr": {[]string{"Real"}, gInt},
	"bitor": {[]string{"Int", "Int"}, gInt}, "bitand": {[]string{"Int", "Int"}, gInt}, "tyof": {[]string{"Any"}, gInt}, "div": {[]string{"Int", "Int"}, gInt}, "mod": {[]string{"Int", "Int"}, gInt},
	"pb": {[]string{"Ptr"}, gInt}, "pi": {[]string{"Ptr"}, gInt}, "sb": {[]string{"Sl"}, gInt}, "sc": {[]string{"Sl"}, gInt},
}

func sortG(s string) GType {
	switch s {
	case "Str":
		return gStr
	case "F":
		return gF
	case "Real":
		return gReal
	case "Bool":
		return gBool
	}
	return GType{Sort: s}
}

func (env *Env) callEx(e *Ex) SVal {
	ex := env.ex
	if e.Op == "call" && env.hint {
		if e.S == "unfold" {
			call := e.Args[0]
			p := ex.w.specs.UFs[call.S]
			if p == nil || p.Body == nil {
				env.fail("unfold of %s", call.S)
			}
			n := *env
			n.hint = false
			return SVal{T: n.unfold(p, call.Args), G: gBool}
		}
		if ex.w.specs.Lemmas[e.S] != nil {
			n := *env
			n.hint = false
			return SVal{T: n.lemmaInst(e), G: gBool}
		}
	}
	if e.Op == "call" {
		switch e.S {
		case "old":
			n := *env
			n.st = env.old
			if env.params0 != nil {
				n.vars = make(map[string]SVal)
				for k, v := range env.vars {
					n.vars[k] = v
				}
				n.locals = false
			}
			return n.compile(e.Args[0])
		case "pre":
			if env.pre == nil {
				env.fail("pre() outside a loop")
			}
			n := *env
			n.st = env.pre
			return n.compile(e.Args[0])
		case "it": // the value at the start of the current loop iteration
			if env.head == nil {
				env.fail("it() outside a loop")
			}
			n := *env
			n.st = env.head
			return n.compile(e.Args[0])
		case "finite":
			v := env.compile(e.Args[0])
			if v.G.Key == nil || v.G.Elem.Sort != "Bool" {
				env.fail("finite: not a set")
			}
			return SVal{T: "(fin" + ex.u.card(v.G.Key.Sort)[4:] + " " + v.T + ")", G: gBool}
		case "len":
			v := env.compile(e.Args[0])
			if v.V != nil && v.V.View != nil {
				return SVal{T: v.V.View.Len, G: gInt}
			}
			if v.G.Key != nil && v.G.Elem.Sort == "Bool" {
				return SVal{T: "(" + ex.u.card(v.G.Key.Sort) + " " + v.T + ")", G: gInt}
			}
			switch t := v.G.Go.Underlying().(type) {
			case *types.Slice:
				return SVal{T: "(sn " + v.T + ")", G: gInt}
			case *types.Basic:
				return SVal{T: "(slen " + v.T + ")", G: gInt}
			case *types.Map:
				d, _ := ex.getMap(env.st, t)
				return SVal{T: "(" + ex.u.card(ex.u.sortOf(t.Key())) + " " + sel(d, v.T) + ")", G: gInt}
			case *types.Array:
				return SVal{T: fmt.Sprint(t.Len()), G: gInt}
			}
			env.fail("len of %v", v.G)
		case "cap":
			v := env.compile(e.Args[0])
			return SVal{T: "(sc " + env.termOf(v) + ")", G: gInt}
		case "dom":
			v := env.compile(e.Args[0])
			m := v.G.Go.Underlying().(*types.Map)
			d, _ := ex.getMap(env.st, m)
			ex.u.card(ex.u.sortOf(m.Key()))
			return SVal{T: sel(d, env.termOf(v)), G: arrType(ex.u.gt(m.Key()), gBool)}
		case "mapvals":
			v := env.compile(e.Args[0])
			m := v.G.Go.Underlying().(*types.Map)
			_, mv := ex.getMap(env.st, m)
			return SVal{T: sel(mv, env.termOf(v)), G: arrType(ex.u.gt(m.Key()), ex.u.gt(m.Elem()))}
		case "elems":
			v := env.compile(e.Args[0])
			sl, ok := v.G.Go.Underlying().(*types.Slice)
			if !ok {
				env.fail("elems of a non-slice")
			}
			h := ex.getHeap(env.st, sl.Elem())
			return SVal{T: sel(h, "(sb "+env.termOf(v)+")"), G: arrType(gInt, ex.u.gt(sl.Elem()))}
		case "heapof": // the store of all cells of a type: base -> index -> value
			t, err := ex.w.goType(exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			g := ex.u.gt(t)
			return SVal{T: ex.getHeap(env.st, t), G: arrType(gInt, arrType(gInt, g))}
		case "base":
			v := env.compile(e.Args[0])
			switch v.G.Sort {
			case "Sl":
				return SVal{T: "(sb " + env.termOf(v) + ")", G: gInt}
			case "Ptr":
				return SVal{T: "(pb " + v.T + ")", G: gInt}
			}
			return SVal{T: v.T, G: gInt}
		case "kept": // in a loop: no cell of the type that existed at the loop's start has changed
			t, err := ex.w.goType(exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			if env.pre == nil {
				env.fail("kept() outside a loop")
			}
			h, h0 := ex.getHeap(env.st, t), ex.getHeap(env.pre, t)
			return SVal{T: "(forall ((kb Int)) (! (=> (< kb " + ex.nextOf(env.pre) + ") (= (select " + h + " kb) (select " + h0 + " kb))) :pattern ((select " + h + " kb))))", G: gBool}
		case "newer": // in a loop: allocated since the loop's start (or nil)
			if env.pre == nil {
				env.fail("newer() outside a loop")
			}
			v := env.compile(e.Args[0])
			nx := ex.nextOf(env.pre)
			t := env.termOf(v)
			switch v.G.Sort {
			case "Ptr":
				t = "(pb " + t + ")"
			case "Sl":
				t = "(sb " + t + ")"
			}
			return SVal{T: "(or (= " + t + " 0) (>= " + t + " " + nx + "))", G: gBool}
		case "fresh":
			v := env.compile(e.Args[0])
			nx := ex.nextOf(env.old)
			switch v.G.Sort {
			case "Ptr":
				return SVal{T: "(>= (pb " + env.termOf(v) + ") " + nx + ")", G: gBool}
			case "Sl":
				t := env.termOf(v)
				return SVal{T: "(>= (sb " + t + ") " + nx + ")", G: gBool}
			}
			return SVal{T: "(>= " + v.T + " " + nx + ")", G: gBool}
		case "freshornil":
			v := env.compile(e.Args[0])
			nx := ex.nextOf(env.old)
			t := env.termOf(v)
			switch v.G.Sort {
			case "Ptr":
				t = "(pb " + t + ")"
			case "Sl":
				t = "(sb " + t + ")"
			}
			return SVal{T: "(or (= " + t + " 0) (>= " + t + " " + nx + "))", G: gBool}
		case "allocated":
			v := env.compile(e.Args[0])
			nx := ex.nextOf(env.st)
			t := env.termOf(v)
			switch v.G.Sort {
			case "Ptr":
				t = "(pb " + t + ")"
			case "Sl":
				t = "(sb " + t + ")"
			}
			return SVal{T: "(and (<= 0 " + t + ") (< " + t + " " + nx + "))", G: gBool}
		case "is":
			v := env.compile(e.Args[0])
			t, err := ex.w.goType(exText(e.Args[1]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			return SVal{T: fmt.Sprintf("(= (tyof %s) %d)", env.termOf(v), ex.u.tag(t)), G: gBool}
		case "emptyset":
			g, err := ex.w.resolveType(ex.u, exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			ex.u.card(g.Sort)
			return SVal{T: ex.u.emptySet(g.Sort), G: arrType(g, gBool)}
		case "zero":
			t, err := ex.w.goType(exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			return SVal{T: ex.u.zero(t), G: ex.u.gt(t)}
		case "mk": // mk(T, fields...)
			t, err := ex.w.goType(exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			si := ex.u.structOf(t)
			var fs []string
			for i, a := range e.Args[1:] {
				fs = append(fs, env.coerce(env.compile(a), ex.u.gt(si.Fields[i].T)))
			}
			return SVal{T: "(" + si.Ctor + " " + strings.Join(fs, " ") + ")", G: ex.u.gt(t)}
		case "ncalls":
			return SVal{T: ex.traceLen(env.st, exText(e.Args[0])), G: gInt}
		case "callarg", "callres":
			nm := exText(e.Args[0])
			j, _ := strconv.Atoi(e.Args[1].S)
			if e.S == "callres" {
				j += traceRes
			}
			k := env.compile(e.Args[2])
			key := fmt.Sprintf("TA:%s:%d", nm, j)
			t := ex.traceTy[key]
			if t == nil {
				t = ex.traceArgType(nm, j)
			}
			if t == nil {
				env.fail("callarg(%s,%d): unknown type", nm, j)
			}
			return SVal{T: sel(ex.traceArg(env.st, nm, j, t), k.T), G: ex.u.gt(t)}
		case "apply":
			f := env.compile(e.Args[0])
			sg := f.G.Go.Underlying().(*types.Signature)
			var ts []string
			for i, a := range e.Args[1:] {
				ts = append(ts, env.coerce(env.compile(a), ex.u.gt(sg.Params().At(i).Type())))
			}
			return SVal{T: "(" + ex.cbUF(sg, 0) + " " + env.termOf(f) + " " + strings.Join(ts, " ") + ")", G: ex.u.gt(sg.Results().At(0).Type())}
		case "min", "max":
			a, b := env.unify(env.compile(e.Args[0]), env.compile(e.Args[1]))
			op := "<="
			if e.S == "max" {
				op = ">="
			}
			g := a.G
			g.Unt = false
			return SVal{T: "(ite (" + op + " " + a.T + " " + b.T + ") " + a.T + " " + b.T + ")", G: g}
		case "runestr": // the UTF-8 encoding of a character
			ex.runestrDecl()
			return SVal{T: "(runestr " + env.compile(e.Args[0]).T + ")", G: gStr}
		case "callargs": // all recorded values of an argument
			nm := exText(e.Args[0])
			j, _ := strconv.Atoi(e.Args[1].S)
			t := ex.traceTy[fmt.Sprintf("TA:%s:%d", nm, j)]
			if t == nil {
				t = ex.traceArgType(nm, j)
			}
			if t == nil {
				env.fail("callargs(%s,%d): unknown type", nm, j)
			}
			return SVal{T: ex.traceArg(env.st, nm, j, t), G: arrType(gInt, ex.u.gt(t))}
		case "runesof":
			ex.runesDecl()
			v := env.compile(e.Args[0])
			return SVal{T: "(runesof " + v.T + ")", G: arrType(gInt, gInt)}
		case "nrunes":
			ex.runesDecl()
			v := env.compile(e.Args[0])
			return SVal{T: "(nrunes " + v.T + ")", G: gInt}
		case "strofrunes", "strofbytes":
			a, n := env.compile(e.Args[0]), env.compile(e.Args[1])
			return SVal{T: "(" + e.S + " " + a.T + " " + n.T + ")", G: gStr}
		case "int", "mathint":
			v := env.compile(e.Args[0])
			if v.G.Sort == "Int" {
				return SVal{T: v.T, G: gInt}
			}
		case "real":
			v := env.compile(e.Args[0])
			switch v.G.Sort {
			case "Int":
				if v.G.Unt {
					return SVal{T: v.T + ".0", G: gReal}
				}
				return SVal{T: "(to_real " + v.T + ")", G: gReal}
			case "F":
				return SVal{T: "(fr " + v.T + ")", G: gReal}
			}
			return v
		case "cast": // cast(T, e): change the static type, same sort
			t, err := ex.w.goType(exText(e.Args[0]), env.pkg, env.imports)
			if err != nil {
				env.fail("%v", err)
			}
			v := env.compile(e.Args[1])
			v.G = ex.u.gt(t)
			return v
		case "isnan":
			v := env.compile(e.Args[0])
			return SVal{T: "(= " + v.T + " fnan)", G: gBool}
		case "finf":
			return SVal{T: "fpinf", G: gF}
		}
		if s, ok := smtFuncs[e.S]; ok {
			if len(e.Args) != len(s.args) {
				env.fail("%s takes %d arguments", e.S, len(s.args))
			}
			var ts []string
			for i, a := range e.Args {
				ts = append(ts, env.coerce(env.compile(a), sortG(s.args[i])))
			}
			return SVal{T: "(" + e.S + " " + strings.Join(ts, " ") + ")", G: s.ret}
		}
		if p, ok := ex.w.specs.Preds[e.S]; ok {
			return env.pred(p, e.Args)
		}
		if p, ok := ex.w.specs.UFs[e.S]; ok {
			return env.uf(p, e.Args)
		}
		// pure Go function of this package
		key := env.pkg + "." + e.S
		if fs, ok := ex.w.specs.Funcs[key]; ok && fs.Pure {
			return env.pureCall(fs, key, e.Args)
		}
		env.fail("unknown function %s", e.S)
	}
	// mcall: pkg.Func(args) or x.Method(args)
	if id := e.Args[0]; id.Op == "ident" {
		if p, ok := env.imports[id.S]; ok {
			key := p + "." + e.S
			if fs, ok := ex.w.specs.Funcs[key]; ok && fs.Pure {
				return env.pureCall(fs, key, e.Args[1:])
			}
			env.fail("%s.%s is not a pure function with a contract", id.S, e.S)
		}
	}
	v := env.compile(e.Args[0])
	if v.G.Go != nil {
		var keys []string
		if p, ok := v.G.Go.(*types.Pointer); ok {
			keys = append(keys, "(*"+typeKey(p.Elem())+")."+e.S)
		}
		keys = append(keys, "("+typeKey(v.G.Go)+")."+e.S)
		for _, key := range keys {
			if fs, ok := ex.w.specs.Funcs[key]; ok && fs.Pure {
				return env.pureCallV(fs, key, append([]SVal{v}, env.compileAll(e.Args[1:])...))
			}
		}
	}
	env.fail("unknown method %s", e.S)
	return SVal{}
}

func (env *Env) compileAll(es []*Ex) []SVal {
	var out []SVal
	for _, e := range es {
		out = append(out, env.compile(e))
	}
	return out
}

func (env *Env) pureCall(fs *FuncSpec, key string, args []*Ex) SVal {
	return env.pureCallV(fs, key, env.compileAll(args))
}

func (env *Env) pureCallV(fs *FuncSpec, key string, vs []SVal) SVal {
	ex := env.ex
	sg := ex.w.sigOf(key)
	if sg == nil {
		env.fail("no signature for %s", key)
	}
	n := ex.pureUF(key, sg, 0)
	var ts []string
	i0 := 0
	if sg.Recv() != nil {
		i0 = 1
		ts = append(ts, env.termOf(vs[0]))
	}
	for i := i0; i < len(vs); i++ {
		ts = append(ts, env.coerce(vs[i], ex.u.gt(sg.Params().At(i-i0).Type())))
	}
	t := n
	if len(ts) > 0 {
		t = "(" + n + " " + strings.Join(ts, " ") + ")"
	}
	return SVal{T: t, G: ex.u.gt(sg.Results().At(0).Type())}
}

func exText(e *Ex) string {
	switch e.Op {
	case "ident", "int", "str":
		return e.S
	case "field":
		return exText(e.Args[0]) + "." + e.S
	case "un":
		return e.S + exText(e.Args[0])
	case "paren":
		return exText(e.Args[0])
	case "substr":
		hi := ""
		if len(e.Args) > 2 {
			hi = exText(e.Args[2])
		}
		return exText(e.Args[0]) + "[" + exText(e.Args[1]) + ":" + hi + "]"
	case "index":
		return exText(e.Args[0]) + "[" + exText(e.Args[1]) + "]"
	}
	return "?"
}

func (env *Env) pred(p *PredSpec, args []*Ex) SVal {
	ex := env.ex
	if len(args) != len(p.Params) {
		env.fail("%s takes %d arguments", p.Name, len(p.Params))
	}
	if env.depth > 40 {
		env.fail("recursive predicate %s", p.Name)
	}
	n := &Env{ex: ex, st: env.st, old: env.old, pre: env.pre, head: env.head, vars: map[string]SVal{}, pkg: p.Pkg, imports: p.Imports, depth: env.depth + 1, where: env.where + " in " + p.Name}
	for i, a := range args {
		v := env.compile(a)
		gt, err := ex.w.resolveType(ex.u, p.Params[i].Type, p.Pkg, p.Imports)
		if err != nil {
			env.fail("%s: %v", p.Name, err)
		}
		if v.V != nil && v.T == "" {
			n.vars[p.Params[i].Name] = v
			continue
		}
		n.vars[p.Params[i].Name] = SVal{T: env.coerce(v, gt), G: gt}
	}
	return n.compile(p.Body)
}

func (env *Env) uf(p *PredSpec, args []*Ex) SVal {
	ex := env.ex
	if len(args) != len(p.Params) {
		env.fail("%s takes %d arguments", p.Name, len(p.Params))
	}
	gs, ret := ex.ufSig(p)
	var ts []string
	for i, a := range args {
		ts = append(ts, env.coerce(env.compile(a), gs[i]))
	}
	if len(ts) == 0 {
		return SVal{T: p.Name, G: ret}
	}
	return SVal{T: "(" + p.Name + " " + strings.Join(ts, " ") + ")", G: ret}
}

func (ex *Exec) ufSig(p *PredSpec) ([]GType, GType) {
	var gs []GType
	var ss []string
	for _, q := range p.Params {
		gt, err := ex.w.resolveType(ex.u, q.Type, p.Pkg, p.Imports)
		if err != nil {
			panic(specErr(p.Name + ": " + err.Error()))
		}
		gs = append(gs, gt)
		ss = append(ss, gt.Sort)
	}
	ret, err := ex.w.resolveType(ex.u, p.Ret, p.Pkg, p.Imports)
	if err != nil {
		panic(specErr(p.Name + ": " + err.Error()))
	}
	if !ex.usedUF[p.Name] {
		ex.usedUF[p.Name] = true
		ex.u.decl("uf:"+p.Name, "(declare-fun "+p.Name+" ("+strings.Join(ss, " ")+") "+ret.Sort+")")
		if ret.Go != nil && len(ss) > 0 {
			if lo, hi, ok := intRange(ret.Go); ok && lo == "0" {
				var bs, as string
				for i, so := range ss {
					bs += fmt.Sprintf("(a%d %s)", i, so)
					as += fmt.Sprintf(" a%d", i)
				}
				t := "(" + p.Name + as + ")"
				ex.u.decl("ufr:"+p.Name, "(assert (forall ("+bs+") (! (and (<= 0 "+t+") (<= "+t+" "+hi+")) :pattern ("+t+"))))")
			}
		}
	}
	return gs, ret
}

// sigOf finds the Go signature of a function key.
func (w *World) sigOf(key string) *types.Signature {
	if f, ok := w.funcs[key]; ok {
		return f.Signature
	}
	recv, name := "", key
	ptr := false
	if strings.HasPrefix(key, "(") {
		i := strings.Index(key, ")")
		recv, name = key[1:i], key[i+2:]
		if strings.HasPrefix(recv, "*") {
			ptr = true
			recv = recv[1:]
		}
		t, err := w.goType(recv, "", nil)
		if err != nil {
			return nil
		}
		if ptr {
			t = types.NewPointer(t)
		}
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
		if o == nil {
			if n, ok := t.(*types.Named); ok {
				o, _, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
			}
		}
		if f, ok := o.(*types.Func); ok {
			return f.Type().(*types.Signature)
		}
		return nil
	}
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return nil
	}
	p := w.tpkgs[key[:i]]
	if p == nil {
		return nil
	}
	if f, ok := p.Scope().Lookup(key[i+1:]).(*types.Func); ok {
		return f.Type().(*types.Signature)
	}
	return nil
}

// traceArgType: type of the j-th recorded argument of a traced callee.
func (ex *Exec) traceArgType(name string, j int) types.Type {
	for _, c := range ex.w.specs.Chans {
		if c.T != nil && (name == c.Name+"_recv" || name == c.Name+"_send") {
			if j == 0 {
				return types.NewChan(types.SendRecv, c.T)
			}
			return c.T
		}
	}
	for _, fs := range ex.w.specs.Funcs {
		if fs.Traced == name {
			sg := ex.w.sigOf(fs.Key)
			if sg == nil {
				continue
			}
			if sg.Recv() != nil {
				if j == 0 {
					return sg.Recv().Type()
				}
				j--
			}
			if j < sg.Params().Len() {
				return sg.Params().At(j).Type()
			}
		}
	}
	// a parameter or field of function type
	var fns []*ssa.Function
	for f := ex.top; f != nil; f = f.parent {
		fns = append(fns, f.fn)
	}
	// or of a function called by contract
	for _, k := range sortedKeys(ex.usedSpecs) {
		if fn := ex.w.funcs[k]; fn != nil {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		for _, p := range fn.Params {
			if p.Name() == name {
				if sg, ok := p.Type().Underlying().(*types.Signature); ok {
					if j >= traceRes && j-traceRes < sg.Results().Len() {
						return sg.Results().At(j - traceRes).Type()
					}
					if j < sg.Params().Len() {
						return sg.Params().At(j).Type()
					}
				}
			}
		}
	}
	return nil
}

var ordRe = regexp.MustCompile(`#\d+`)

// ---- loop invariants ----

func (ex *Exec) loopSpec(f *Frame, l *Loop) (*LoopSpec, *FuncSpec) {
	// by the path from the function under verification
	if f != ex.top && ex.fspec != nil {
		k := fmt.Sprintf("%s.%d", f.path, l.ord)
		if ls, ok := ex.fspec.Loops[k]; ok {
			return ls, ex.fspec
		}
		if ls, ok := ex.fspec.Loops[ordRe.ReplaceAllString(k, "")]; ok {
			return ls, ex.fspec
		}
	}
	if f == ex.top && ex.fspec != nil {
		if ls, ok := ex.fspec.Loops[fmt.Sprint(l.ord)]; ok {
			return ls, ex.fspec
		}
	}
	if f.spec != nil && f != ex.top {
		if ls, ok := f.spec.Loops[fmt.Sprint(l.ord)]; ok {
			return ls, f.spec
		}
	}
	return nil, nil
}

func (ex *Exec) loopInvs(f *Frame, l *Loop, st *State, reach, kind string, isAssert bool) {
	// automatic invariants
	for _, c := range ex.autoInvs(f, l, st) {
		if isAssert {
			ex.assert(kind, fmt.Sprintf("%sloop%d/auto", pathPfx(f), l.ord), l.header.Instrs[0].Pos(), reach, c)
		} else {
			ex.assume(reach, c)
		}
	}
	ls, fs := ex.loopSpec(f, l)
	if ls == nil {
		return
	}
	env := ex.frameEnv(f, st, l)
	env.pkg, env.imports = fs.Pkg, fs.Imports
	if !isAssert {
		for _, u := range ls.Use {
			ex.useHint(env, u, reach)
		}
	} else if kind == "inv-preserve" {
		for _, u := range ls.Use {
			ex.useHint(env, u, reach)
		}
	}
	for i, c := range ls.Inv {
		if c.Kind == "assert" && kind != "inv-preserve" {
			continue // an intermediate fact of one iteration
		}
		cond := ex.compileBool(env, c)
		if isAssert {
			ex.assertClause(kind, fmt.Sprintf("%sloop%d/%d", pathPfx(f), l.ord, i+1), blockPos(l.header), reach, cond, c)
		} else {
			ex.assumeClause(reach, cond, c)
		}
	}
	if len(ls.Dec) > 0 {
		k := fmt.Sprintf("%d:%d", f.id, l.ord)
		env.where = ls.Dec[0].Where
		m := env.compile(ls.Dec[0].E).T
		if !isAssert {
			ex.decVal[k] = ex.def("dec", "Int", m)
		} else if kind == "inv-preserve" {
			o := ex.assert("decreases", fmt.Sprintf("%sloop%d", pathPfx(f), l.ord), blockPos(l.header), reach, and("(< "+m+" "+ex.decVal[k]+")", "(<= 0 "+ex.decVal[k]+")"))
			if o != nil {
				o.Desc = ls.Dec[0].Text
				o.Props = ls.Dec[0].Props
			}
		}
	}
}

func pathPfx(f *Frame) string {
	if f.path == "" {
		return ""
	}
	return f.path + "."
}

// autoInvs: facts about range loops that always hold.
func (ex *Exec) autoInvs(f *Frame, l *Loop, st *State) []string {
	var out []string
	for _, ins := range l.header.Instrs {
		if s, ok := ins.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				fv, ok := f.vals[a]
				if !ok {
					continue
				}
				v := st.vars[fv.Addr.Cell].T
				out = append(out, "(<= (- 1) "+v+")")
				// bound: the length computed before the loop
				for _, j := range l.header.Instrs {
					if b, ok := j.(*ssa.BinOp); ok && b.Op.String() == "<" {
						if n, ok := f.vals[b.Y]; ok && n.T != "" {
							out = append(out, "(or (< "+v+" "+n.T+") (= "+v+" (- 1)))")
						}
					}
				}
			}
		}
		if n, ok := ins.(*ssa.Next); ok {
			rv, ok := f.vals[n.Iter]
			if !ok || rv.Iter == nil {
				continue
			}
			it := rv.Iter
			if it.IsStr {
				p := st.vars[it.Key].T
				s := it.Str.T
				if s != "" {
					out = append(out, "(<= 0 "+p+")", "(<= "+p+" (slen "+s+"))")
				}
				continue
			}
			if v, ok := st.vars[it.Key]; ok {
				m := it.Map.Ty.Underlying().(*types.Map)
				ks := ex.u.sortOf(m.Key())
				c := ex.u.card(ks)
				out = append(out, "(fin"+c[4:]+" "+v.T+")")
			}
		}
	}
	return out
}

func (ex *Exec) useHint(env *Env, c Clause, reach string) {
	e := c.E
	env.where = c.Where
	if e.Op == "call" && e.S == "unfold" {
		call := e.Args[0]
		p := ex.w.specs.UFs[call.S]
		if p == nil || p.Body == nil {
			env.fail("unfold of %s", call.S)
		}
		ex.assumeClause(reach, env.unfold(p, call.Args), c)
		return
	}
	if e.Op == "forall" {
		n := env.clone()
		n.hint = true
		ex.assumeClause(reach, n.bool(e), c)
		return
	}
	l := ex.w.specs.Lemmas[e.S]
	if l == nil || e.Op != "call" {
		// a term mentioned to trigger instantiation
		v := env.compile(e)
		if v.G.Sort == "Bool" {
			ex.emit("(assert (or " + v.T + " (not " + v.T + ")))")
		} else if v.T != "" && v.G.Sort != "" {
			t := ex.konst("trig", v.G.Sort)
			ex.emit("(assert (= " + t + " " + v.T + "))")
		}
		return
	}
	ex.assumeClause(reach, env.lemmaInst(e), c)
}

// lemmaInst is the instance of a lemma at explicit arguments.
func (env *Env) lemmaInst(e *Ex) string {
	ex := env.ex
	l := ex.w.specs.Lemmas[e.S]
	if ex.lemma != nil && l.Ord >= ex.lemma.Ord {
		env.fail("lemma %s is not declared before the lemma that uses it", e.S)
	}
	ex.usedLemmas[e.S] = true
	n := &Env{ex: ex, st: env.st, old: env.old, vars: map[string]SVal{}, pkg: l.Pkg, imports: l.Imports, where: env.where + " use " + e.S}
	if len(e.Args) != len(l.Params) {
		env.fail("lemma %s takes %d arguments", e.S, len(l.Params))
	}
	for i, a := range e.Args {
		v := env.compile(a)
		gt, err := ex.w.resolveType(ex.u, l.Params[i].Type, l.Pkg, l.Imports)
		if err != nil {
			env.fail("%v", err)
		}
		n.vars[l.Params[i].Name] = SVal{T: env.coerce(v, gt), G: gt}
	}
	var rs, es []string
	for _, r := range l.Requires {
		rs = append(rs, ex.compileBool(n, r))
	}
	for _, r := range l.Ensures {
		es = append(es, ex.compileBool(n, r))
	}
	return implies(and(rs...), and(es...))
}

// unfold states the defining equation of a recursive predicate at the given arguments.
func (env *Env) unfold(p *PredSpec, args []*Ex) string {
	ex := env.ex
	gs, ret := ex.ufSig(p)
	n := &Env{ex: ex, st: env.st, old: env.old, vars: map[string]SVal{}, pkg: p.Pkg, imports: p.Imports, where: env.where}
	var ts []string
	for i, a := range args {
		t := env.coerce(env.compile(a), gs[i])
		ts = append(ts, t)
		n.vars[p.Params[i].Name] = SVal{T: t, G: gs[i]}
	}
	b := n.compile(p.Body)
	return "(= (" + p.Name + " " + strings.Join(ts, " ") + ") " + n.coerce(b, ret) + ")"
}
