package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cellable: the variable's address never becomes a value, so it can be a
// program variable of the symbolic state instead of a heap object.
func cellable(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !cellable(x, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !cellable(x, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !cellable(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		case *ssa.Call:
			if c := x.Common(); c.IsInvoke() || c.StaticCallee() == nil || len(c.Args) == 0 || c.Args[0] != v || c.Signature().Recv() == nil {
				return false
			}
			for _, a := range x.Common().Args[1:] {
				if a == v {
					return false
				}
			}
		case *ssa.Defer:
			if c := x.Common(); c.IsInvoke() || c.StaticCallee() == nil || len(c.Args) == 0 || c.Args[0] != v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (ex *Exec) instr(f *Frame, b *ssa.BasicBlock, st *State, reach *string, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if cellable(x, 0) {
			k := fmt.Sprintf("C:%d:%s", f.id, x.Name())
			st.vars[k] = Val{T: ex.u.zero(t), Ty: t}
			ex.cellNames[k] = x.Comment
			f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{Cell: k, Ty: t}}
			return true
		}
		bs := ex.alloc(st, *reach)
		if at, ok := t.Underlying().(*types.Array); ok {
			h := ex.getHeap(st, at.Elem())
			so := "(Array Int (Array Int " + ex.u.sortOf(at.Elem()) + "))"
			st.vars[ex.heapKey(at.Elem())] = Val{T: ex.def("E", so, store(h, bs, ex.u.zeroArr(at.Elem())))}
			f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{Heap: at.Elem(), Base: bs, Arr: true, Ty: t}, Len: fmt.Sprint(at.Len())}
			return true
		}
		h := ex.getHeap(st, t)
		so := ex.u.sortOf(t)
		st.vars[ex.heapKey(t)] = Val{T: ex.def("E", "(Array Int (Array Int "+so+"))", store(h, bs, store(sel(h, bs), "0", ex.u.zero(t))))}
		f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{Heap: t, Base: bs, Idx: "0", Ty: t}}
	case *ssa.Store:
		a := ex.addrOf(ex.val(f, st, x.Addr), *reach, x.Pos())
		ex.storeTo(st, *reach, a, ex.val(f, st, x.Val), x.Pos())
	case *ssa.UnOp:
		return ex.unop(f, st, reach, x)
	case *ssa.BinOp:
		f.vals[x] = ex.binop(st, *reach, x, ex.val(f, st, x.X), ex.val(f, st, x.Y))
	case *ssa.FieldAddr:
		a := *ex.addrOf(ex.val(f, st, x.X), *reach, x.Pos())
		if a.Cell == "" && len(a.Path) == 0 {
			ex.nilCheck(*reach, &a, x.Pos())
		}
		stt := a.Ty
		si := ex.u.structOf(stt)
		ft := stt.Underlying().(*types.Struct).Field(x.Field).Type()
		a.Path = append(append([]PathEl{}, a.Path...), PathEl{Field: x.Field, S: si, Ty: ft})
		a.Ty = ft
		f.vals[x] = Val{Ty: x.Type(), Addr: &a}
	case *ssa.Field:
		v := ex.val(f, st, x.X)
		si := ex.u.structOf(v.Ty)
		if si.Opaque {
			panic(unsupported("field of opaque struct"))
		}
		f.vals[x] = Val{T: ex.def("fl", ex.u.sortOf(x.Type()), "("+si.Fields[x.Field].Acc+" "+ex.term(st, *reach, v)+")"), Ty: x.Type()}
	case *ssa.IndexAddr:
		v := ex.val(f, st, x.X)
		i := ex.term(st, *reach, ex.val(f, st, x.Index))
		switch tt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			ex.guardTag(st, *reach, v.Guard, false, x.Pos())
			n := ex.lenOf(st, *reach, v)
			ex.assert("bounds", "index", x.Pos(), *reach, and("(<= 0 "+i+")", "(< "+i+" "+n+")"))
			var base, idx string
			if v.View != nil {
				base = "(sb " + ex.term(st, *reach, v.View.Base) + ")"
				idx = ex.def("ix", "Int", "(+ "+v.View.Off+" "+i+")")
			} else {
				base, idx = "(sb "+ex.term(st, *reach, v)+")", i
			}
			f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{Heap: tt.Elem(), Base: base, Idx: idx, Ty: tt.Elem()}}
		case *types.Pointer:
			at := tt.Elem().Underlying().(*types.Array)
			a := *ex.addrOf(v, *reach, x.Pos())
			ex.assert("bounds", "index", x.Pos(), *reach, and("(<= 0 "+i+")", fmt.Sprintf("(< %s %d)", i, at.Len())))
			if a.Arr && len(a.Path) == 0 {
				f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{Heap: at.Elem(), Base: a.Base, Idx: i, Ty: at.Elem()}}
				return true
			}
			a.Path = append(append([]PathEl{}, a.Path...), PathEl{Index: i, Ty: at.Elem()})
			if a.Cell != "" && strings.HasPrefix(a.Cell, "GV:") {
				if _, ok := st.vars[a.Cell]; !ok {
					root := a
					root.Path = nil
					root.Ty = tt.Elem()
					if len(a.Path) == 1 {
						ex.rootVal(st, &root)
					}
				}
			}
			a.Ty = at.Elem()
			f.vals[x] = Val{Ty: x.Type(), Addr: &a}
		default:
			panic(unsupported("IndexAddr " + x.X.Type().String()))
		}
	case *ssa.Index:
		v := ex.val(f, st, x.X)
		i := ex.term(st, *reach, ex.val(f, st, x.Index))
		switch tt := x.X.Type().Underlying().(type) {
		case *types.Array:
			ex.assert("bounds", "index", x.Pos(), *reach, and("(<= 0 "+i+")", fmt.Sprintf("(< %s %d)", i, tt.Len())))
			f.vals[x] = Val{T: ex.def("ix", ex.u.sortOf(x.Type()), sel(ex.term(st, *reach, v), i)), Ty: x.Type()}
		case *types.Basic:
			s := ex.term(st, *reach, v)
			ex.assert("bounds", "string index", x.Pos(), *reach, and("(<= 0 "+i+")", "(< "+i+" (slen "+s+"))"))
			f.vals[x] = Val{T: ex.def("ix", "Int", "(sbyte "+s+" "+i+")"), Ty: x.Type()}
		default:
			panic(unsupported("Index"))
		}
	case *ssa.Lookup:
		v := ex.val(f, st, x.X)
		i := ex.term(st, *reach, ex.val(f, st, x.Index))
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			ex.guardTag(st, *reach, v.Guard, false, x.Pos())
			d, mv := ex.getMap(st, m)
			r := ex.term(st, *reach, v)
			in := ex.def("has", "Bool", sel(sel(d, r), i))
			val := ex.def("lk", ex.u.sortOf(m.Elem()), "(ite "+in+" "+sel(sel(mv, r), i)+" "+ex.u.zero(m.Elem())+")")
			ex.facts(*reach, st, val, m.Elem())
			rv := Val{T: val, Ty: m.Elem()}
			switch m.Elem().Underlying().(type) {
			case *types.Map, *types.Slice:
				rv.Guard = v.Guard
			}
			if x.CommaOk {
				f.vals[x] = Val{Ty: x.Type(), Tup: []Val{rv, {T: in, Ty: types.Typ[types.Bool]}}}
			} else {
				f.vals[x] = rv
			}
			return true
		}
		s := ex.term(st, *reach, v)
		ex.assert("bounds", "string index", x.Pos(), *reach, and("(<= 0 "+i+")", "(< "+i+" (slen "+s+"))"))
		f.vals[x] = Val{T: ex.def("ix", "Int", "(sbyte "+s+" "+i+")"), Ty: x.Type()}
	case *ssa.MapUpdate:
		v := ex.val(f, st, x.Map)
		m := x.Map.Type().Underlying().(*types.Map)
		ex.guardTag(st, *reach, v.Guard, true, x.Pos())
		r := ex.term(st, *reach, v)
		k := ex.term(st, *reach, ex.val(f, st, x.Key))
		val := ex.term(st, *reach, ex.val(f, st, x.Value))
		ex.assert("nil", "assignment to entry in nil map", x.Pos(), *reach, not(eq(r, "0")))
		dk, vk := ex.mapKeys(m)
		ex.writeCheckKey(*reach, dk, r, "", "", x.Pos())
		d, mv := ex.getMap(st, m)
		ks, vs := ex.u.sortOf(m.Key()), ex.u.sortOf(m.Elem())
		st.vars[dk] = Val{T: ex.def("MD", "(Array Int (Array "+ks+" Bool))", store(d, r, store(sel(d, r), k, "true")))}
		st.vars[vk] = Val{T: ex.def("MV", "(Array Int (Array "+ks+" "+vs+"))", store(mv, r, store(sel(mv, r), k, val)))}
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		r := ex.alloc(st, *reach)
		d, _ := ex.getMap(st, m)
		dk, _ := ex.mapKeys(m)
		ks := ex.u.sortOf(m.Key())
		ex.u.card(ks)
		st.vars[dk] = Val{T: ex.def("MD", "(Array Int (Array "+ks+" Bool))", store(d, r, ex.u.emptySet(ks)))}
		f.vals[x] = Val{T: r, Ty: x.Type()}
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := ex.term(st, *reach, ex.val(f, st, x.Len))
		c := ex.term(st, *reach, ex.val(f, st, x.Cap))
		ex.assert("bounds", "make slice length", x.Pos(), *reach, and("(<= 0 "+n+")", "(<= "+n+" "+c+")"))
		f.vals[x] = Val{T: ex.newSlice(st, *reach, el, ex.u.zeroArr(el), n, c), Ty: x.Type()}
	case *ssa.MakeChan:
		f.vals[x] = Val{T: ex.alloc(st, *reach), Ty: x.Type()}
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function), Frame: f}
		for _, bd := range x.Bindings {
			c.Binds = append(c.Binds, ex.val(f, st, bd))
		}
		f.vals[x] = Val{Ty: x.Type(), Clo: c}
	case *ssa.MakeInterface:
		f.vals[x] = ex.box(st, *reach, ex.val(f, st, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		v := ex.val(f, st, x.X)
		v.Ty = x.Type()
		f.vals[x] = v
	case *ssa.ChangeType:
		f.vals[x] = ex.changeType(st, *reach, ex.val(f, st, x.X), x.Type())
	case *ssa.Convert:
		f.vals[x] = ex.convert(st, *reach, ex.val(f, st, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		f.vals[x] = ex.typeAssert(st, *reach, x, ex.val(f, st, x.X))
	case *ssa.Extract:
		v := ex.val(f, st, x.Tuple)
		if x.Index >= len(v.Tup) {
			panic(unsupported("extract of non-tuple"))
		}
		f.vals[x] = v.Tup[x.Index]
	case *ssa.Slice:
		f.vals[x] = ex.slice(f, st, *reach, x)
	case *ssa.Range:
		ex.rangeStart(f, st, *reach, x)
	case *ssa.Next:
		ex.next(f, st, *reach, x)
	case *ssa.Call:
		v, ok := ex.call(f, st, reach, x.Common(), x, nil, nil)
		if !ok {
			return false
		}
		v.Ty = x.Type()
		f.vals[x] = v
	case *ssa.Defer:
		d := deferred{block: b, call: x}
		c := x.Common()
		for _, a := range c.Args {
			d.args = append(d.args, ex.val(f, st, a))
		}
		if c.IsInvoke() || c.StaticCallee() == nil {
			d.fnv = ex.val(f, st, c.Value)
		} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			d.fnv = ex.val(f, st, mc)
		}
		// replace when re-executed
		for i := range f.defers {
			if f.defers[i].call == x {
				f.defers[i] = d
				return true
			}
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			if !d.block.Dominates(b) {
				if blockReaches(d.block, b) {
					panic(unsupported("conditional defer"))
				}
				continue
			}
			for _, l := range f.loops {
				if l.body[d.block] {
					panic(unsupported("defer in a loop"))
				}
			}
			c := d.call.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				ex.note("close of a channel is not modelled")
				continue
			}
			fv := d.fnv
			if _, ok := ex.call(f, st, reach, c, d.call, d.args, &fv); !ok {
				return false
			}
		}
	case *ssa.Send:
		ex.chanSend(f, st, *reach, ex.val(f, st, x.Chan), ex.val(f, st, x.X), x.Pos())
	case *ssa.Select:
		f.vals[x] = ex.selectOp(f, st, *reach, x)
	case *ssa.Go:
		panic(unsupported(fmt.Sprintf("concurrency instruction %T", ins)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return true
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(a)
}

func (ex *Exec) lenOf(st *State, reach string, v Val) string {
	if v.View != nil {
		return v.View.Len
	}
	return "(sn " + ex.term(st, reach, v) + ")"
}

func (ex *Exec) newSlice(st *State, reach string, el types.Type, arr, n, c string) string {
	b := ex.alloc(st, reach)
	h := ex.getHeap(st, el)
	st.vars[ex.heapKey(el)] = Val{T: ex.def("E", "(Array Int (Array Int "+ex.u.sortOf(el)+"))", store(h, b, arr))}
	return ex.mkslice(b, n, c)
}

func (ex *Exec) box(st *State, reach string, v Val, from, to types.Type) Val {
	if _, ok := from.Underlying().(*types.Interface); ok {
		v.Ty = to
		return v
	}
	tg := ex.u.tag(from)
	return Val{T: ex.def("any", "Any", fmt.Sprintf("(box_%d %s)", tg, ex.term(st, reach, v))), Ty: to}
}

func (ex *Exec) changeType(st *State, reach string, v Val, to types.Type) Val {
	if _, ok := to.Underlying().(*types.Struct); ok {
		a, b := ex.u.structOf(v.Ty), ex.u.structOf(to)
		if a != b {
			if a.Opaque || b.Opaque {
				panic(unsupported("conversion of opaque struct"))
			}
			t := ex.term(st, reach, v)
			var fs []string
			for i := range a.Fields {
				fs = append(fs, "("+a.Fields[i].Acc+" "+t+")")
			}
			return Val{T: ex.def("cv", b.Name, "("+b.Ctor+" "+strings.Join(fs, " ")+")"), Ty: to}
		}
	}
	if s, ok := to.Underlying().(*types.Slice); ok {
		if f, ok := v.Ty.Underlying().(*types.Slice); ok && typeKey(s.Elem()) != typeKey(f.Elem()) {
			panic(unsupported("slice conversion"))
		}
	}
	v.Ty = to
	return v
}

func (ex *Exec) typeAssert(st *State, reach string, x *ssa.TypeAssert, v Val) Val {
	t := ex.term(st, reach, v)
	bt := types.Typ[types.Bool]
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		fn := "impl_" + mangle(x.AssertedType)
		ex.u.decl(fn, "(declare-fun "+fn+" (Int) Bool)\n(assert (not ("+fn+" 0)))")
		ok := "(" + fn + " (tyof " + t + "))"
		if x.CommaOk {
			ok = ex.def("ok", "Bool", ok)
			return Val{Ty: x.Type(), Tup: []Val{{T: ex.def("ta", "Any", "(ite "+ok+" "+t+" anynil)"), Ty: x.AssertedType}, {T: ok, Ty: bt}}}
		}
		ex.assert("typeassert", "interface conversion", x.Pos(), reach, ok)
		return Val{T: t, Ty: x.AssertedType}
	}
	tg := ex.u.tag(x.AssertedType)
	ok := ex.def("ok", "Bool", fmt.Sprintf("(= (tyof %s) %d)", t, tg))
	un := fmt.Sprintf("(unbox_%d %s)", tg, t)
	so := ex.u.sortOf(x.AssertedType)
	if x.CommaOk {
		r := ex.def("ta", so, "(ite "+ok+" "+un+" "+ex.u.zero(x.AssertedType)+")")
		ex.facts(reach, st, r, x.AssertedType)
		return Val{Ty: x.Type(), Tup: []Val{{T: r, Ty: x.AssertedType}, {T: ok, Ty: bt}}}
	}
	ex.assert("typeassert", "type "+x.AssertedType.String(), x.Pos(), reach, ok)
	r := ex.def("ta", so, un)
	ex.facts(reach, st, r, x.AssertedType)
	return Val{T: r, Ty: x.AssertedType}
}

func (ex *Exec) slice(f *Frame, st *State, reach string, x *ssa.Slice) Val {
	v := ex.val(f, st, x.X)
	opt := func(s ssa.Value) string {
		if s == nil {
			return ""
		}
		return ex.term(st, reach, ex.val(f, st, s))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == "" {
		lo = "0"
	}
	if mx != "" {
		panic(unsupported("three-index slice"))
	}
	switch tt := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := ex.term(st, reach, v)
		if hi == "" {
			hi = "(slen " + s + ")"
		}
		ex.assert("bounds", "string slice", x.Pos(), reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (slen "+s+"))"))
		return Val{T: ex.def("ss", "Str", "(ssub "+s+" "+lo+" "+hi+")"), Ty: x.Type()}
	case *types.Slice:
		ex.guardTag(st, reach, v.Guard, false, x.Pos())
		if v.View != nil {
			if hi == "" {
				hi = v.View.Len
			}
			bt := ex.term(st, reach, v.View.Base)
			ex.assert("bounds", "slice", x.Pos(), reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= (+ "+v.View.Off+" "+hi+") (sc "+bt+"))"))
			off := ex.def("of", "Int", "(+ "+v.View.Off+" "+lo+")")
			return Val{Ty: x.Type(), View: &View{Base: v.View.Base, Off: off, Len: ex.def("ln", "Int", "(- "+hi+" "+lo+")")}, Guard: v.Guard}
		}
		s := ex.term(st, reach, v)
		if hi == "" {
			hi = "(sn " + s + ")"
		}
		ex.assert("bounds", "slice", x.Pos(), reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (sc "+s+"))"))
		if lo == "0" {
			return Val{T: ex.mkslice("(sb "+s+")", hi, "(sc "+s+")"), Ty: x.Type(), Guard: v.Guard}
		}
		return Val{Ty: x.Type(), View: &View{Base: Val{T: s, Ty: v.Ty}, Off: lo, Len: ex.def("ln", "Int", "(- "+hi+" "+lo+")")}, Guard: v.Guard}
	case *types.Pointer:
		at := tt.Elem().Underlying().(*types.Array)
		a := ex.addrOf(v, reach, x.Pos())
		if !a.Arr || len(a.Path) > 0 {
			panic(unsupported("slice of a non-heap array"))
		}
		n := fmt.Sprint(at.Len())
		if hi == "" {
			hi = n
		}
		ex.assert("bounds", "slice", x.Pos(), reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+n+")"))
		s := Val{T: ex.mkslice(a.Base, hi, n), Ty: x.Type()}
		if lo == "0" {
			if hi == n && at.Len() > 0 {
				s.Len = n
			}
			return s
		}
		return Val{Ty: x.Type(), View: &View{Base: s, Off: lo, Len: ex.def("ln", "Int", "(- "+hi+" "+lo+")")}}
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (ex *Exec) rangeStart(f *Frame, st *State, reach string, x *ssa.Range) {
	v := ex.val(f, st, x.X)
	k := fmt.Sprintf("VIS:%d:%s", f.id, x.Name())
	it := &Iter{Key: k}
	if m, ok := x.X.Type().Underlying().(*types.Map); ok {
		ex.guardTag(st, reach, v.Guard, false, x.Pos())
		it.Map = v
		ks := ex.u.sortOf(m.Key())
		ex.u.card(ks)
		ex.ghostSort[k] = "(Array " + ks + " Bool)"
		st.vars[k] = Val{T: ex.u.emptySet(ks)}
		d, _ := ex.getMap(st, m)
		it.Dom0 = ex.def("dom0", "(Array "+ks+" Bool)", sel(d, ex.term(st, reach, v)))
	} else {
		it.Str = v
		it.IsStr = true
		ex.ghostSort[k] = "Int"
		st.vars[k] = Val{T: "0"}
	}
	f.vals[x] = Val{Ty: x.Type(), Iter: it}
}

func (ex *Exec) next(f *Frame, st *State, reach string, x *ssa.Next) {
	rv := ex.val(f, st, x.Iter)
	it := rv.Iter
	tup := x.Type().(*types.Tuple)
	bt := types.Typ[types.Bool]
	cur := st.vars[it.Key].T
	if it.IsStr {
		s := ex.term(st, reach, it.Str)
		ok := ex.def("ok", "Bool", "(< "+cur+" (slen "+s+"))")
		r := ex.def("rn", "Int", "(runeat "+s+" "+cur+")")
		ex.assume("true", fmt.Sprintf("(=> %s (and (<= (+ %s (runew %s %s)) (slen %s)) (<= 0 %s)))", ok, cur, s, cur, s, r))
		f.vals[x] = Val{Ty: x.Type(), Tup: []Val{{T: ok, Ty: bt}, {T: cur, Ty: types.Typ[types.Int]}, {T: r, Ty: types.Typ[types.Rune]}}}
		st.vars[it.Key] = Val{T: ex.def("pos", "Int", fmt.Sprintf("(ite %s (+ %s (runew %s %s)) %s)", ok, cur, s, cur, cur))}
		return
	}
	m := it.Map.Ty.Underlying().(*types.Map)
	ex.guardTag(st, reach, it.Map.Guard, false, x.Pos())
	ks := ex.u.sortOf(m.Key())
	d, mv := ex.getMap(st, m)
	r := ex.term(st, reach, it.Map)
	dom := ex.def("dm", "(Array "+ks+" Bool)", sel(d, r))
	ok := ex.konst("ok", "Bool")
	k := ex.konst("k", ks)
	ex.assume(reach, implies(ok, and(sel(dom, k), not(sel(cur, k)))))
	ex.assume(reach, fmt.Sprintf("(=> (not %s) (forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)))))", ok, ks, it.Dom0, dom, cur, cur))
	if it.Dom0 != dom {
		ex.assume(reach, fmt.Sprintf("(=> (not %s) (forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)))))", ok, ks, it.Dom0, dom, cur, dom))
	} else {
		ex.assume(reach, fmt.Sprintf("(=> (not %s) (forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)))))", ok, ks, dom, cur, dom))
	}
	ex.refs(reach, st, k, m.Key())
	val := ex.def("rv", ex.u.sortOf(m.Elem()), sel(sel(mv, r), k))
	ex.facts(and(reach, ok), st, val, m.Elem())
	_ = tup
	vv := Val{T: val, Ty: m.Elem()}
	switch m.Elem().Underlying().(type) {
	case *types.Map, *types.Slice:
		vv.Guard = it.Map.Guard
	}
	f.vals[x] = Val{Ty: x.Type(), Tup: []Val{{T: ok, Ty: bt}, {T: k, Ty: m.Key()}, vv}}
	st.vars[it.Key] = Val{T: ex.def("vis", "(Array "+ks+" Bool)", "(ite "+ok+" "+store(cur, k, "true")+" "+cur+")")}
}
func (ex *Exec) refs(reach string, st *State, term string, t types.Type) {
	ex.facts(reach, st, term, t)
}

// ---- operators ----

func (ex *Exec) unop(f *Frame, st *State, reach *string, x *ssa.UnOp) bool {
	v := ex.val(f, st, x.X)
	switch x.Op {
	case token.MUL:
		a := ex.addrOf(v, *reach, x.Pos())
		r := ex.load(st, *reach, a, x.Pos())
		r.Ty = x.Type()
		f.vals[x] = r
	case token.NOT:
		f.vals[x] = Val{T: not(ex.term(st, *reach, v)), Ty: x.Type()}
	case token.SUB:
		t := ex.term(st, *reach, v)
		if ex.u.sortOf(x.Type()) == "F" {
			f.vals[x] = Val{T: ex.def("n", "F", "(fneg "+t+")"), Ty: x.Type()}
		} else {
			f.vals[x] = Val{T: ex.wrap("(- "+t+")", x.Type()), Ty: x.Type()}
		}
	case token.XOR:
		t := ex.term(st, *reach, v)
		f.vals[x] = Val{T: ex.wrap("(- (- "+t+") 1)", x.Type()), Ty: x.Type()}
	case token.ARROW:
		r := ex.chanRecv(f, st, *reach, ex.val(f, st, x.X), x.Pos())
		if x.CommaOk {
			f.vals[x] = tup([]Val{r, {T: "true", Ty: types.Typ[types.Bool]}})
		} else {
			f.vals[x] = r
		}
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	return true
}

// wrap applies the modular reduction of narrow and unsigned integer types.
// int and int64 arithmetic is left mathematical (a recorded assumption).
func (ex *Exec) wrap(t string, ty types.Type) string {
	bits, uns := intBits(ty)
	if uns {
		return ex.def("w", "Int", "(mod "+t+" "+pow2(bits)+")")
	}
	if bits < 64 {
		return ex.def("w", "Int", fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", t, pow2(bits-1), pow2(bits), pow2(bits-1)))
	}
	ex.note("signed 64-bit integer arithmetic (int, int64) treated as mathematical: overflow is not modelled")
	return ex.def("i", "Int", t)
}

func (ex *Exec) isConstInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	return c.Int64(), true
}

func (ex *Exec) binop(st *State, reach string, x *ssa.BinOp, a, b Val) Val {
	rt := x.Type()
	xt := x.X.Type()
	// nil comparisons that do not need a term
	if x.Op == token.EQL || x.Op == token.NEQ {
		r, ok := ex.nilCompare(x, a, b)
		if ok {
			if x.Op == token.NEQ {
				r = not(r)
			}
			return Val{T: r, Ty: rt}
		}
		at, bt := "", ""
		_, ai := xt.Underlying().(*types.Interface)
		_, bi := x.Y.Type().Underlying().(*types.Interface)
		if ai && !bi {
			b = ex.box(st, reach, b, x.Y.Type(), xt)
		}
		if bi && !ai {
			a = ex.box(st, reach, a, xt, x.Y.Type())
		}
		at, bt = ex.term(st, reach, a), ex.term(st, reach, b)
		if !ai && ex.u.sortOf(xt) == "F" {
			r = "(feq " + at + " " + bt + ")"
		} else {
			r = eq(at, bt)
		}
		if x.Op == token.NEQ {
			r = not(r)
		}
		return Val{T: ex.def("cmp", "Bool", r), Ty: rt}
	}
	at, bt := ex.term(st, reach, a), ex.term(st, reach, b)
	so := ex.u.sortOf(xt)
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			at, bt = bt, at
		}
		strict := x.Op == token.LSS || x.Op == token.GTR
		var r string
		switch so {
		case "Int":
			if strict {
				r = "(< " + at + " " + bt + ")"
			} else {
				r = "(<= " + at + " " + bt + ")"
			}
		case "F":
			if strict {
				r = "(flt " + at + " " + bt + ")"
			} else {
				r = "(fle " + at + " " + bt + ")"
			}
		case "Str":
			if strict {
				r = "(slt " + at + " " + bt + ")"
			} else {
				r = "(not (slt " + bt + " " + at + "))"
			}
		}
		return Val{T: ex.def("cmp", "Bool", r), Ty: rt}
	}
	if so == "F" {
		op := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[x.Op]
		if op == "" {
			panic(unsupported("float op"))
		}
		return Val{T: ex.def("f", "F", "("+op+" "+at+" "+bt+")"), Ty: rt}
	}
	if so == "Str" {
		return Val{T: ex.def("s", "Str", "(scat "+at+" "+bt+")"), Ty: rt}
	}
	if so == "Bool" {
		switch x.Op {
		case token.AND, token.LAND:
			return Val{T: and(at, bt), Ty: rt}
		case token.OR, token.LOR:
			return Val{T: or(at, bt), Ty: rt}
		}
	}
	var t string
	switch x.Op {
	case token.ADD:
		t = "(+ " + at + " " + bt + ")"
	case token.SUB:
		t = "(- " + at + " " + bt + ")"
	case token.MUL:
		t = "(* " + at + " " + bt + ")"
	case token.QUO, token.REM:
		ex.assert("div", "division by zero", x.Pos(), reach, not(eq(bt, "0")))
		if x.Op == token.QUO {
			return Val{T: ex.def("q", "Int", "(godiv "+at+" "+bt+")"), Ty: rt}
		}
		return Val{T: ex.def("q", "Int", "(gomod "+at+" "+bt+")"), Ty: rt}
	case token.SHL:
		if c, ok := ex.isConstInt(x.Y); ok && c >= 0 && c < 64 {
			t = "(* " + at + " " + pow2(int(c)) + ")"
		} else {
			ex.u.decl("shl", "(declare-fun shl (Int Int) Int)\n(declare-fun shr (Int Int) Int)")
			return Val{T: ex.inRange(ex.def("sh", "Int", "(shl "+at+" "+bt+")"), rt), Ty: rt}
		}
	case token.SHR:
		if c, ok := ex.isConstInt(x.Y); ok && c >= 0 && c < 64 {
			return Val{T: ex.def("sh", "Int", "(div "+at+" "+pow2(int(c))+")"), Ty: rt}
		}
		ex.u.decl("shl", "(declare-fun shl (Int Int) Int)\n(declare-fun shr (Int Int) Int)")
		return Val{T: ex.inRange(ex.def("sh", "Int", "(shr "+at+" "+bt+")"), rt), Ty: rt}
	case token.AND:
		return Val{T: ex.inRange(ex.def("bw", "Int", "(bitand "+at+" "+bt+")"), rt), Ty: rt}
	case token.OR:
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 && b.Kind() != types.Int8 {
			ex.u.decl("bitorwide", bitorWide)
		}
		return Val{T: ex.inRange(ex.def("bw", "Int", "(bitor "+at+" "+bt+")"), rt), Ty: rt}
	case token.XOR:
		return Val{T: ex.inRange(ex.def("bw", "Int", "(bitxor "+at+" "+bt+")"), rt), Ty: rt}
	default:
		panic(unsupported("binop " + x.Op.String()))
	}
	return Val{T: ex.wrap(t, rt), Ty: rt}
}

func (ex *Exec) inRange(t string, ty types.Type) string {
	if lo, hi, ok := intRange(ty); ok {
		ex.emit(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))", lo, t, t, hi))
	}
	return t
}

func (ex *Exec) nilCompare(x *ssa.BinOp, a, b Val) (string, bool) {
	isNil := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil && c.IsNil()
	}
	o, n := a, x.Y
	if isNil(x.X) {
		o, n = b, x.X
	}
	if !isNil(n) {
		return "", false
	}
	if o.Clo != nil {
		return "false", true
	}
	if o.Addr != nil {
		if o.Addr.Cell != "" || len(o.Addr.Path) > 0 {
			return "false", true
		}
		return eq(o.Addr.Base, "0"), true
	}
	if o.View != nil {
		return eq("(sb "+o.View.Base.T+")", "0"), true
	}
	if o.T == "" {
		return "", false
	}
	switch o.Ty.Underlying().(type) {
	case *types.Pointer:
		return eq("(pb "+o.T+")", "0"), true
	case *types.Slice:
		return eq("(sb "+o.T+")", "0"), true
	case *types.Map, *types.Chan:
		return eq(o.T, "0"), true
	case *types.Interface:
		return eq(o.T, "anynil"), true
	case *types.Signature:
		return eq(o.T, "fnnil"), true
	}
	return "", false
}

func (ex *Exec) convert(st *State, reach string, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		t := ex.term(st, reach, v)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi, _ := intRange(from)
			tlo, thi, _ := intRange(to)
			if widen(flo, fhi, tlo, thi) {
				return Val{T: t, Ty: to}
			}
			bits, uns := intBits(to)
			if uns {
				return Val{T: ex.def("w", "Int", "(mod "+t+" "+pow2(bits)+")"), Ty: to}
			}
			return Val{T: ex.def("w", "Int", fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", t, pow2(bits-1), pow2(bits), pow2(bits-1))), Ty: to}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return Val{T: ex.def("f", "F", "(i2f "+t+")"), Ty: to}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return Val{T: ex.inRange(ex.def("fi", "Int", "(f2i "+t+")"), to), Ty: to}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return Val{T: t, Ty: to}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return Val{T: t, Ty: to}
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			ex.runestrDecl()
			return Val{T: ex.def("s", "Str", "(runestr "+t+")"), Ty: to}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			t := ex.term(st, reach, v)
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte || eb.Kind() == types.Uint8 {
				ex.u.decl("bytesof", "(declare-fun bytesof (Str) (Array Int Int))\n(assert (forall ((s Str) (i Int)) (! (= (select (bytesof s) i) (sbyte s i)) :pattern ((select (bytesof s) i)))))")
				return Val{T: ex.newSlice(st, reach, sl.Elem(), "(bytesof "+t+")", "(slen "+t+")", "(slen "+t+")"), Ty: to}
			}
			ex.runesDecl()
			return Val{T: ex.newSlice(st, reach, sl.Elem(), "(runesof "+t+")", "(nrunes "+t+")", "(nrunes "+t+")"), Ty: to}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			t := ex.term(st, reach, v)
			h := ex.getHeap(st, sl.Elem())
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte || eb.Kind() == types.Uint8 {
				ex.u.decl("strofbytes", "(declare-fun strofbytes ((Array Int Int) Int) Str)\n(assert (forall ((a (Array Int Int)) (n Int)) (! (=> (>= n 0) (= (slen (strofbytes a n)) n)) :pattern ((strofbytes a n)))))\n(assert (forall ((a (Array Int Int)) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sbyte (strofbytes a n) i) (select a i))) :pattern ((sbyte (strofbytes a n) i)))))")
				return Val{T: ex.def("s", "Str", "(strofbytes "+sel(h, "(sb "+t+")")+" (sn "+t+"))"), Ty: to}
			}
			ex.u.decl("strofrunes", "(declare-fun strofrunes ((Array Int Int) Int) Str)")
			return Val{T: ex.def("s", "Str", "(strofrunes "+sel(h, "(sb "+t+")")+" (sn "+t+"))"), Ty: to}
		}
	}
	if ex.u.sortOf(from) == ex.u.sortOf(to) && !fok && !tok {
		return ex.changeType(st, reach, v, to)
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}
func (ex *Exec) runestrDecl() {
	ex.u.decl("runestr", "(declare-fun runestr (Int) Str)\n(assert (forall ((r Int)) (! (and (<= 1 (slen (runestr r))) (<= (slen (runestr r)) 4) (=> (and (<= 0 r) (< r 128)) (and (= (slen (runestr r)) 1) (= (sbyte (runestr r) 0) r)))) :pattern ((runestr r)))))")
}
func (ex *Exec) runesDecl() {
	ex.u.decl("runesof", "(declare-fun runesof (Str) (Array Int Int))\n(declare-fun nrunes (Str) Int)\n(assert (forall ((s Str)) (! (and (<= 0 (nrunes s)) (<= (nrunes s) (slen s)) (=> (> (slen s) 0) (> (nrunes s) 0))) :pattern ((nrunes s)))))\n(assert (forall ((s Str) (i Int)) (! (and (<= 0 (select (runesof s) i)) (<= (select (runesof s) i) 1114111)) :pattern ((select (runesof s) i)))))")
}

func widen(flo, fhi, tlo, thi string) bool {
	return cmpLit(tlo, flo) <= 0 && cmpLit(thi, fhi) >= 0
}
func cmpLit(a, b string) int {
	return litBig(a).Cmp(litBig(b))
}
