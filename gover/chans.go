package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels: a channel is a reference; what is in it is not modelled.  Sends and
// receives of a declared element type are recorded in traces, every value sent is
// shown to satisfy the declared invariant and every value received is assumed to.
// Declared channels are taken to be never closed (close of one is refused), an
// operation that blocks for ever is not excluded, and a select takes an arbitrary
// ready branch.

func (ex *Exec) chanSpec(t types.Type) *ChanSpec {
	el := t.Underlying().(*types.Chan).Elem()
	for _, c := range ex.w.specs.Chans {
		if c.T != nil && types.Identical(c.T, el) {
			return c
		}
	}
	panic(unsupported("channel of " + el.String()))
}

func (ex *Exec) chanInv(c *ChanSpec, f *Frame, st *State, v Val) string {
	env := ex.frameEnv(ex.top, st, nil).clone()
	env.locals = false
	env.pkg, env.imports = c.Pkg, c.Imports
	env.vars = map[string]SVal{"v": ex.sval(v)}
	return ex.compileBool(env, c.Inv)
}

func (ex *Exec) chanSend(f *Frame, st *State, reach string, ch, v Val, pos token.Pos) {
	c := ex.chanSpec(ch.Ty)
	v = Val{T: ex.term(st, reach, v), Ty: c.T}
	o := ex.assert("channel", c.Name+" send", pos, reach, ex.chanInv(c, f, st, v))
	if o != nil {
		o.Desc = c.Inv.Text
	}
	ex.onCall(f, st, reach, c.Name+"_send", []Val{ch, v}, pos)
	ex.trace(st, reach, c.Name+"_send", []Val{ch, v})
	ex.note("channel of " + c.Elem + ": contents not modelled; a send is taken to complete")
}

func (ex *Exec) chanRecv(f *Frame, st *State, reach string, ch Val, pos token.Pos) Val {
	c := ex.chanSpec(ch.Ty)
	n := ex.konst("recv", ex.u.sortOf(c.T))
	v := Val{T: n, Ty: c.T}
	ex.facts(reach, st, n, c.T)
	ex.assume(reach, ex.chanInv(c, f, st, v))
	ex.trace(st, reach, c.Name+"_recv", []Val{ch, v})
	ex.note("channel of " + c.Elem + ": a value received is an arbitrary one satisfying the channel's invariant; the channel is never closed")
	return v
}

// selectOp: the branch is arbitrary; a receive's value is recorded only if its
// branch was taken.
func (ex *Exec) selectOp(f *Frame, st *State, reach string, x *ssa.Select) Val {
	k := ex.konst("sel", "Int")
	lo := "0"
	if !x.Blocking {
		lo = "(- 1)"
	}
	ex.assume(reach, fmt.Sprintf("(and (<= %s %s) (< %s %d))", lo, k, k, len(x.States)))
	out := []Val{{T: k, Ty: types.Typ[types.Int]}, {T: "true", Ty: types.Typ[types.Bool]}}
	for i, s := range x.States {
		ch := ex.val(f, st, s.Chan)
		here := eq(k, fmt.Sprint(i))
		c := ex.chanSpec(ch.Ty)
		name := c.Name + "_recv"
		var v Val
		if s.Dir == types.SendOnly {
			name = c.Name + "_send"
			v = Val{T: ex.term(st, reach, ex.val(f, st, s.Send)), Ty: c.T}
			if o := ex.assert("channel", c.Name+" send", s.Pos, and(reach, here), ex.chanInv(c, f, st, v)); o != nil {
				o.Desc = c.Inv.Text
			}
		} else {
			n := ex.konst("recv", ex.u.sortOf(c.T))
			v = Val{T: n, Ty: c.T}
			ex.facts(and(reach, here), st, n, c.T)
			ex.assume(and(reach, here), ex.chanInv(c, f, st, v))
			out = append(out, v)
			ex.note("channel of " + c.Elem + ": a value received is an arbitrary one satisfying the channel's invariant; the channel is never closed")
		}
		// the trace grows only if this branch is taken
		before := ex.traceLen(st, name)
		ex.trace(st, reach, name, []Val{ch, v})
		st.vars["TN:"+name] = Val{T: ex.def("tn", "Int", fmt.Sprintf("(ite %s (+ %s 1) %s)", here, before, before))}
	}
	return tup(out)
}
