package prom

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/tsdb/index"
)

func vexpand(p index.Postings) []uint64 {
	var res []uint64
	for i := 0; p.Next() && i < 100000; i++ {
		res = append(res, p.At())
	}
	return res
}

type vindex struct {
	lists map[labels.Label][]uint64
}

func (x *vindex) check(r *vrun, desc func() string, p *memPostings) bool {
	var ok = true
	bad := func(f string, a ...interface{}) { ok = false; r.fail(f+" after "+"%s", append(a, desc())...) }
	r.timed(desc, func() {
		names := map[string]map[string]bool{}
		for l, w := range x.lists {
			if names[l.Name] == nil {
				names[l.Name] = map[string]bool{}
			}
			names[l.Name][l.Value] = true
			for round := 0; round < 2; round++ {
				got := vexpand(p.Get(l.Name, l.Value))
				if round == 1 {
					got = vexpand(p.UnsafeGet(l.Name, l.Value))
				}
				if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i] < got[j] }) {
					bad("list of %v is not in order: %v", l, got)
				}
				ws := append([]uint64{}, w...)
				sort.Slice(ws, func(i, j int) bool { return ws[i] < ws[j] })
				if fmt.Sprint(got) != fmt.Sprint(ws) {
					bad("list of %v is %v, want %v", l, got, ws)
				}
			}
		}
		for _, l := range []labels.Label{{Name: "nope", Value: "x"}, {Name: "a", Value: "nope"}} {
			if _, in := x.lists[l]; !in {
				if got := vexpand(p.Get(l.Name, l.Value)); len(got) > 0 {
					bad("list of %v is %v, want none", l, got)
				}
			}
		}
		all := vexpand(p.All())
		wa := append([]uint64{}, x.lists[labels.Label{}]...)
		sort.Slice(wa, func(i, j int) bool { return wa[i] < wa[j] })
		if fmt.Sprint(all) != fmt.Sprint(wa) {
			bad("all-series list is %v, want %v", all, wa)
		}
		var gn []string
		p.IterNames(func(n string) { gn = append(gn, n) })
		var wn []string
		for n := range names {
			wn = append(wn, n)
		}
		if fmt.Sprintf("%q", vsorted2(gn)) != fmt.Sprintf("%q", vsorted2(wn)) {
			bad("names %q, want %q", vsorted2(gn), vsorted2(wn))
		}
		for _, n := range append(wn, "nope") {
			var gv, wv []string
			p.IterValues(n, func(v string) { gv = append(gv, v) })
			for v := range names[n] {
				wv = append(wv, v)
			}
			if fmt.Sprintf("%q", vsorted2(gv)) != fmt.Sprintf("%q", vsorted2(wv)) {
				bad("values of %q: %q, want %q", n, vsorted2(gv), vsorted2(wv))
			}
		}
		var wk []string
		for l := range x.lists {
			wk = append(wk, l.Name+"\x00"+l.Value)
		}
		var gk []string
		for _, l := range p.SortedKeys() {
			gk = append(gk, l.Name+"\x00"+l.Value)
		}
		if !sort.StringsAreSorted(gk) {
			bad("sorted keys are not sorted: %q", gk)
		}
		if fmt.Sprintf("%q", vsorted2(gk)) != fmt.Sprintf("%q", vsorted2(wk)) {
			bad("sorted keys %q, want %q", gk, vsorted2(wk))
		}
	})
	return ok
}
func vsorted2(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func vrunPostings(t *testing.T, deletes bool) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 8000); i++ {
		p := NewmemPostings()
		x := &vindex{lists: map[labels.Label][]uint64{}}
		var log []string
		desc := func() string { return strings.Join(log, " ") }
		next := uint64(0)
		nt := false
		for k := 0; k < 1+r.rnd.Intn(14); k++ {
			if deletes && r.rnd.Intn(4) == 0 {
				del := map[uint64]struct{}{}
				for n := r.rnd.Intn(4); n > 0; n-- {
					del[uint64(r.rnd.Intn(int(next)+2))] = struct{}{}
				}
				log = append(log, fmt.Sprintf("Delete(%v)", del))
				for l, w := range x.lists {
					var keep []uint64
					for _, id := range w {
						if _, d := del[id]; !d {
							keep = append(keep, id)
						} else {
							nt = true
						}
					}
					if len(keep) == 0 {
						delete(x.lists, l)
					} else {
						x.lists[l] = keep
					}
				}
				if !r.timed(desc, func() { p.Delete(del) }) {
					return
				}
			} else {
				id := next
				if r.rnd.Intn(3) == 0 {
					id = uint64(r.rnd.Intn(30))
					nt = nt || !deletes
				}
				if id >= next {
					next = id + 1
				}
				ls := labels.Labels{}
				for _, n := range []string{"a", "b", "c"} {
					if r.rnd.Intn(2) == 0 {
						ls = append(ls, labels.Label{Name: n, Value: []string{"x", "y", ""}[r.rnd.Intn(3)]})
					}
				}
				log = append(log, fmt.Sprintf("Add(%d,%v)", id, ls))
				for _, l := range ls {
					x.lists[l] = append(x.lists[l], id)
				}
				x.lists[labels.Label{}] = append(x.lists[labels.Label{}], id)
				if !r.timed(desc, func() { p.Add(id, ls) }) {
					return
				}
			}
			if !x.check(r, desc, p) {
				return
			}
		}
		r.ran(nt)
		r.sample("%s", desc())
	}
}

func TestVerif_C05(t *testing.T)        { vrunPostings(t, false) }
func TestVerif_C06_Delete(t *testing.T) { vrunPostings(t, true) }
