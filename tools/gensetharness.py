#!/usr/bin/env python3
"""Writes harness/sets.go: the same checks for each of the six set types."""
import os
T = '''
func vset%(T)s(vals []%(t)s) (%(T)s, map[%(t)s]bool) {
	s, m := %(T)s{}, map[%(t)s]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsame%(T)s(s %(T)s, m map[%(t)s]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheck%(T)s(r *vrun, al []%(t)s) {
	pick := func() (l []%(t)s) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vset%(T)s(av)
		b, bm := vset%(T)s(bv)
		if len(av) == 0 && i%%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%%3 == 0 {
			b = nil
		}
		if i%%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("%(T)s a=%%v b=%%v args=%%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsame%(T)s(a, am) || !vsame%(T)s(b, bm) {
					r.fail("%%s changed an operand: now a=%%v b=%%v, on %%s", what, a, b, desc())
				}
			}
			if n := New%(T)s(av...); !vsame%(T)s(n, am) || n == nil {
				r.fail("New gives %%v on %%s", n, desc())
			}
			u, is, df := map[%(t)s]bool{}, map[%(t)s]bool{}, map[%(t)s]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsame%(T)s(gu, u) {
				r.fail("Union gives %%v on %%s", gu, desc())
			}
			if !vsame%(T)s(gi, is) {
				r.fail("Intersection gives %%v on %%s", gi, desc())
			}
			if !vsame%(T)s(gd, df) {
				r.fail("Difference gives %%v on %%s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %%v on %%s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %%v on %%s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %%d on %%s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%%v) gives %%v on %%s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %%v on %%s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %%v on %%s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []%(T)s{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[%(t)s]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := %(T)s{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsame%(T)s(c, w) || !vsame%(T)s(g, w) {
					r.fail("Insert gives %%v on %%s", c, desc())
				}
			}
			w := map[%(t)s]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsame%(T)s(a, w) || !vsame%(T)s(g, w) {
				r.fail("Delete gives %%v on %%s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vset%(T)s(av)
		m1, m2 := map[%(t)s]int{}, map[%(t)s]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := %(T)sKeySet(m1); !vsame%(T)s(k, am) {
			r.fail("%(T)sKeySet gives %%v for the keys %%v", k, av)
		}
		if k := %(T)sKeySet(m2); !vsame%(T)s(k, am) {
			r.fail("%(T)sKeySet gives %%v for the keys %%v", k, av)
		}
	}
}

func vlist%(T)s(r *vrun, al []%(t)s) {
	for i := 0; r.more(i, 3000); i++ {
		var av []%(t)s
		for n := r.rnd.Intn(1 + i%%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vset%(T)s(av)
		desc := func() string { return fmt.Sprintf("%(T)s %%v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]%(t)s, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %%v on %%s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %%v on %%s", ul, desc())
			}
			if !vsame%(T)s(a, am) {
				r.fail("listing changed the set to %%v on %%s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %%v, %%v with members %%v on %%s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsame%(T)s(a, am) {
					r.fail("PopAny %%v leaves %%v, want %%v on %%s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %%v, %%v on %%s", x, ok, desc())
			}
			var none %(T)s
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %%v, %%v", x, ok)
			}
		})
	}
}
'''
types = [("Byte","byte","{0, 1, 2, 7, 127, 128, 255}"),("Int","int","{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 62)}"),
 ("Int32","int32","{-5, -1, 0, 1, 2, 7, 1 << 30, -(1 << 31)}"),("Int64","int64","{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 63)}"),
 ("String","string",'{"", "a", "b", "ab", "B", "\\xff", "é", "a\\x00"}'),("Uint64","uint64","{0, 1, 2, 7, 1 << 40, 1 << 63, 1<<64 - 1}")]
out = '// generated by tools/gensetharness.py\npackage sets\n\nimport (\n\t"fmt"\n\t"sort"\n\t"testing"\n)\n'
for n, t, al in types: out += T % {"T": n, "t": t}
for p, f in (("C01","vcheck"),("C02","vlist")):
    out += "\nfunc TestVerif_%s(t *testing.T) {\n\tr := vstart(t)\n\tdefer r.done()\n" % p
    for n, t, al in types: out += "\t%s%s(r, []%s%s)\n" % (f, n, t, al)
    out += "}\n"
open(os.path.join(os.path.dirname(__file__), "..", "harness", "sets.go"), "w").write(out)
