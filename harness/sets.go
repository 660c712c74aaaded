// generated by tools/gensetharness.py
package sets

import (
	"fmt"
	"sort"
	"testing"
)

func vsetByte(vals []byte) (Byte, map[byte]bool) {
	s, m := Byte{}, map[byte]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameByte(s Byte, m map[byte]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckByte(r *vrun, al []byte) {
	pick := func() (l []byte) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetByte(av)
		b, bm := vsetByte(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("Byte a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameByte(a, am) || !vsameByte(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewByte(av...); !vsameByte(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[byte]bool{}, map[byte]bool{}, map[byte]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameByte(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameByte(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameByte(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []Byte{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[byte]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := Byte{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameByte(c, w) || !vsameByte(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[byte]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameByte(a, w) || !vsameByte(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetByte(av)
		m1, m2 := map[byte]int{}, map[byte]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := ByteKeySet(m1); !vsameByte(k, am) {
			r.fail("ByteKeySet gives %v for the keys %v", k, av)
		}
		if k := ByteKeySet(m2); !vsameByte(k, am) {
			r.fail("ByteKeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistByte(r *vrun, al []byte) {
	for i := 0; r.more(i, 3000); i++ {
		var av []byte
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetByte(av)
		desc := func() string { return fmt.Sprintf("Byte %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]byte, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameByte(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameByte(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none Byte
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func vsetInt(vals []int) (Int, map[int]bool) {
	s, m := Int{}, map[int]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameInt(s Int, m map[int]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckInt(r *vrun, al []int) {
	pick := func() (l []int) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetInt(av)
		b, bm := vsetInt(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("Int a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameInt(a, am) || !vsameInt(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewInt(av...); !vsameInt(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[int]bool{}, map[int]bool{}, map[int]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameInt(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameInt(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameInt(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []Int{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[int]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := Int{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameInt(c, w) || !vsameInt(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[int]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameInt(a, w) || !vsameInt(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetInt(av)
		m1, m2 := map[int]int{}, map[int]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := IntKeySet(m1); !vsameInt(k, am) {
			r.fail("IntKeySet gives %v for the keys %v", k, av)
		}
		if k := IntKeySet(m2); !vsameInt(k, am) {
			r.fail("IntKeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistInt(r *vrun, al []int) {
	for i := 0; r.more(i, 3000); i++ {
		var av []int
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetInt(av)
		desc := func() string { return fmt.Sprintf("Int %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]int, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameInt(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameInt(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none Int
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func vsetInt32(vals []int32) (Int32, map[int32]bool) {
	s, m := Int32{}, map[int32]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameInt32(s Int32, m map[int32]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckInt32(r *vrun, al []int32) {
	pick := func() (l []int32) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetInt32(av)
		b, bm := vsetInt32(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("Int32 a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameInt32(a, am) || !vsameInt32(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewInt32(av...); !vsameInt32(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[int32]bool{}, map[int32]bool{}, map[int32]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameInt32(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameInt32(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameInt32(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []Int32{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[int32]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := Int32{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameInt32(c, w) || !vsameInt32(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[int32]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameInt32(a, w) || !vsameInt32(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetInt32(av)
		m1, m2 := map[int32]int{}, map[int32]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := Int32KeySet(m1); !vsameInt32(k, am) {
			r.fail("Int32KeySet gives %v for the keys %v", k, av)
		}
		if k := Int32KeySet(m2); !vsameInt32(k, am) {
			r.fail("Int32KeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistInt32(r *vrun, al []int32) {
	for i := 0; r.more(i, 3000); i++ {
		var av []int32
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetInt32(av)
		desc := func() string { return fmt.Sprintf("Int32 %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]int32, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameInt32(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameInt32(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none Int32
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func vsetInt64(vals []int64) (Int64, map[int64]bool) {
	s, m := Int64{}, map[int64]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameInt64(s Int64, m map[int64]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckInt64(r *vrun, al []int64) {
	pick := func() (l []int64) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetInt64(av)
		b, bm := vsetInt64(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("Int64 a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameInt64(a, am) || !vsameInt64(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewInt64(av...); !vsameInt64(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[int64]bool{}, map[int64]bool{}, map[int64]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameInt64(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameInt64(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameInt64(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []Int64{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[int64]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := Int64{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameInt64(c, w) || !vsameInt64(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[int64]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameInt64(a, w) || !vsameInt64(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetInt64(av)
		m1, m2 := map[int64]int{}, map[int64]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := Int64KeySet(m1); !vsameInt64(k, am) {
			r.fail("Int64KeySet gives %v for the keys %v", k, av)
		}
		if k := Int64KeySet(m2); !vsameInt64(k, am) {
			r.fail("Int64KeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistInt64(r *vrun, al []int64) {
	for i := 0; r.more(i, 3000); i++ {
		var av []int64
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetInt64(av)
		desc := func() string { return fmt.Sprintf("Int64 %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]int64, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameInt64(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameInt64(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none Int64
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func vsetString(vals []string) (String, map[string]bool) {
	s, m := String{}, map[string]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameString(s String, m map[string]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckString(r *vrun, al []string) {
	pick := func() (l []string) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetString(av)
		b, bm := vsetString(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("String a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameString(a, am) || !vsameString(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewString(av...); !vsameString(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[string]bool{}, map[string]bool{}, map[string]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameString(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameString(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameString(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []String{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[string]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := String{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameString(c, w) || !vsameString(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[string]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameString(a, w) || !vsameString(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetString(av)
		m1, m2 := map[string]int{}, map[string]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := StringKeySet(m1); !vsameString(k, am) {
			r.fail("StringKeySet gives %v for the keys %v", k, av)
		}
		if k := StringKeySet(m2); !vsameString(k, am) {
			r.fail("StringKeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistString(r *vrun, al []string) {
	for i := 0; r.more(i, 3000); i++ {
		var av []string
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetString(av)
		desc := func() string { return fmt.Sprintf("String %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]string, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameString(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameString(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none String
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func vsetUint64(vals []uint64) (Uint64, map[uint64]bool) {
	s, m := Uint64{}, map[uint64]bool{}
	for _, v := range vals {
		s[v] = Empty{}
		m[v] = true
	}
	return s, m
}
func vsameUint64(s Uint64, m map[uint64]bool) bool {
	if len(s) != len(m) {
		return false
	}
	for k := range m {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func vcheckUint64(r *vrun, al []uint64) {
	pick := func() (l []uint64) {
		for n := r.rnd.Intn(6); n > 0; n-- {
			l = append(l, al[r.rnd.Intn(len(al))])
		}
		return
	}
	for i := 0; r.more(i, 4000); i++ {
		av, bv, args := pick(), pick(), pick()
		a, am := vsetUint64(av)
		b, bm := vsetUint64(bv)
		if len(av) == 0 && i%2 == 0 {
			a = nil
		}
		if len(bv) == 0 && i%3 == 0 {
			b = nil
		}
		if i%7 == 0 {
			b, bm, bv = a, am, av
		}
		desc := func() string { return fmt.Sprintf("Uint64 a=%v b=%v args=%v", av, bv, args) }
		r.ran(len(av) > 0 && len(bv) > 0)
		r.try(desc, func() {
			pure := func(what string) {
				if !vsameUint64(a, am) || !vsameUint64(b, bm) {
					r.fail("%s changed an operand: now a=%v b=%v, on %s", what, a, b, desc())
				}
			}
			if n := NewUint64(av...); !vsameUint64(n, am) || n == nil {
				r.fail("New gives %v on %s", n, desc())
			}
			u, is, df := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
			sup := true
			for k := range am {
				u[k] = true
				if bm[k] {
					is[k] = true
				} else {
					df[k] = true
				}
			}
			for k := range bm {
				u[k] = true
				sup = sup && am[k]
			}
			eq := sup && len(am) == len(bm)
			gu, gi, gd := a.Union(b), a.Intersection(b), a.Difference(b)
			pure("Union/Intersection/Difference")
			if !vsameUint64(gu, u) {
				r.fail("Union gives %v on %s", gu, desc())
			}
			if !vsameUint64(gi, is) {
				r.fail("Intersection gives %v on %s", gi, desc())
			}
			if !vsameUint64(gd, df) {
				r.fail("Difference gives %v on %s", gd, desc())
			}
			if a.IsSuperset(b) != sup {
				r.fail("IsSuperset gives %v on %s", !sup, desc())
			}
			if a.Equal(b) != eq {
				r.fail("Equal gives %v on %s", !eq, desc())
			}
			if a.Len() != len(am) {
				r.fail("Len gives %d on %s", a.Len(), desc())
			}
			all, any := true, false
			for _, x := range args {
				all = all && am[x]
				any = any || am[x]
				if a.Has(x) != am[x] {
					r.fail("Has(%v) gives %v on %s", x, !am[x], desc())
				}
			}
			if a.HasAll(args...) != all {
				r.fail("HasAll gives %v on %s", !all, desc())
			}
			if a.HasAny(args...) != any {
				r.fail("HasAny gives %v on %s", !any, desc())
			}
			pure("a query")
			// results are sets of their own
			for _, res := range []Uint64{gu, gi, gd} {
				for _, x := range al {
					res[x] = Empty{}
				}
			}
			pure("writing to a result")
			if a != nil {
				w := map[uint64]bool{}
				for k := range am {
					w[k] = true
				}
				for _, x := range args {
					w[x] = true
				}
				c := Uint64{}
				for k := range a {
					c[k] = Empty{}
				}
				g := c.Insert(args...)
				if !vsameUint64(c, w) || !vsameUint64(g, w) {
					r.fail("Insert gives %v on %s", c, desc())
				}
			}
			w := map[uint64]bool{}
			for k := range am {
				w[k] = true
			}
			for _, x := range args {
				delete(w, x)
			}
			g := a.Delete(args...)
			if !vsameUint64(a, w) || !vsameUint64(g, w) {
				r.fail("Delete gives %v on %s", a, desc())
			}
		})
	}
	// sets of the keys of a map
	for i := 0; r.more(i, 200); i++ {
		av := pick()
		_, am := vsetUint64(av)
		m1, m2 := map[uint64]int{}, map[uint64]map[string]bool{}
		for k := range am {
			m1[k], m2[k] = 3, nil
		}
		if k := Uint64KeySet(m1); !vsameUint64(k, am) {
			r.fail("Uint64KeySet gives %v for the keys %v", k, av)
		}
		if k := Uint64KeySet(m2); !vsameUint64(k, am) {
			r.fail("Uint64KeySet gives %v for the keys %v", k, av)
		}
	}
}

func vlistUint64(r *vrun, al []uint64) {
	for i := 0; r.more(i, 3000); i++ {
		var av []uint64
		for n := r.rnd.Intn(1 + i%20); n > 0; n-- {
			av = append(av, al[r.rnd.Intn(len(al))])
		}
		a, am := vsetUint64(av)
		desc := func() string { return fmt.Sprintf("Uint64 %v", av) }
		r.ran(len(am) > 1)
		r.try(desc, func() {
			w := make([]uint64, 0)
			for k := range am {
				w = append(w, k)
			}
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			l := a.List()
			if fmt.Sprint(l) != fmt.Sprint(w) || len(l) != len(w) {
				r.fail("List gives %v on %s", l, desc())
			}
			ul := a.UnsortedList()
			sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
			if fmt.Sprint(ul) != fmt.Sprint(w) || len(ul) != len(w) {
				r.fail("UnsortedList gives (sorted here) %v on %s", ul, desc())
			}
			if !vsameUint64(a, am) {
				r.fail("listing changed the set to %v on %s", a, desc())
			}
			for len(am) > 0 {
				x, ok := a.PopAny()
				if !ok || !am[x] {
					r.fail("PopAny gives %v, %v with members %v on %s", x, ok, am, desc())
					return
				}
				delete(am, x)
				if !vsameUint64(a, am) {
					r.fail("PopAny %v leaves %v, want %v on %s", x, a, am, desc())
					return
				}
			}
			if x, ok := a.PopAny(); ok || len(a) != 0 {
				r.fail("PopAny of an empty set gives %v, %v on %s", x, ok, desc())
			}
			var none Uint64
			if x, ok := none.PopAny(); ok || len(none.List()) != 0 {
				r.fail("PopAny of a nil set gives %v, %v", x, ok)
			}
		})
	}
}

func TestVerif_C01(t *testing.T) {
	r := vstart(t)
	defer r.done()
	vcheckByte(r, []byte{0, 1, 2, 7, 127, 128, 255})
	vcheckInt(r, []int{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 62)})
	vcheckInt32(r, []int32{-5, -1, 0, 1, 2, 7, 1 << 30, -(1 << 31)})
	vcheckInt64(r, []int64{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 63)})
	vcheckString(r, []string{"", "a", "b", "ab", "B", "\xff", "é", "a\x00"})
	vcheckUint64(r, []uint64{0, 1, 2, 7, 1 << 40, 1 << 63, 1<<64 - 1})
}

func TestVerif_C02(t *testing.T) {
	r := vstart(t)
	defer r.done()
	vlistByte(r, []byte{0, 1, 2, 7, 127, 128, 255})
	vlistInt(r, []int{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 62)})
	vlistInt32(r, []int32{-5, -1, 0, 1, 2, 7, 1 << 30, -(1 << 31)})
	vlistInt64(r, []int64{-5, -1, 0, 1, 2, 7, 1 << 40, -(1 << 63)})
	vlistString(r, []string{"", "a", "b", "ab", "B", "\xff", "é", "a\x00"})
	vlistUint64(r, []uint64{0, 1, 2, 7, 1 << 40, 1 << 63, 1<<64 - 1})
}
