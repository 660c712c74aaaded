package autocomplete

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
)

func TestVerif_C28(t *testing.T) {
	r := vstart(t)
	defer r.done()
	alpha := []string{"a", "b", "A", "B", "c", "_", "é", "É", "日"}
	word := func(n int) string {
		s := ""
		for k := r.rnd.Intn(n); k > 0; k-- {
			s += alpha[r.rnd.Intn(len(alpha))]
		}
		return s
	}
	fuzzy := func(s, sub string) bool {
		q := []rune(sub)
		for _, c := range s {
			if len(q) > 0 && q[0] == c {
				q = q[1:]
			}
		}
		return len(q) == 0
	}
	for i := 0; r.more(i, 60000); i++ {
		in := sets.NewString()
		var all []string
		for k := r.rnd.Intn(7); k > 0; k-- {
			w := word(6)
			in.Insert(w)
			all = append(all, w)
		}
		sub := word(4)
		ic := r.rnd.Intn(2) == 0
		pre := r.rnd.Intn(2) == 0
		desc := func() string { return fmt.Sprintf("candidates %q text %q ignoring case %v prefix %v", all, sub, ic, pre) }
		var got sets.String
		if !r.try(desc, func() {
			if pre {
				got = FilterPrefix(in, sub, ic)
			} else {
				got = FilterFuzzy(in, sub, ic)
			}
		}) {
			continue
		}
		want := map[string]bool{}
		for _, w := range all {
			a, b := w, sub
			if ic {
				a, b = strings.ToLower(a), strings.ToLower(b)
			}
			if pre && strings.HasPrefix(a, b) || !pre && fuzzy(a, b) {
				want[w] = true
			}
		}
		r.ran(len(want) > 0 && sub != "")
		var g, w []string
		for k := range got {
			g = append(g, k)
		}
		for k := range want {
			w = append(w, k)
		}
		sort.Strings(g)
		sort.Strings(w)
		if strings.Join(g, "|") != strings.Join(w, "|") || len(g) != len(w) {
			r.fail("%q want %q on %s", g, w, desc())
		}
		n := map[string]bool{}
		for _, w := range all {
			n[w] = true
			if !in.Has(w) {
				r.fail("candidate %q lost on %s", w, desc())
			}
		}
		if len(in) != len(n) {
			r.fail("candidates changed on %s", desc())
		}
		r.sample("%s -> %q", desc(), g)
	}
}
