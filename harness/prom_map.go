package prom

import (
	"fmt"
	"strings"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
)

// equal hashes are forced here: the hash is an argument of the map
func TestVerif_C04_Collisions(t *testing.T) { vcollide(t) }

// deletion (of expired series, C06) included
func TestVerif_C06_Collisions(t *testing.T) { vcollide(t) }

func vcollide(t *testing.T) {
	r := vstart(t)
	defer r.done()
	var pool []labels.Labels
	for _, a := range []string{"", "x", "y"} {
		for _, b := range []string{"", "x", "y"} {
			pool = append(pool, labels.FromMap(map[string]string{"a": a, "b": b}), labels.FromMap(map[string]string{"a": a}))
		}
	}
	for i := 0; r.more(i, 20000); i++ {
		m := seriesHashmap{}
		type ent struct {
			h  uint64
			ls string
		}
		want := map[ent]uint64{}
		var log []string
		desc := func() string { return strings.Join(log, " ") }
		nt := false
		for k := 0; k < 1+r.rnd.Intn(16); k++ {
			h := uint64(r.rnd.Intn(2))
			ls := pool[r.rnd.Intn(len(pool))]
			e := ent{h, ls.String()}
			if r.rnd.Intn(3) == 0 {
				log = append(log, fmt.Sprintf("del(%d,%v)", h, ls))
				m.del(h, ls)
				delete(want, e)
			} else {
				log = append(log, fmt.Sprintf("set(%d,%v,%d)", h, ls, k))
				m.set(h, &seriesRef{index: uint64(k), lset: ls})
				want[e] = uint64(k)
			}
			nt = nt || len(want) > 2
			for h := uint64(0); h < 2; h++ {
				for _, ls := range pool {
					g := m.get(h, ls)
					w, in := want[ent{h, ls.String()}]
					if (g != nil) != in || g != nil && (g.index != w || g.lset.String() != ls.String()) {
						r.fail("get(%d,%v) = %v, want present=%v ref=%d, after %s", h, ls, g, in, w, desc())
						return
					}
				}
			}
		}
		r.ran(nt)
	}
}
