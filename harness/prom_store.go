package prom

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
)

// ---- an independent model of the store ----

type vpt struct {
	t int64
	v float64
}

type vmodel struct {
	keys []string // insertion order
	lset map[string]labels.Labels
	pts  map[string][]vpt
}

func newVmodel() *vmodel {
	return &vmodel{lset: map[string]labels.Labels{}, pts: map[string][]vpt{}}
}
func (m *vmodel) load(p ParsedSeries) {
	k := p.Labels.String()
	if _, ok := m.lset[k]; !ok {
		m.keys = append(m.keys, k)
		m.lset[k] = p.Labels
	}
	m.pts[k] = append(m.pts[k], vpt{p.Timestamp, p.Value})
}
func (m *vmodel) clean(cut int64) {
	var keys []string
	for _, k := range m.keys {
		var keep []vpt
		for _, p := range m.pts[k] {
			if p.t >= cut {
				keep = append(keep, p)
			}
		}
		m.pts[k] = keep
		if len(keep) > 0 {
			keys = append(keys, k)
		} else {
			delete(m.pts, k)
			delete(m.lset, k)
		}
	}
	m.keys = keys
}

// read everything a querier returns
func vreadAll(r *vrun, desc func() string, s *rangeStorage, ms ...*labels.Matcher) (keys []string, lsets map[string]labels.Labels, pts map[string][]vpt, ok bool) {
	lsets, pts = map[string]labels.Labels{}, map[string][]vpt{}
	ok = r.timed(desc, func() {
		q, err := s.Querier(context.Background(), math.MinInt64, math.MaxInt64)
		if err != nil {
			r.fail("querier error %v on %s", err, desc())
			return
		}
		set := q.Select(false, nil, ms...)
		n := 0
		for set.Next() {
			if n++; n > 100000 {
				r.fail("series set does not end on %s", desc())
				return
			}
			se := set.At()
			k := se.Labels().String()
			keys = append(keys, k)
			lsets[k] = se.Labels()
			it := se.Iterator()
			for c := 0; it.Next(); c++ {
				t, v := it.At()
				pts[k] = append(pts[k], vpt{t, v})
				if c > 100000 {
					r.fail("iteration does not end on %s", desc())
					return
				}
			}
		}
		if set.Err() != nil {
			r.fail("series set error %v on %s", set.Err(), desc())
		}
	})
	return
}

func vsorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func vcompare(r *vrun, desc func() string, m *vmodel, s *rangeStorage) {
	keys, _, pts, ok := vreadAll(r, desc, s, labels.MustNewMatcher(labels.MatchEqual, labels.MetricName, "m"))
	if !ok {
		return
	}
	if fmt.Sprint(vsorted(keys)) != fmt.Sprint(vsorted(m.keys)) {
		r.fail("series %v, want %v, after %s", vsorted(keys), vsorted(m.keys), desc())
		return
	}
	for _, k := range m.keys {
		got, want := pts[k], append([]vpt{}, m.pts[k]...)
		if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].t < got[j].t }) {
			r.fail("series %s is not in time order: %v, after %s", k, got, desc())
			return
		}
		key := func(l []vpt) string {
			l = append([]vpt{}, l...)
			sort.Slice(l, func(i, j int) bool { return l[i].t < l[j].t || l[i].t == l[j].t && l[i].v < l[j].v })
			return fmt.Sprint(l)
		}
		if key(got) != key(want) {
			r.fail("series %s holds %v, want the samples %v, after %s", k, got, want, desc())
			return
		}
	}
}

func vlset(r *vrun) labels.Labels {
	m := map[string]string{labels.MetricName: "m"}
	for _, n := range []string{"a", "b", "c"} {
		switch r.rnd.Intn(4) {
		case 0:
			m[n] = "x"
		case 1:
			m[n] = "y"
		case 2:
			m[n] = []string{"xy", "z", "xx", "yx"}[r.rnd.Intn(4)]
		}
	}
	return labels.FromMap(m)
}

func TestVerif_C03(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 6000); i++ {
		s, m := NewRangeStorage(), newVmodel()
		var log []string
		desc := func() string { return "loads " + strings.Join(log, " | ") }
		nser := 1 + r.rnd.Intn(3)
		var ls []labels.Labels
		for len(ls) < nser {
			ls = append(ls, vlset(r))
		}
		unordered := false
		span := 3 + r.rnd.Intn(20)
		for b := 0; b < 1+r.rnd.Intn(4); b++ {
			var pts []ParsedSeries
			for j := 0; j < r.rnd.Intn(12); j++ {
				p := ParsedSeries{Labels: ls[r.rnd.Intn(len(ls))], Timestamp: int64(r.rnd.Intn(span)) - 3, Value: float64(r.rnd.Intn(1000))}
				if r.rnd.Intn(40) == 0 {
					p.Timestamp = []int64{math.MinInt64, math.MaxInt64, -1, 0}[r.rnd.Intn(4)]
				}
				if j > 0 && p.Timestamp < pts[j-1].Timestamp {
					unordered = true
				}
				pts = append(pts, p)
				m.load(p)
			}
			log = append(log, fmt.Sprint(pts))
			if !r.try(desc, func() {
				if err := s.LoadData(pts); err != nil {
					r.fail("LoadData: %v on %s", err, desc())
				}
			}) {
				return
			}
			vcompare(r, desc, m, s)
		}
		r.ran(unordered)
		if unordered {
			r.sample("%s", desc())
		}
	}
}

func TestVerif_C04(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 3000); i++ {
		s, m := NewRangeStorage(), newVmodel()
		var log []string
		desc := func() string { return "loads " + strings.Join(log, " | ") }
		n := 0
		for b := 0; b < 1+r.rnd.Intn(3); b++ {
			var pts []ParsedSeries
			for j := 0; j < r.rnd.Intn(20); j++ {
				// separate copies of equal label sets
				p := ParsedSeries{Labels: vlset(r), Timestamp: int64(n), Value: float64(n)}
				if r.rnd.Intn(6) == 0 {
					p.Labels = labels.FromMap(map[string]string{labels.MetricName: "m", "a": "x\xffb", "b": "", "ab": "x"})
				}
				n++
				pts = append(pts, p)
				m.load(p)
			}
			log = append(log, fmt.Sprint(pts))
			r.try(desc, func() { s.LoadData(pts) })
			vcompare(r, desc, m, s)
		}
		r.ran(len(m.keys) > 1)
		r.sample("%s", desc())
	}
}

func TestVerif_C06_Clean(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 4000); i++ {
		s, m := NewRangeStorage(), newVmodel()
		var log []string
		desc := func() string { return strings.Join(log, " | ") }
		now := int64(0)
		dropped := false
		for b := 0; b < 2+r.rnd.Intn(5); b++ {
			if r.rnd.Intn(3) == 0 {
				cut := now - int64(r.rnd.Intn(12)) + 2
				before := len(m.keys)
				m.clean(cut)
				dropped = dropped || len(m.keys) < before
				log = append(log, fmt.Sprintf("clean(%d)", cut))
				if !r.timed(desc, func() { s.Clean(cut) }) {
					return
				}
			} else {
				var pts []ParsedSeries
				for j := 0; j < 1+r.rnd.Intn(8); j++ {
					p := ParsedSeries{Labels: vlset(r), Timestamp: now + int64(r.rnd.Intn(5)) - 2, Value: float64(j)}
					pts = append(pts, p)
					m.load(p)
				}
				now += int64(r.rnd.Intn(6))
				log = append(log, fmt.Sprint("load", pts))
				if !r.try(desc, func() { s.LoadData(pts) }) {
					return
				}
			}
			vcompare(r, desc, m, s)
		}
		r.ran(dropped)
		r.sample("%s", desc())
	}
}

func TestVerif_C07(t *testing.T) {
	r := vstart(t)
	defer r.done()
	vals := []string{"", "x", "y", "xy", "xx", "nope"}
	res := []string{"", "x", "x.*", ".*", ".+", "x|y", "y?", "[xy]+", "|x", "nope", "z?x?", "\\w", "x\\w", "\\x78"}
	for i := 0; r.more(i, 4000); i++ {
		s, m := NewRangeStorage(), newVmodel()
		var pts []ParsedSeries
		for j := 0; j < r.rnd.Intn(14); j++ {
			p := ParsedSeries{Labels: vlset(r), Timestamp: int64(j), Value: float64(j)}
			if r.rnd.Intn(8) == 0 {
				p.Labels = labels.FromMap(map[string]string{"a": "x"})
			}
			pts = append(pts, p)
			m.load(p)
		}
		s.LoadData(pts)
		if r.rnd.Intn(4) == 0 && len(pts) > 0 {
			cut := int64(r.rnd.Intn(len(pts)))
			s.Clean(cut)
			m.clean(cut)
		}
		for k := 0; k < 4; k++ {
			var ms []*labels.Matcher
			for n := 1 + r.rnd.Intn(3); n > 0; n-- {
				name := []string{"a", "b", "c", "d", labels.MetricName}[r.rnd.Intn(5)]
				switch r.rnd.Intn(4) {
				case 0:
					ms = append(ms, labels.MustNewMatcher(labels.MatchEqual, name, vals[r.rnd.Intn(len(vals))]))
				case 1:
					ms = append(ms, labels.MustNewMatcher(labels.MatchNotEqual, name, vals[r.rnd.Intn(len(vals))]))
				case 2:
					ms = append(ms, labels.MustNewMatcher(labels.MatchRegexp, name, res[r.rnd.Intn(len(res))]))
				case 3:
					ms = append(ms, labels.MustNewMatcher(labels.MatchNotRegexp, name, res[r.rnd.Intn(len(res))]))
				}
			}
			desc := func() string { return fmt.Sprintf("selector %v over series %v", ms, m.keys) }
			var want []string
			for _, key := range m.keys {
				all := true
				for _, mm := range ms {
					if !mm.Matches(m.lset[key].Get(mm.Name)) {
						all = false
					}
				}
				if all {
					want = append(want, key)
				}
			}
			got, _, _, ok := vreadAll(r, desc, s, ms...)
			if !ok {
				return
			}
			r.ran(len(want) > 0)
			if fmt.Sprint(vsorted(got)) != fmt.Sprint(vsorted(want)) {
				r.fail("selected %v, want %v, for %s", vsorted(got), vsorted(want), desc())
				return
			}
			r.sample("%s -> %d series", desc(), len(got))
		}
	}
}

func TestVerif_C08(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 20000); i++ {
		s := NewRangeStorage()
		ls := labels.FromMap(map[string]string{labels.MetricName: "m"})
		n := 1 + r.rnd.Intn(8)
		var data []vpt
		var pts []ParsedSeries
		tt := int64(r.rnd.Intn(3))
		for j := 0; j < n; j++ {
			pts = append(pts, ParsedSeries{Labels: ls, Timestamp: tt, Value: float64(j)})
			data = append(data, vpt{tt, float64(j)})
			tt += int64(r.rnd.Intn(3))
		}
		s.LoadData(pts)
		q, _ := s.Querier(context.Background(), 0, 0)
		set := q.Select(false, nil, labels.MustNewMatcher(labels.MatchEqual, labels.MetricName, "m"))
		if !set.Next() {
			r.fail("no series for %v", data)
			return
		}
		it := set.At().Iterator()
		pos := -1 // model position; n: at the end
		var log []string
		desc := func() string { return fmt.Sprintf("samples %v, operations %s", data, strings.Join(log, " ")) }
		back := false
		for k := 0; k < 1+r.rnd.Intn(12); k++ {
			var got, want bool
			if r.rnd.Intn(2) == 0 {
				log = append(log, "Next")
				if pos < n {
					pos++
				}
				want = pos < n
				if !r.try(desc, func() { got = it.Next() }) {
					return
				}
			} else {
				target := int64(r.rnd.Intn(int(tt) + 2))
				log = append(log, fmt.Sprintf("Seek(%d)", target))
				from := pos
				if from < 0 {
					from = 0
				}
				if from < n && data[from].t >= target {
					back = true
				}
				for from < n && data[from].t < target {
					from++
				}
				pos = from
				want = pos < n
				if !r.try(desc, func() { got = it.Seek(target) }) {
					return
				}
			}
			if got != want {
				r.fail("last operation returned %v, want %v: %s", got, want, desc())
				return
			}
			if want {
				t0, v := int64(0), 0.0
				if !r.try(desc, func() { t0, v = it.At() }) {
					return
				}
				if t0 != data[pos].t || v != data[pos].v {
					r.fail("positioned on (%d,%v), want sample %d %v: %s", t0, v, pos, data[pos], desc())
					return
				}
			}
			if it.Err() != nil {
				r.fail("iterator error %v: %s", it.Err(), desc())
			}
		}
		r.ran(back)
		r.sample("%s", desc())
	}
}
