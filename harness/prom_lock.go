package prom

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
)

func vfree(r *vrun, what string, locks map[string]*sync.RWMutex) {
	for n, l := range locks {
		if !l.TryLock() {
			r.fail("%s is still locked after %s", n, what)
			continue
		}
		l.Unlock()
	}
}

func vheld(l *sync.RWMutex) bool {
	if l.TryLock() {
		l.Unlock()
		return false
	}
	return true
}

type vsource struct {
	data []ParsedSeries
	err  error
	n    int
}

func (s *vsource) ScrapePrometheusEndpoint(ctx context.Context, now time.Time) ([]ParsedSeries, error) {
	s.n++
	return s.data, s.err
}

// one operation at a time: nothing blocks and every lock is released
func TestVerif_C09_release(t *testing.T) {
	r := vstart(t)
	defer r.done()
	ctx := context.Background()
	for i := 0; r.more(i, 150); i++ {
		p := NewmemPostings()
		ix := NewIndex().(*indexer)
		src := &vsource{}
		pd := NewPeriodicData(src, DefaultEngineOptions(10*time.Second, 100000))
		pd.Times = Range{Window: time.Minute, Interval: time.Second, Instant: i%2 == 0}
		pd.Callback = func(res *promql.Result) error {
			if i%5 == 1 {
				return errors.New("callback")
			}
			return nil
		}
		locks := map[string]*sync.RWMutex{"the label index": &p.mtx, "the metric index": &ix.metricNameMu, "the query text": &pd.queryMu, "the sample store": &pd.storageMu, "the label index of the sample store": &pd.storage.postings.mtx}
		stuck := false
		do := func(what string, f func()) {
			if stuck {
				return
			}
			if !r.timed(func() string { return what }, f) {
				stuck = true
				return
			}
			vfree(r, what, locks)
		}
		var trace []string
		for s := 0; s < 40 && !stuck; s++ {
			n, v := string(rune('a'+r.rnd.Intn(3))), string(rune('x'+r.rnd.Intn(3)))
			ls := labels.FromStrings(labels.MetricName, "m", n, v)
			if r.rnd.Intn(6) == 0 {
				ls = labels.FromStrings(n, v)
			}
			id := uint64(r.rnd.Intn(6))
			q := []string{"m", "m{", "rate(m[1m])", "", "sum(m) by (a)", "time("}[r.rnd.Intn(6)]
			src.data, src.err = []ParsedSeries{{Labels: ls, Value: 1, Timestamp: int64(s)}}, nil
			if r.rnd.Intn(4) == 0 {
				src.err = errors.New("scrape")
			}
			ops := []struct {
				n string
				f func()
			}{
				{"Add", func() { p.Add(id, ls) }},
				{"Delete", func() { p.Delete(map[uint64]struct{}{id: {}, id + 1: {}}) }},
				{"Delete of nothing", func() { p.Delete(map[uint64]struct{}{77: {}}) }},
				{"Get", func() { p.Get(n, v) }},
				{"All", func() { p.All() }},
				{"SortedKeys", func() { p.SortedKeys() }},
				{"IterNames", func() {
					p.IterNames(func(string) {
						if !vheld(&p.mtx) {
							r.fail("IterNames visits the index without holding its lock")
						}
					})
				}},
				{"IterValues", func() {
					p.IterValues(n, func(string) {
						if !vheld(&p.mtx) {
							r.fail("IterValues visits the index without holding its lock")
						}
						p.UnsafeGet(n, v)
					})
				}},
				{"EnsureOrder", func() { p.EnsureOrder() }},
				{"UpdateMetric", func() { ix.UpdateMetric(src.data[0]) }},
				{"GetMetricNames", func() { ix.GetMetricNames() }},
				{"GetStoredDimensionsForMetric", func() { ix.GetStoredDimensionsForMetric("m"); ix.GetStoredDimensionsForMetric(v) }},
				{"GetStoredValuesForMetricAndDimension", func() {
					ix.GetStoredValuesForMetricAndDimension("m", n)
					ix.GetStoredValuesForMetricAndDimension("m", "nope")
					ix.GetStoredValuesForMetricAndDimension("nope", n)
				}},
				{"SetQuery " + q, func() { pd.SetQuery(ctx, q) }},
				{"Scrape", func() { pd.Scrape(ctx) }},
				{"ManuallyExecuteQuery", func() {
					pd.ManuallyExecuteQuery(ctx, func(*promql.Result) error {
						if i%3 == 0 {
							// a callback may choose the next query
							return pd.SetQuery(ctx, "m")
						}
						return errors.New("no")
					})
				}},
				{"Select", func() {
					qr, _ := pd.storage.Querier(ctx, 0, 1<<60)
					qr.LabelNames()
					qr.LabelValues("a", labels.MustNewMatcher(labels.MatchEqual, "a", "z"))
					qr.Select(false, nil, labels.MustNewMatcher(labels.MatchRegexp, n, ".*"), labels.MustNewMatcher(labels.MatchNotEqual, "b", v))
				}},
				{"Clean", func() { pd.storage.Clean(int64(s - 3)) }},
			}
			op := ops[r.rnd.Intn(len(ops))]
			trace = append(trace, op.n)
			do(op.n+" (history: "+strings.Join(trace, ", ")+")", op.f)
		}
		r.ran(true)
	}
}

// all operations at once, under the race detector
func TestVerif_C09_race(t *testing.T) {
	r := vstart(t)
	defer r.done()
	ctx := context.Background()
	for i := 0; r.more(i, 6); i++ {
		p := NewmemPostings()
		ix := NewIndex()
		pd := NewPeriodicData(&vsource{}, DefaultEngineOptions(10*time.Second, 100000))
		pd.Times = Range{Instant: true}
		pd.Query = "m"
		ls := func(a, b int) labels.Labels {
			return labels.FromStrings(labels.MetricName, fmt.Sprintf("m%d", a%3), fmt.Sprintf("l%d", b%4), fmt.Sprintf("v%d", (a*7+b)%9))
		}
		ops := []func(g, k int){
			func(g, k int) { p.Add(uint64(k), ls(g, k)) },
			func(g, k int) { p.Add(uint64(k), ls(k, g)) },
			func(g, k int) { p.Get("l1", "v1"); p.Get("zz", "") },
			func(g, k int) { p.All() },
			func(g, k int) { p.SortedKeys() },
			func(g, k int) { p.IterNames(func(string) {}) },
			func(g, k int) { p.IterValues("l1", func(v string) { p.UnsafeGet("l1", v) }) },
			func(g, k int) { p.Delete(map[uint64]struct{}{uint64(k): {}, uint64(k / 2): {}}) },
			func(g, k int) { p.EnsureOrder() },
			func(g, k int) { ix.UpdateMetric(ParsedSeries{Labels: ls(g, k)}) },
			func(g, k int) { ix.UpdateMetric(ParsedSeries{Labels: ls(k, k)}) },
			func(g, k int) { ix.GetMetricNames().List() },
			func(g, k int) { ix.GetStoredDimensionsForMetric("m1").List() },
			func(g, k int) { ix.GetStoredValuesForMetricAndDimension("m1", "l1").List() },
			func(g, k int) {
				if s := ix.GetStoredValuesForMetricAndDimension("m1", "l1"); s != nil {
					s.Insert("mine")
				}
			},
			func(g, k int) { pd.SetQuery(ctx, []string{"m", "n", "m{"}[k%3]) },
			func(g, k int) { pd.ManuallyExecuteQuery(ctx, func(*promql.Result) error { return nil }) },
		}
		r.timed(func() string { return "all operations at once" }, func() {
			var wg sync.WaitGroup
			for g, op := range ops {
				wg.Add(1)
				go func(g int, op func(g, k int)) {
					defer wg.Done()
					for k := 0; k < 150; k++ {
						op(g, k)
					}
				}(g, op)
			}
			wg.Wait()
		})
		r.ran(true)
	}
}
