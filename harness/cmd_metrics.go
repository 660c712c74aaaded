package metrics

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
)

type vsrc struct {
	data  []prom.ParsedSeries
	err   error
	calls []time.Time
	log   *[]int
	id    int
}

func (s *vsrc) ScrapePrometheusEndpoint(ctx context.Context, now time.Time) ([]prom.ParsedSeries, error) {
	s.calls = append(s.calls, now)
	*s.log = append(*s.log, s.id)
	return s.data, s.err
}

func TestVerif_C14(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 5000); i++ {
		var srcs []prom.DataSource
		var vs []*vsrc
		var log []int
		var want []prom.ParsedSeries
		var werr error
		wcalls := 0
		tag := 0
		for n := r.rnd.Intn(6); n > 0; n-- {
			s := &vsrc{log: &log, id: len(vs)}
			if r.rnd.Intn(6) == 0 {
				s.err = fmt.Errorf("source %d failed", s.id)
			}
			for k := r.rnd.Intn(4); k > 0; k-- {
				s.data = append(s.data, prom.ParsedSeries{Labels: labels.FromStrings("a", fmt.Sprint(tag%3)), Value: float64(tag), Timestamp: int64(tag)})
				tag++
			}
			if k := len(s.data); k > 0 && r.rnd.Intn(2) == 0 {
				// storage with room behind the samples
				s.data = append(make([]prom.ParsedSeries, 0, k+5), s.data...)
			}
			vs = append(vs, s)
			srcs = append(srcs, s)
			if werr == nil {
				wcalls++
				werr = s.err
				if s.err == nil {
					want = append(want, s.data...)
				}
			}
		}
		now := time.Unix(int64(i), 5)
		desc := func() string {
			s := ""
			for _, v := range vs {
				s += fmt.Sprintf("[%d samples err=%v] ", len(v.data), v.err)
			}
			return s
		}
		r.ran(len(want) > 0)
		r.try(desc, func() {
			got, err := DataSources{sources: srcs}.ScrapePrometheusEndpoint(context.Background(), now)
			if len(log) != wcalls {
				r.fail("sources consulted: %v, want the first %d, on %s", log, wcalls, desc())
			}
			for k, id := range log {
				if id != k {
					r.fail("sources consulted in order %v on %s", log, desc())
				}
			}
			for _, v := range vs {
				for _, c := range v.calls {
					if !c.Equal(now) {
						r.fail("source %d gets time %v, want %v", v.id, c, now)
					}
				}
			}
			if werr != nil {
				if !errors.Is(err, werr) {
					r.fail("error %v, want %v, on %s", err, werr, desc())
				}
				return
			}
			if err != nil {
				r.fail("error %v on %s", err, desc())
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.fail("samples %v, want %v, on %s", got, want, desc())
			}
		})
		r.sample("%s", desc())
	}
	// over HTTP: the endpoint's text, labelled with the endpoint
	body := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { fmt.Fprint(w, body) }))
	defer srv.Close()
	for i := 0; r.more(i, 30); i++ {
		n := r.rnd.Intn(4)
		body = "# HELP m x\n"
		for k := 0; k < n; k++ {
			body += fmt.Sprintf("m{k=\"%d\"} %d\n", k, i)
		}
		bad := i%4 == 3
		if bad {
			body += "m{ 1\n"
		}
		d := DataSources{sources: []prom.DataSource{&httpSource{url: srv.URL + "/a", client: srv.Client()}, &httpSource{url: srv.URL + "/b", client: srv.Client()}}}
		r.ran(n > 0)
		got, err := d.ScrapePrometheusEndpoint(context.Background(), time.Unix(7, 0))
		if bad {
			if err == nil {
				r.fail("no error for the text %q", body)
			}
			continue
		}
		if err != nil || len(got) != 2*n {
			r.fail("%d samples and error %v for twice the text %q", len(got), err, body)
			continue
		}
		for k, s := range got {
			u := srv.URL + []string{"/a", "/b"}[k/n]
			w := labels.FromStrings(labels.MetricName, "m", "k", fmt.Sprint(k%n), "instance", u)
			if !labels.Equal(s.Labels, w) || s.Value != float64(i) || s.Timestamp != 7000 {
				r.fail("sample %d is %v, want labels %v", k, s, w)
			}
		}
	}
}

func TestVerif_C15(t *testing.T) {
	r := vstart(t)
	defer r.done()
	boom := errors.New("query failed")
	ids := map[string]uint64{}
	for i := 0; r.more(i, 4000); i++ {
		var mx promql.Matrix
		for n := r.rnd.Intn(5); n > 0; n-- {
			m := map[string]string{labels.MetricName: []string{"m", "n"}[r.rnd.Intn(2)]}
			for k := r.rnd.Intn(3); k > 0; k-- {
				m[[]string{"a", "b", "c"}[r.rnd.Intn(3)]] = fmt.Sprint(r.rnd.Intn(40))
			}
			s := promql.Series{Metric: labels.FromMap(m)}
			for k := r.rnd.Intn(5); k > 0; k-- {
				s.Points = append(s.Points, promql.Point{T: r.rnd.Int63n(5) - 2 + 1<<uint(r.rnd.Intn(50)), V: []float64{0, 1, -1, math.NaN(), math.Inf(1), 0.5}[r.rnd.Intn(6)]})
			}
			mx = append(mx, s)
		}
		desc := func() string { return fmt.Sprint(mx) }
		r.ran(len(mx) > 0)
		r.try(desc, func() {
			before := fmt.Sprint(mx)
			set, err := PromResultToPromSeriesSet(&promql.Result{Value: mx})
			if err != nil || len(set) != len(mx) {
				r.fail("%d series and error %v on %s", len(set), err, desc())
				return
			}
			if fmt.Sprint(mx) != before {
				r.fail("the result is changed on %s", desc())
			}
			type pt struct {
				t int64
				v float64
			}
			var want [][]pt
			for _, s := range mx {
				var l []pt
				for _, p := range s.Points {
					l = append(l, pt{p.T, p.V})
				}
				want = append(want, l)
			}
			// the engine reuses its storage
			for a := range mx {
				for b := range mx[a].Points {
					mx[a].Points[b] = promql.Point{T: -99, V: -99}
				}
			}
			for k, s := range set {
				var got []pt
				for _, p := range s.Points() {
					got = append(got, pt{p.X(), p.Y()})
				}
				if fmt.Sprint(got) != fmt.Sprint(want[k]) {
					r.fail("series %d has points %v, want %v, on %s", k, got, want[k], before)
				}
				id := uint64(s.Id())
				if id < 1 || id > 255 {
					r.fail("series %v gets id %d", mx[k].Metric, id)
				}
				key := mx[k].Metric.String()
				if old, ok := ids[key]; ok && old != id {
					r.fail("series %v gets id %d after id %d", mx[k].Metric, id, old)
				}
				ids[key] = id
			}
			if _, err := PromResultToPromSeriesSet(&promql.Result{Value: mx, Err: boom}); !errors.Is(err, boom) {
				r.fail("a failed result gives error %v", err)
			}
			for _, v := range []promql.Result{{Value: promql.Vector{{Point: promql.Point{T: 1}}}}, {Value: promql.Scalar{}}, {Value: promql.String{}}} {
				if s, err := PromResultToPromSeriesSet(&v); err == nil {
					r.fail("the non-matrix result %v gives %v", v, s)
				}
			}
		})
		r.sample("%s", desc())
	}
}
