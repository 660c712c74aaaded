package prom

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"gopkg.in/yaml.v2"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
)

// ---- C10 ----

type vixmodel map[string]map[string]map[string]bool

func (m vixmodel) update(ls labels.Labels) {
	name, ok := "", false
	for _, l := range ls {
		if l.Name == labels.MetricName {
			name, ok = l.Value, true
		}
	}
	if !ok {
		return
	}
	if m[name] == nil {
		m[name] = map[string]map[string]bool{}
	}
	for _, l := range ls {
		if l.Name == labels.MetricName {
			continue
		}
		if m[name][l.Name] == nil {
			m[name][l.Name] = map[string]bool{}
		}
		m[name][l.Name][l.Value] = true
	}
}

func vkeys(m interface{}) []string {
	var l []string
	switch m := m.(type) {
	case sets.String:
		for k := range m {
			l = append(l, k)
		}
	case map[string]bool:
		for k := range m {
			l = append(l, k)
		}
	case map[string]map[string]bool:
		for k := range m {
			l = append(l, k)
		}
	case vixmodel:
		for k := range m {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func TestVerif_C10(t *testing.T) {
	r := vstart(t)
	defer r.done()
	names := []string{"m", "n", "up", "", "métrique", "__name__", "m_bucket"}
	lbls := []string{"a", "b", "instance", "le", "é", "A", "__name", "m"}
	vals := []string{"x", "y", "", "x y", "1", "\xff", "a", "m"}
	for i := 0; r.more(i, 1500); i++ {
		ix := NewIndex()
		m := vixmodel{}
		var hist []string
		desc := func() string { return strings.Join(hist, " ; ") }
		type snap struct {
			what string
			s    sets.String
			w    string
		}
		var snaps []snap
		check := func() {
			eq := func(what string, s sets.String, w []string) {
				if fmt.Sprintf("%q", vkeys(s)) != fmt.Sprintf("%q", w) {
					r.fail("%s is %q, want %q, after %s", what, vkeys(s), w, desc())
				}
				if r.rnd.Intn(10) == 0 {
					snaps = append(snaps, snap{what, s, fmt.Sprintf("%q", w)})
				} else if r.rnd.Intn(3) == 0 && s != nil {
					// what a caller does with its set is its own business
					s.Insert("scribble")
					for _, k := range w {
						s.Delete(k)
					}
				}
			}
			eq("GetMetricNames", ix.GetMetricNames(), vkeys(m))
			for _, n := range append([]string{"unknown"}, names...) {
				eq("GetStoredDimensionsForMetric("+n+")", ix.GetStoredDimensionsForMetric(n), vkeys(m[n]))
				for _, l := range append([]string{"unknown"}, lbls...) {
					eq("GetStoredValuesForMetricAndDimension("+n+", "+l+")", ix.GetStoredValuesForMetricAndDimension(n, l), vkeys(m[n][l]))
				}
			}
		}
		r.try(desc, func() {
			for s := r.rnd.Intn(12); s >= 0; s-- {
				mm := map[string]string{}
				if r.rnd.Intn(5) > 0 {
					mm[labels.MetricName] = names[r.rnd.Intn(1+r.rnd.Intn(len(names)))]
				}
				for k := r.rnd.Intn(4); k > 0; k-- {
					mm[lbls[r.rnd.Intn(1+r.rnd.Intn(len(lbls)))]] = vals[r.rnd.Intn(len(vals))]
				}
				ls := labels.FromMap(mm)
				for rep := r.rnd.Intn(4) / 2; rep >= 0; rep-- {
					hist = append(hist, ls.String())
					ix.UpdateMetric(ParsedSeries{Labels: ls, Value: r.rnd.Float64(), Timestamp: int64(s)})
					m.update(ls)
				}
				if r.rnd.Intn(3) == 0 {
					check()
				}
			}
			check()
			for _, s := range snaps {
				if got := fmt.Sprintf("%q", vkeys(s.s)); got != s.w {
					r.fail("a set handed out by %s changed from %s to %s, after %s", s.what, s.w, got, desc())
				}
			}
		})
		r.ran(len(m) > 0)
		r.sample("%s -> %v", desc(), m)
	}
}

// ---- C11 ----

func TestVerif_C11(t *testing.T) {
	r := vstart(t)
	defer r.done()
	esc := strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\"", "\\\"")
	pick := func(l ...string) string { return l[r.rnd.Intn(len(l))] }
	for i := 0; r.more(i, 4000); i++ {
		now := time.Unix(int64(r.rnd.Intn(2000000000)), int64(r.rnd.Intn(1000000000)))
		if i%11 == 0 {
			now = time.Unix(0, 999999*int64(r.rnd.Intn(5)))
		}
		add := map[string]string{}
		if i%3 > 0 {
			add["instance"] = pick("http://h:1/metrics", "x", "y")
		}
		if i%5 == 0 {
			add[pick("a", "zone", "__name__x", "le")] = pick("v", "w", "")
		}
		if i%17 == 0 {
			add["__name__"] = "renamed"
		}
		var text strings.Builder
		type want struct {
			m map[string]string
			v float64
			t int64
		}
		var ws []want
		bad := false
		for n := r.rnd.Intn(8); n > 0; n-- {
			switch r.rnd.Intn(9) {
			case 0:
				text.WriteString("# HELP m_total some help { } 1 2\n")
			case 1:
				text.WriteString("# TYPE m_total " + pick("counter", "gauge", "histogram", "summary", "untyped") + "\n")
			case 2:
				text.WriteString(pick("# just a comment\n", "\n", "  \n", "#\n"))
			default:
				name := pick("m_total", "up", "a:b", "m_bucket")
				w := want{m: map[string]string{labels.MetricName: name}}
				var parts []string
				seen := map[string]bool{}
				for k := r.rnd.Intn(4); k > 0; k-- {
					l, v := pick("a", "b", "instance", "le", "zone"), pick("x", "", "y z", "\"q\"", "back\\slash", "new\nline", "é世", "}", ",")
					if seen[l] {
						continue
					}
					seen[l] = true
					w.m[l] = v
					parts = append(parts, l+`="`+esc.Replace(v)+`"`)
				}
				text.WriteString(name)
				if len(parts) > 0 || r.rnd.Intn(4) == 0 {
					text.WriteString("{" + strings.Join(parts, pick(",", ", ")) + "}")
				}
				vs := pick("1", "0", "-3.5", "1e300", "1.5e-7", "NaN", "+Inf", "-Inf", "0.1", "123456789012")
				w.v, _ = strconv.ParseFloat(vs, 64)
				text.WriteString(" " + vs)
				w.t = now.UnixNano() / 1000000
				if r.rnd.Intn(3) == 0 {
					w.t = []int64{0, 1, 1600000000123, 1 << 50}[r.rnd.Intn(4)]
					text.WriteString(fmt.Sprintf(" %d", w.t))
				}
				text.WriteString("\n")
				if len(ws) > 0 && r.rnd.Intn(6) == 0 {
					// once more the same series
					ws = append(ws, w)
					s := strings.TrimSuffix(text.String(), "\n")
					s = s[strings.LastIndex(s, "\n")+1:]
					text.WriteString(s + "\n")
				}
				ws = append(ws, w)
			}
		}
		if r.rnd.Intn(6) == 0 {
			bad = true
			text.WriteString(pick("m{a=\"x\" 1\n", "m 1 2 3\n", "m one\n", "m{a=x} 1\n", "{} 1\n", "m\n", "m{a=\"\xff\"} 1\n"))
			if r.rnd.Intn(2) == 0 {
				text.WriteString("after 1\n")
			}
		}
		for _, w := range ws {
			for k, v := range add {
				w.m[k] = v
			}
		}
		desc := func() string { return fmt.Sprintf("text %q at %v with labels %v", text.String(), now, add) }
		data := []byte(text.String())
		keep := append([]byte{}, data...)
		r.ran(len(ws) > 0)
		r.try(desc, func() {
			got, err := ParseTextDataWithAdditionalLabels(data, now, add)
			if len(add) == 0 && i%2 == 0 {
				got, err = ParseTextData(data, now)
			}
			if !bytes.Equal(data, keep) {
				r.fail("the text is changed to %q on %s", data, desc())
			}
			if bad {
				if err == nil || len(got) != 0 {
					r.fail("malformed text gives %d samples and error %v on %s", len(got), err, desc())
				}
				return
			}
			if err != nil {
				r.fail("error %v on %s", err, desc())
				return
			}
			if len(got) != len(ws) {
				r.fail("%d samples, want %d, on %s", len(got), len(ws), desc())
				return
			}
			// samples must not alias the text
			for k := range data {
				data[k] = '!'
			}
			for k, w := range ws {
				g := got[k]
				if math.Float64bits(g.Value) != math.Float64bits(w.v) && !(g.Value != g.Value && w.v != w.v) {
					r.fail("sample %d has value %v, want %v, on %s", k, g.Value, w.v, desc())
				}
				if g.Timestamp != w.t {
					r.fail("sample %d has time %v, want %v, on %s", k, g.Timestamp, w.t, desc())
				}
				gm := map[string]string{}
				for _, l := range g.Labels {
					if l.Value != "" {
						gm[l.Name] = l.Value
					}
				}
				for l, v := range w.m {
					if v == "" {
						delete(w.m, l)
					}
				}
				if fmt.Sprint(gm) != fmt.Sprint(w.m) {
					r.fail("sample %d has labels %v, want %v, on %s", k, gm, w.m, desc())
				}
				if !sort.SliceIsSorted(g.Labels, func(a, b int) bool { return g.Labels[a].Name < g.Labels[b].Name }) {
					r.fail("sample %d has unsorted labels %v on %s", k, g.Labels, desc())
				}
			}
		})
		r.sample("%s", desc())
	}
	for i := 0; r.more(i, 500); i++ {
		ns := r.rnd.Int63n(4e18)
		if w := time.Unix(0, ns); PromTimestamp(w) != ns/1000000 {
			r.fail("PromTimestamp(%d ns) is %d", ns, PromTimestamp(w))
		}
	}
}

// ---- C12 ----

func TestVerif_C12(t *testing.T) {
	r := vstart(t)
	defer r.done()
	pick := func(l ...string) string { return l[r.rnd.Intn(len(l))] }
	boom := errors.New("query failed")
	for i := 0; r.more(i, 2500); i++ {
		var vec promql.Vector
		for n := r.rnd.Intn(5); n > 0; n-- {
			m := map[string]string{}
			if r.rnd.Intn(5) > 0 {
				m[labels.MetricName] = pick("m", "up", "a:b")
			}
			for k := r.rnd.Intn(4); k > 0; k-- {
				m[pick("a", "b", "_x", "Z", "__name", "zone")] = pick("x", "y z", "q\"q", "", "é")
			}
			ls := labels.FromMap(m)
			vec = append(vec, promql.Sample{Metric: ls, Point: promql.Point{T: int64(r.rnd.Intn(1000)) * 1000, V: []float64{0, 1, -2.5, 1e9, 0.1, math.NaN(), math.Inf(-1)}[r.rnd.Intn(7)]}})
		}
		if i%9 == 0 && vec == nil {
			vec = promql.Vector{}
		}
		var val interface{}
		res := &promql.Result{}
		switch i % 5 {
		case 0, 1, 2:
			res.Value = vec
		case 3:
			mx := promql.Matrix{}
			for _, s := range vec {
				mx = append(mx, promql.Series{Metric: s.Metric, Points: []promql.Point{s.Point, {T: s.T + 1000, V: 2}}})
			}
			res.Value = mx
		case 4:
			if i%2 == 0 {
				res.Value = promql.Scalar{T: 1000, V: 4}
			} else {
				res.Value = promql.String{T: 1000, V: "text"}
			}
		}
		val = res.Value
		before := fmt.Sprintf("%v", val)
		format := pick("json", "yaml", "prometheus", "prometheus", "xml", "", "JSON", "jsonx")
		colored := r.rnd.Intn(2) == 0
		desc := func() string { return fmt.Sprintf("format %q colored=%v value %v", format, colored, before) }
		r.ran(len(vec) > 0)
		known := format == "json" || format == "yaml" || format == "prometheus"
		r.try(desc, func() {
			bad := &promql.Result{Err: boom, Value: res.Value}
			if i%2 == 0 {
				bad.Value = nil
			}
			o, err := ToPrettyFormat(bad, format, colored)
			if err == nil || o != nil || known && !errors.Is(err, boom) {
				r.fail("a failed result gives %v and error %v on %s", o, err, desc())
			}
			for n, f := range map[string]func(*promql.Result) (*string, error){"ToPrettyJson": ToPrettyJson, "ToPrettyColoredJson": ToPrettyColoredJson, "ToYaml": ToYaml, "ToPrometheusFormat": ToPrometheusFormat} {
				if o, err := f(bad); o != nil || !errors.Is(err, boom) {
					r.fail("%s of a failed result gives %v and error %v on %s", n, o, err, desc())
				}
			}
			o, err = ToPrettyFormat(res, format, colored)
			if !known {
				if err == nil || o != nil {
					r.fail("an unknown format gives %v and error %v on %s", o, err, desc())
				}
				return
			}
			if err != nil || o == nil {
				r.fail("output %v, error %v on %s", o, err, desc())
				return
			}
			if fmt.Sprintf("%v", res.Value) != before {
				r.fail("formatting changes the result to %v on %s", res.Value, desc())
			}
			switch format {
			case "json":
				if !colored {
					w, _ := json.Marshal(res.Value)
					var buf bytes.Buffer
					if json.Compact(&buf, []byte(*o)) != nil || !bytes.Equal(buf.Bytes(), w) {
						r.fail("json output is %s, want %s, on %s", *o, w, desc())
					}
				} else if *o == "" {
					r.fail("empty output on %s", desc())
				}
			case "yaml":
				w, _ := yaml.Marshal(res.Value)
				if *o != string(w) {
					r.fail("yaml output is %s, want %s, on %s", *o, w, desc())
				}
			case "prometheus":
				if _, isVec := val.(promql.Vector); !isVec {
					if *o != res.String() {
						r.fail("output is %q, want %q, on %s", *o, res.String(), desc())
					}
					return
				}
				var lines []string
				for _, s := range vec {
					// every sample: name, the other labels, value and time
					name := ""
					var rest []string
					for _, l := range s.Metric {
						if l.Name == labels.MetricName {
							name = l.Value
						} else {
							rest = append(rest, l.Name+"="+strconv.Quote(l.Value))
						}
					}
					lines = append(lines, fmt.Sprintf("%s{%s} => %s @[%d]", name, strings.Join(rest, ", "), strconv.FormatFloat(s.V, 'f', -1, 64), s.T))
				}
				if *o != strings.Join(lines, "\n") {
					r.fail("output is %q, want %q, on %s", *o, strings.Join(lines, "\n"), desc())
				}
			}
			r.sample("%s -> %q", desc(), *o)
		})
	}
}

// ---- C13 ----

func TestVerif_C13(t *testing.T) {
	r := vstart(t)
	defer r.done()
	ctx := context.Background()
	for i := 0; r.more(i, 400); i++ {
		src := &vsource{}
		pd := NewPeriodicData(src, DefaultEngineOptions(10*time.Second, 100000))
		pd.Times = Range{Window: time.Minute, Interval: time.Second, Instant: r.rnd.Intn(2) == 0}
		m := newVmodel()
		ix := vixmodel{}
		query := ""
		calls := 0
		cbErr := errors.New("callback")
		var retErr error
		var hist []string
		desc := func() string { return strings.Join(hist, " ; ") }
		var state func(when string)
		pd.Callback = func(res *promql.Result) error {
			calls++
			state("while the callback runs")
			return retErr
		}
		state = func(when string) {
			keys, _, pts, ok := vreadAll(r, desc, pd.storage, labels.MustNewMatcher(labels.MatchRegexp, labels.MetricName, ".+"))
			if !ok {
				return
			}
			if fmt.Sprint(vsorted(keys)) != fmt.Sprint(vsorted(m.keys)) {
				r.fail("stored series %v, want %v, %s after %s", keys, m.keys, when, desc())
			}
			for _, k := range m.keys {
				if len(pts[k]) != len(m.pts[k]) {
					r.fail("series %s holds %v, want %v, %s after %s", k, pts[k], m.pts[k], when, desc())
				}
			}
			if g := vkeys(pd.GetIndex().GetMetricNames()); fmt.Sprint(g) != fmt.Sprint(vkeys(ix)) {
				r.fail("indexed metrics %v, want %v, %s after %s", g, vkeys(ix), when, desc())
			}
			for n := range ix {
				if g := vkeys(pd.GetIndex().GetStoredDimensionsForMetric(n)); fmt.Sprint(g) != fmt.Sprint(vkeys(ix[n])) {
					r.fail("indexed labels of %s %v, want %v, %s after %s", n, g, vkeys(ix[n]), when, desc())
				}
			}
			if pd.Query != query {
				r.fail("the query is %q, want %q, %s after %s", pd.Query, query, when, desc())
			}
		}
		r.try(desc, func() {
			for s := 0; s < 12; s++ {
				if r.rnd.Intn(2) == 0 {
					qs := []string{"m", "sum(m)", "m{", "", "rate(m[1m])", "m)", "{}", "time()", "((", "n{a=\"x\"}"}
					good := map[string]bool{"m": true, "sum(m)": true, "rate(m[1m])": true, "time()": true, "n{a=\"x\"}": true}
					q := qs[r.rnd.Intn(len(qs))]
					hist = append(hist, "SetQuery "+q)
					err := pd.SetQuery(ctx, q)
					if (err == nil) != good[q] {
						r.fail("SetQuery %q gives error %v", q, err)
					}
					if good[q] {
						query = q
					}
					state("")
					continue
				}
				src.data, src.err = nil, nil
				for n := r.rnd.Intn(4); n > 0; n-- {
					mm := map[string]string{labels.MetricName: []string{"m", "n"}[r.rnd.Intn(2)]}
					if r.rnd.Intn(2) == 0 {
						mm[[]string{"a", "b"}[r.rnd.Intn(2)]] = []string{"x", "y"}[r.rnd.Intn(2)]
					}
					src.data = append(src.data, ParsedSeries{Labels: labels.FromMap(mm), Value: float64(n), Timestamp: time.Now().UnixNano()/1e6 - int64(r.rnd.Intn(5))})
				}
				fails := r.rnd.Intn(3) == 0
				if fails {
					src.err = fmt.Errorf("scrape failed: %d", s)
				}
				retErr = nil
				if r.rnd.Intn(3) == 0 {
					retErr = cbErr
				}
				hist = append(hist, fmt.Sprintf("Scrape of %v failing=%v callback error=%v", src.data, fails, retErr))
				if !fails {
					for _, d := range src.data {
						m.load(d)
						ix.update(d.Labels)
					}
				}
				calls = 0
				err := pd.Scrape(ctx)
				switch {
				case fails:
					if !errors.Is(err, src.err) {
						r.fail("a failed scrape gives error %v after %s", err, desc())
					}
					if calls != 0 {
						r.fail("the callback runs after a failed scrape: %s", desc())
					}
				case query == "":
					// no query yet: an error, but the samples are stored
					if err == nil {
						r.fail("no error without a query after %s", desc())
					}
				default:
					if calls != 1 {
						r.fail("the callback runs %d times after %s", calls, desc())
					}
					if retErr == nil && err != nil || retErr != nil && !errors.Is(err, retErr) {
						r.fail("Scrape gives error %v, callback gave %v, after %s", err, retErr, desc())
					}
				}
				state("")
			}
		})
		r.ran(len(m.keys) > 0)
	}
}
