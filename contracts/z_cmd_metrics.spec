package sigs.k8s.io/instrumentation-tools/cmd/metrics
import prom sigs.k8s.io/instrumentation-tools/promq/prom
import promql github.com/prometheus/prometheus/promql
import plot sigs.k8s.io/instrumentation-tools/promq/term/plot
import labels github.com/prometheus/prometheus/pkg/labels

// ---- C14 ----

// the number of samples the first n sources deliver, from scrape k0 on
recpred srcsum(s seq[prom.DataSource], k0 mathint, n mathint) mathint := n <= 0 ? 0 : srcsum(s, k0, n-1) + srclen(s[n-1], k0+n-1)

func (d DataSources) ScrapePrometheusEndpoint(ctx, ts) (r, err)
  props C14
  requires forall i int {d.sources[i]} :: 0 <= i && i < len(d.sources) ==> d.sources[i] != nil
  modifies trace scr
  define k0 = old(ncalls(scr))
  define n = ncalls(scr) - old(ncalls(scr))
  // the sources are consulted in order, each once, with the given time
  ensures 0 <= n && n <= len(d.sources)
  ensures forall j int {callarg(scr, 0, k0+j)} :: 0 <= j && j < n ==> callarg(scr, 0, k0+j) == d.sources[j] && callarg(scr, 2, k0+j) == ts
  // no error: every source delivered, and the result is all of their samples in order
  ensures err == nil ==> n == len(d.sources) && (forall j int {d.sources[j]} :: 0 <= j && j < n ==> !srcerr(d.sources[j], k0+j))
  ensures err == nil ==> len(r) == srcsum(elems(d.sources), k0, len(d.sources))
  ensures err == nil ==> forall j int, i int {srcelem(d.sources[j], k0+j, i)} :: 0 <= j && j < len(d.sources) && 0 <= i && i < srclen(d.sources[j], k0+j) ==> r[srcsum(elems(d.sources), k0, j)+i] == srcelem(d.sources[j], k0+j, i)
  // an error is that of the last source consulted
  ensures err != nil ==> n > 0 && srcerr(d.sources[n-1], k0+n-1)
  ensures err != nil ==> forall j int {d.sources[j]} :: 0 <= j && j < n-1 ==> !srcerr(d.sources[j], k0+j)
  use unfold(srcsum(elems(d.sources), old(ncalls(scr)), 0))
  loop 1
    use unfold(srcsum(elems(d.sources), k0, $i))
    use unfold(srcsum(elems(d.sources), k0, $i+1))
    invariant ncalls(scr) == k0 + $i && fresh(accumMetrics)
    invariant forall j int {callarg(scr, 0, k0+j)} :: 0 <= j && j < $i ==> callarg(scr, 0, k0+j) == d.sources[j] && callarg(scr, 2, k0+j) == ts
    invariant forall j int {d.sources[j]} :: 0 <= j && j < $i ==> !srcerr(d.sources[j], k0+j)
    invariant len(accumMetrics) == srcsum(elems(d.sources), k0, $i)
    invariant forall j int, i int {srcelem(d.sources[j], k0+j, i)} :: 0 <= j && j < $i && 0 <= i && i < srclen(d.sources[j], k0+j) ==> 0 <= srcsum(elems(d.sources), k0, j) && srcsum(elems(d.sources), k0, j) + i < len(accumMetrics) && accumMetrics[srcsum(elems(d.sources), k0, j)+i] == srcelem(d.sources[j], k0+j, i)

// ---- C15 ----

extern func (r *promql.Result) Matrix() (m, err)
  trusted "dependency: the value of the result, if it is a matrix and the query did not fail"
  ensures err == nil <==> (r.Err == nil && is(r.Value, promql.Matrix))
  ensures err == nil ==> m == r.Value.(promql.Matrix)

pred sameseries(s plot.Series, o promql.Series) bool := is(s, *PromSeries) && s.(*PromSeries) != nil
  && s.(*PromSeries).id == lhash(lset(o.Metric)) % 255 + 1
  && len(s.(*PromSeries).points) == len(o.Points)
  && (forall j int {s.(*PromSeries).points[j]} :: 0 <= j && j < len(o.Points) ==> is(s.(*PromSeries).points[j], PromPoint) && s.(*PromSeries).points[j].(PromPoint).T == o.Points[j].T && s.(*PromSeries).points[j].(PromPoint).V == o.Points[j].V)

func PromResultToPromSeriesSet(res) (r, err)
  props C15
  requires res != nil
  define mx = res.Value.(promql.Matrix)
  ensures res.Err != nil ==> err == res.Err
  ensures err != nil ==> r == nil
  ensures err == nil <==> (res.Err == nil && is(res.Value, promql.Matrix))
  ensures err == nil ==> len(r) == len(mx) && fresh(r)
  ensures err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> sameseries(r[i], mx[i])
  ensures err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> fresh(r[i].(*PromSeries)) && fresh(r[i].(*PromSeries).points)
  ensures err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> 1 <= r[i].(*PromSeries).id && r[i].(*PromSeries).id <= 255
  loop 1
    invariant fresh(set) && len(set) == len(rawSeriesSet)
    invariant forall i int {set[i]} :: 0 <= i && i < $i ==> sameseries(set[i], rawSeriesSet[i]) && allocated(set[i].(*PromSeries)) && allocated(set[i].(*PromSeries).points) && fresh(set[i].(*PromSeries)) && fresh(set[i].(*PromSeries).points)
  loop 3
    invariant fresh(series) && fresh(series.points) && len(series.points) == len(origSeries.Points)
    invariant series.id == lhash(lset(origSeries.Metric)) % 255 + 1
    invariant forall j int {series.points[j]} :: 0 <= j && j < $i ==> is(series.points[j], PromPoint) && series.points[j].(PromPoint).T == origSeries.Points[j].T && series.points[j].(PromPoint).V == origSeries.Points[j].V

func (s *PromSeries) Title() (r)
  props C15
  ensures r == s.title
func (s *PromSeries) Id() (r)
  props C15
  ensures r == s.id
func (s *PromSeries) Points() (r)
  props C15
  ensures r == s.points
func (p PromPoint) X() (r)
  props C15
  ensures r == p.T
func (p PromPoint) Y() (r)
  props C15
  ensures r == p.V
