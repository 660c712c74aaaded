package sigs.k8s.io/instrumentation-tools/promq/prom
import parser github.com/prometheus/prometheus/promql/parser
import promql github.com/prometheus/prometheus/promql
import time time
import labels github.com/prometheus/prometheus/pkg/labels

guard PeriodicData.Query by queryMu

// ---- C13 ----
// the query texts the query language accepts
function pvalid(q string) bool
extern func parser.ParseExpr(input) (e, err)
  trusted "dependency: the parser of the query language"
  ensures err == nil <==> pvalid(input)

func (q *PeriodicData) SetQuery(ctx, query) (r)
  props C13, C09
  requires q.queryMu == 0
  modifies q.queryMu, q.Query
  ensures q.queryMu == 0
  ensures r == nil <==> pvalid(query)
  ensures pvalid(query) ==> q.Query == query
  ensures !pvalid(query) ==> q.Query == old(q.Query)

// the query made by the k-th construction, and the result of the k-th execution
function qtext(q promql.Query) string
function qstore(q promql.Query) any
function execres(k mathint) *promql.Result
extern func (ng *promql.Engine) NewInstantQuery(s, qs, ts) (r, err)
  traced niq
  trusted "dependency: the query engine"
  ensures err == nil ==> r != nil && qtext(r) == qs && qstore(r) == s
extern func (ng *promql.Engine) NewRangeQuery(s, qs, start, end, interval) (r, err)
  traced nrq
  trusted "dependency: the query engine"
  ensures err == nil ==> r != nil && qtext(r) == qs && qstore(r) == s
extern func (q promql.Query) Exec(ctx) (r)
  traced qexec
  trusted "dependency: the query engine; reads the store only"
  ensures r != nil && r == execres(ncalls(qexec)-1)
extern func (q promql.Query) Close()
  traced qclose
  trusted "dependency: the query engine"
extern func time.Now() (r)
  trusted "standard library: any time"
extern func (t time.Time) Add(d) (r)
  trusted "standard library: any time"

func (q *PeriodicData) ManuallyExecuteQuery(ctx, cb) (r)
  props C13, C09
  requires q.queryMu == 0 && q.storage != nil && q.engine != nil && cb != nil
  modifies q.queryMu, trace niq, trace nrq, trace qexec, trace qclose, trace cb
  ensures q.queryMu == 0
  // the callback runs at most once, on the result of the query in force over the stored data, and its error is the result
  ensures old(ncalls(cb)) <= ncalls(cb) && ncalls(cb) <= old(ncalls(cb)) + 1 && ncalls(qexec) - old(ncalls(qexec)) == ncalls(cb) - old(ncalls(cb))
  ensures ncalls(cb) > old(ncalls(cb)) ==> r == callres(cb, 0, old(ncalls(cb))) && callarg(cb, 0, old(ncalls(cb))) == execres(old(ncalls(qexec)))
  ensures ncalls(cb) > old(ncalls(cb)) ==> qtext(callarg(qexec, 0, old(ncalls(qexec)))) == q.Query && is(qstore(callarg(qexec, 0, old(ncalls(qexec)))), *rangeStorage) && qstore(callarg(qexec, 0, old(ncalls(qexec)))).(*rangeStorage) == q.storage
  ensures ncalls(cb) == old(ncalls(cb)) ==> r != nil

extern func (i Indexer) UpdateMetric(m)
  traced upd
  trusted "interface: an index touches nothing but its own state (the one implementation is proved under C10)"

function srcseq(d DataSource, k mathint) seq[ParsedSeries]
// what the k-th scrape overall delivers when it asks source d
function srclen(d DataSource, k mathint) mathint
function srcelem(d DataSource, k mathint, i mathint) ParsedSeries
function srcerr(d DataSource, k mathint) bool

extern func (d DataSource) ScrapePrometheusEndpoint(ctx, now) (r, err)
  traced scr
  trusted "interface: a source delivers any samples or any error"
  ensures len(r) == srclen(d, ncalls(scr)-1)
  ensures forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == srcelem(d, ncalls(scr)-1, i)
  ensures elems(r) == srcseq(d, ncalls(scr)-1)
  ensures err != nil <==> srcerr(d, ncalls(scr)-1)

pred stored(s *rangeStorage, x uint64, d datapoint) mathint := cnt(elems(s.data[x].data), len(s.data[x].data), d)

func (q *PeriodicData) Scrape(ctx) (r)
  props C13, C09
  define k0 = old(ncalls(scr))
  define u0 = old(ncalls(upd))
  define n = srclen(q.source, old(ncalls(scr)))
  define all = srcseq(q.source, old(ncalls(scr)))
  define H = old(heapof(labels.Label))
  requires q.storageMu == 0 && q.queryMu == 0 && q.source != nil && q.index != nil && q.storage != nil && q.engine != nil && q.Callback != nil
  requires wfMap(q.storage.series) && wfBlocks(q.storage) && wfDistinct(q.storage) && wfSorted(q.storage) && wfRefs1(q.storage) && wfRefs2(q.storage) && wfRefs3(q.storage) && wfPostings(q.storage) && indexed(q.storage)
  requires q.storage.nextPt + srclen(q.source, ncalls(scr)) < 18446744073709551615
  modifies q.storageMu, q.queryMu, trace scr, trace upd, trace niq, trace nrq, trace qexec, trace qclose, trace cb
  modifies q.storage.nextPt, mapof(q.storage.data), mapof(q.storage.series), heap *seriesRef, heap seriesData, heap datapoint, q.storage.postings.mtx, mapof(q.storage.postings.m), heap map[string][]uint64, heap uint64
  ensures q.storageMu == 0 && q.queryMu == 0
  ensures ncalls(scr) == k0 + 1 && callarg(scr, 0, k0) == q.source
  // a failed scrape touches nothing
  ensures srcerr(q.source, k0) ==> r != nil && ncalls(upd) == u0 && ncalls(cb) == old(ncalls(cb)) && ncalls(qexec) == old(ncalls(qexec))
  ensures srcerr(q.source, k0) ==> q.storage.nextPt == old(q.storage.nextPt) && q.storage.data == old(q.storage.data)
  ensures srcerr(q.source, k0) ==> dom(q.storage.data) == old(dom(q.storage.data))
  ensures forall x uint64 {q.storage.data[x]} :: srcerr(q.source, k0) && (x in q.storage.data) ==> q.storage.data[x] == old(q.storage.data[x]) && q.storage.data[x].data == old(q.storage.data[x].data) && elems(q.storage.data[x].data) == old(elems(q.storage.data[x].data))
  // otherwise every sample is indexed and stored
  ensures !srcerr(q.source, k0) ==> ncalls(upd) == u0 + n
  ensures forall k int {callarg(upd, 1, k)} {callarg(upd, 0, k)} :: !srcerr(q.source, k0) && u0 <= k && k < u0 + n ==> callarg(upd, 0, k) == q.index && callarg(upd, 1, k) == all[k-u0]
  ensures wfMap(q.storage.series)
  ensures wfBlocks(q.storage)
  ensures wfDistinct(q.storage)
  ensures wfSorted(q.storage)
  ensures wfRefs1(q.storage)
  ensures wfRefs2(q.storage)
  ensures wfRefs3(q.storage)
  ensures wfPostings(q.storage)
  ensures indexed(q.storage)
  ensures forall i int {all[i]} :: !srcerr(q.source, k0) && 0 <= i && i < n ==> known(q.storage.series, lid(H[base(all[i].Labels)], len(all[i].Labels)))
  ensures forall x uint64, d datapoint {cnt(elems(q.storage.data[x].data), len(q.storage.data[x].data), d)} :: !srcerr(q.source, k0) && (x in q.storage.data) ==> stored(q.storage, x, d) == (old(x in q.storage.data) ? old(stored(q.storage, x, d)) : 0) + pcnt(H, all, n, sid(q.storage, x), d)
  // before the query runs
  oncall ManuallyExecuteQuery !srcerr(q.source, k0) && ncalls(upd) == u0 + n && a2 == q.Callback && a0 == q
  oncall ManuallyExecuteQuery forall i int {all[i]} :: 0 <= i && i < n ==> known(q.storage.series, lid(H[base(all[i].Labels)], len(all[i].Labels)))
  oncall ManuallyExecuteQuery forall x uint64, d datapoint {cnt(elems(q.storage.data[x].data), len(q.storage.data[x].data), d)} :: (x in q.storage.data) ==> stored(q.storage, x, d) == (old(x in q.storage.data) ? old(stored(q.storage, x, d)) : 0) + pcnt(H, all, n, sid(q.storage, x), d)
  // success means the callback ran and reported none
  ensures r == nil ==> ncalls(cb) == old(ncalls(cb)) + 1 && callres(cb, 0, old(ncalls(cb))) == nil
  ensures !srcerr(q.source, k0) && ncalls(cb) > old(ncalls(cb)) && callres(cb, 0, old(ncalls(cb))) != nil ==> r != nil
  loop 1
    invariant ncalls(upd) == u0 + $i && q.storageMu == 1
    invariant forall k int {callarg(upd, 1, k)} {callarg(upd, 0, k)} :: u0 <= k && k < u0 + $i ==> callarg(upd, 0, k) == q.index && callarg(upd, 1, k) == all[k-u0]

extern func promql.NewEngine(opts) (r)
  trusted "dependency: a new query engine"
  ensures r != nil
func NewPeriodicData(source, opts) (r)
  props C13
  ensures r != nil && fresh(r) && r.source == source && r.storageMu == 0 && r.queryMu == 0 && r.Query == ""
  ensures r.storage != nil && r.engine != nil && r.index != nil && r.storage.nextPt == 0
  ensures wfMap(r.storage.series) && wfBlocks(r.storage) && wfDistinct(r.storage) && wfSorted(r.storage) && wfRefs1(r.storage) && wfRefs2(r.storage) && wfRefs3(r.storage) && wfPostings(r.storage) && indexed(r.storage)
