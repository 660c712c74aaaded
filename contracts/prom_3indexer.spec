package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels
import sets sigs.k8s.io/instrumentation-tools/notstdlib/sets

guard indexer.store by metricNameMu
guard indexer.metricBloomFilter by metricNameMu

// what a label set (by identity) carries
function lhas(l mathint, n string) bool
function lget(l mathint, n string) string

extern func (ls labels.Labels) Map() (r)
  trusted "dependency: the label set as a new map"
  ensures r != nil && fresh(r)
  ensures forall n string {n in r} {lhas(lset(ls), n)} :: (n in r) <==> lhas(lset(ls), n)
  ensures forall n string {r[n]} {lget(lset(ls), n)} :: (n in r) ==> r[n] == lget(lset(ls), n)

pred inner(i *indexer, n string, l string) bool := (n in i.store) && (l in i.store[n])
pred idx(i *indexer, n string, l string, v string) bool := inner(i, n, l) && (v in i.store[n][l])
pred wfIndex(i *indexer) bool := i.store != nil && i.metricBloomFilter != nil && allocated(i.store) && allocated(i.metricBloomFilter)
  && (forall n string {n in i.store} {i.store[n]} :: (n in i.store) ==> i.store[n] != nil && allocated(i.store[n]))
  && (forall n1 string, n2 string {i.store[n1], i.store[n2]} :: (n1 in i.store) && (n2 in i.store) && n1 != n2 ==> i.store[n1] != i.store[n2])
  && (forall n string, l string {l in i.store[n]} {i.store[n][l]} :: inner(i, n, l) ==> i.store[n][l] != nil && allocated(i.store[n][l]))
  && (forall n1 string, l1 string, n2 string, l2 string {i.store[n1][l1], i.store[n2][l2]} :: inner(i, n1, l1) && inner(i, n2, l2) && (n1 != n2 || l1 != l2) ==> i.store[n1][l1] != i.store[n2][l2])

// label set L is completely recorded
pred recorded(i *indexer, L mathint) bool := (lget(L, labels.MetricName) in i.store)
  && (forall l string {lhas(L, l)} :: lhas(L, l) && l != labels.MetricName ==> idx(i, lget(L, labels.MetricName), l, lget(L, l)))
// no other label set has the hash of L
pred solo(L mathint) bool := forall L2 mathint {lhash(L2)} :: lhash(L2) == lhash(L) ==> L2 == L
pred bloomOK(i *indexer) bool := forall L mathint {lhash(L)} :: (lhash(L) in i.metricBloomFilter) && solo(L) && lhas(L, labels.MetricName) ==> recorded(i, L)

func NewIndex() (r)
  props C10
  ensures is(r, *indexer) && r.(*indexer) != nil && fresh(r.(*indexer))
  ensures wfIndex(r.(*indexer)) && r.(*indexer).metricNameMu == 0
  ensures bloomOK(r.(*indexer))
  ensures forall n string {n in r.(*indexer).store} :: !(n in r.(*indexer).store)

func (i *indexer) UpdateMetric(m)
  props C10, C09
  define L = lset(m.Labels)
  define name = lget(lset(m.Labels), labels.MetricName)
  requires i.metricNameMu == 0
  requires wfIndex(i) && bloomOK(i)
  modifies i.metricNameMu, mapof(i.metricBloomFilter), mapof(i.store), heap map[string]sets.String, heap sets.String
  ensures i.metricNameMu == 0
  ensures wfIndex(i)
  ensures bloomOK(i)
  // nothing disappears
  ensures forall n string {n in i.store} {i.store[n]} :: old(n in i.store) ==> (n in i.store)
  ensures forall n string, l string, v string {v in i.store[n][l]} :: old(idx(i, n, l, v)) ==> idx(i, n, l, v)
  // nothing appears but what the series carries
  ensures forall n string {n in i.store} {i.store[n]} :: (n in i.store) ==> old(n in i.store) || (lhas(L, labels.MetricName) && n == name)
  ensures forall n string, l string {i.store[n][l]} {l in i.store[n]} :: inner(i, n, l) ==> old(inner(i, n, l)) || (lhas(L, labels.MetricName) && n == name && lhas(L, l) && l != labels.MetricName)
  ensures forall n string, l string, v string {v in i.store[n][l]} :: idx(i, n, l, v) ==> old(idx(i, n, l, v)) || (lhas(L, labels.MetricName) && n == name && lhas(L, l) && l != labels.MetricName && v == lget(L, l))
  // everything it carries is recorded, unless another label set has the same hash
  ensures solo(L) && lhas(L, labels.MetricName) ==> recorded(i, L)
  ensures lhas(L, labels.MetricName) ==> (lhash(L) in i.metricBloomFilter)
  loop 1
    invariant i.metricNameMu == 1 && wfIndex(i)
    invariant forall l1 string {l1 in visited} :: (l1 in visited) ==> lhas(L, l1)
    invariant dom(i.store) == pre(dom(i.store)) && (n in i.store)
    invariant dom(i.metricBloomFilter) == pre(dom(i.metricBloomFilter))
    invariant forall n1 string {i.store[n1]} :: (n1 in i.store) ==> i.store[n1] == pre(i.store[n1])
    invariant forall n1 string, l1 string {i.store[n1][l1]} {l1 in i.store[n1]} :: inner(i, n1, l1) <==> old(inner(i, n1, l1)) || (n1 == n && (l1 in visited) && l1 != labels.MetricName)
    invariant forall n1 string, l1 string, v1 string {v1 in i.store[n1][l1]} :: idx(i, n1, l1, v1) <==> old(idx(i, n1, l1, v1)) || (n1 == n && (l1 in visited) && l1 != labels.MetricName && v1 == lget(L, l1))

func (i *indexer) GetMetricNames() (r)
  props C10, C09
  requires i.metricNameMu == 0 && wfIndex(i)
  modifies i.metricNameMu
  ensures i.metricNameMu == 0
  ensures r != nil && fresh(r) && dom(r) == dom(i.store)

func (i *indexer) GetStoredDimensionsForMetric(metricName) (r)
  props C10, C09
  requires i.metricNameMu == 0 && wfIndex(i)
  modifies i.metricNameMu
  ensures i.metricNameMu == 0
  ensures r != nil && fresh(r)
  ensures forall l string {l in r} :: (l in r) <==> inner(i, metricName, l)

func (i *indexer) GetStoredValuesForMetricAndDimension(metricName, dimension) (r)
  props C10, C09
  requires i.metricNameMu == 0 && wfIndex(i)
  modifies i.metricNameMu
  ensures i.metricNameMu == 0
  ensures r != nil ==> fresh(r)
  ensures forall v string {v in r} :: (v in r) <==> idx(i, metricName, dimension, v)

extern func sets.StringKeySet(theMap) (r)
  trusted "reads the keys of any map by reflection, which the verifier does not model; checked by the bounded replay of C01 and C10"
  ensures r != nil && fresh(r)
  ensures is(theMap, map[string]map[string]sets.String) ==> dom(r) == dom(theMap.(map[string]map[string]sets.String))
  ensures is(theMap, map[string]string) ==> dom(r) == dom(theMap.(map[string]string))
  ensures is(theMap, map[string]string) ==> (forall k string {k in r} {k in theMap.(map[string]string)} :: (k in r) <==> (k in theMap.(map[string]string)))
  ensures is(theMap, map[string]sets.String) && theMap.(map[string]sets.String) != nil ==> dom(r) == dom(theMap.(map[string]sets.String))
  ensures is(theMap, map[string]sets.String) && theMap.(map[string]sets.String) == nil ==> dom(r) == emptyset(string)
