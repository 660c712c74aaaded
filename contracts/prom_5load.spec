package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels

// how often a sample occurs among the first n of a list
recpred cnt(a seq[datapoint], n mathint, d datapoint) mathint := n <= 0 ? 0 : cnt(a, n-1, d) + (a[n-1] == d ? 1 : 0)
lemma cnt_eq(a seq[datapoint], b seq[datapoint], n mathint, d datapoint)
  requires forall i int {a[i]} {b[i]} :: 0 <= i && i < n ==> a[i] == b[i]
  requires n >= 0
  induction n
  use unfold(cnt(a, n, d))
  use unfold(cnt(b, n, d))
  use cnt_eq(a, b, n-1, d)
  ensures cnt(a, n, d) == cnt(b, n, d)
// b is a with x put in at place k
pred insertedAt(a seq[datapoint], b seq[datapoint], n mathint, k mathint, x datapoint) bool := 0 <= k && k <= n && b[k] == x && (forall i int {a[i]} {b[i]} :: 0 <= i && i < k ==> b[i] == a[i]) && (forall i int {a[i]} :: k <= i && i < n ==> b[i+1] == a[i]) && (forall i int {b[i]} :: k < i && i <= n ==> b[i] == a[i-1])
lemma cnt_ins(a seq[datapoint], b seq[datapoint], n mathint, k mathint, x datapoint, d datapoint)
  requires n >= 0 && insertedAt(a, b, n, k, x)
  induction n
  use unfold(cnt(a, n, d))
  use unfold(cnt(b, n, d))
  use unfold(cnt(b, n+1, d))
  use cnt_eq(a, b, n, d)
  use cnt_ins(a, b, n-1, k, x, d)
  ensures cnt(b, n+1, d) == cnt(a, n, d) + (x == d ? 1 : 0)

// how often a sample for label set L occurs among the first n loaded points
recpred pcnt(H arr[int]seq[labels.Label], p seq[ParsedSeries], n mathint, L mathint, d datapoint) mathint := n <= 0 ? 0 : pcnt(H, p, n-1, L, d) + ((lid(H[base(p[n-1].Labels)], len(p[n-1].Labels)) == L && mk(datapoint, p[n-1].Timestamp, p[n-1].Value) == d) ? 1 : 0)
// b is a with x put in somewhere
function putIn(a seq[datapoint], b seq[datapoint], n mathint, x datapoint) bool
axiom putIn_def(a seq[datapoint], b seq[datapoint], n mathint, x datapoint)
  trigger putIn(a, b, n, x)
  ensures putIn(a, b, n, x) <==> (exists k mathint {b[k]} :: insertedAt(a, b, n, k, x))
lemma cnt_put(a seq[datapoint], b seq[datapoint], n mathint, x datapoint, d datapoint)
  requires n >= 0 && putIn(a, b, n, x)
  use forall k mathint {b[k]} :: cnt_ins(a, b, n, k, x, d)
  ensures cnt(b, n+1, d) == cnt(a, n, d) + (x == d ? 1 : 0)

// ---- the store ----
pred wfBlocks(s *rangeStorage) bool := s.data != nil && allocated(s.data)
  && (forall r uint64 {r in s.data} {s.data[r]} :: (r in s.data) ==> s.data[r] != nil && allocated(s.data[r]) && allocated(s.data[r].data) && r < s.nextPt)
  && (forall r uint64 {s.data[r].data} :: (r in s.data) ==> len(s.data[r].data) > 0)
pred wfDistinct(s *rangeStorage) bool := (forall r1 uint64, r2 uint64 {s.data[r1], s.data[r2]} :: (r1 in s.data) && (r2 in s.data) && r1 != r2 ==> s.data[r1] != s.data[r2] && base(s.data[r1].data) != base(s.data[r2].data))
pred wfSorted(s *rangeStorage) bool := (forall r uint64, i int, j int {s.data[r].data[i], s.data[r].data[j]} :: (r in s.data) && 0 <= i && i < j && j < len(s.data[r].data) ==> s.data[r].data[i].timestamp <= s.data[r].data[j].timestamp)
pred sid(s *rangeStorage, r uint64) mathint := lset(s.data[r].series)
// label sets and references correspond one to one
pred wfRefs1(s *rangeStorage) bool := forall q *seriesRef {inchain(s.series, q)} :: inmap(s.series, q) ==> (q.index in s.data) && sid(s, q.index) == rid(q)
pred wfRefs2(s *rangeStorage) bool := forall r uint64 {s.data[r]} {r in s.data} :: (r in s.data) ==> known(s.series, sid(s, r))
pred wfRefs3(s *rangeStorage) bool := (forall r1 uint64, r2 uint64 {s.data[r1], s.data[r2]} :: (r1 in s.data) && (r2 in s.data) && r1 != r2 ==> sid(s, r1) != sid(s, r2))
pred wfPostings(s *rangeStorage) bool := s.postings != nil && allocated(s.postings) && s.postings.mtx == 0 && wfPost(s.postings) && orderedPost(s.postings) && noEmpty(s.postings)
// the label index lists exactly the stored references under exactly their labels
pred indexed(s *rangeStorage) bool := forall n string, v string, x uint64 {x in eset(elems(s.postings.m[n][v]), len(s.postings.m[n][v]))} :: memL(s.postings, n, v, x) <==> ((x in s.data) && (haslab(s.data[x].series, n, v) || (n == "" && v == "")))

// no series is loaded with a label twice or without a name
pred labsok(points []ParsedSeries) bool := forall i int {points[i]} :: 0 <= i && i < len(points) ==> labuniq(points[i].Labels) && labnamed(points[i].Labels)

func NewRangeStorage() (r)
  props C03, C04, C07
  separate
  ensures r != nil && fresh(r) && r.nextPt == 0
  ensures wfMap(r.series)
  ensures wfBlocks(r)
  ensures wfDistinct(r)
  ensures wfSorted(r)
  ensures wfRefs1(r)
  ensures wfRefs2(r)
  ensures wfRefs3(r)
  ensures wfPostings(r)
  ensures indexed(r)
  ensures[C07] strictPost(r.postings)
  ensures forall x uint64 {x in r.data} :: !(x in r.data)

func (s *rangeStorage) LoadData(points) (r)
  props C03, C04, C07
  separate
  define H = heapof(labels.Label)
  requires s.nextPt + len(points) < 18446744073709551615
  requires wfMap(s.series) && wfBlocks(s) && wfDistinct(s) && wfSorted(s) && wfRefs1(s) && wfRefs2(s) && wfRefs3(s) && wfPostings(s) && indexed(s)
  modifies s.nextPt, mapof(s.data), mapof(s.series), heap *seriesRef, heap seriesData, heap datapoint, s.postings.mtx, mapof(s.postings.m), heap map[string][]uint64, heap uint64
  use forall L mathint, d datapoint {pcnt(H, elems(points), 0, L, d)} :: unfold(pcnt(H, elems(points), 0, L, d))
  ensures r == nil
  ensures wfMap(s.series)
  ensures wfBlocks(s)
  ensures wfDistinct(s)
  ensures wfSorted(s)
  ensures wfRefs1(s)
  ensures wfRefs2(s)
  ensures wfRefs3(s)
  ensures wfPostings(s)
  ensures indexed(s)
  ensures[C07] old(strictPost(s.postings)) && labsok(points) ==> strictPost(s.postings)
  ensures forall x uint64 {s.data[x]} {x in s.data} :: old(x in s.data) ==> (x in s.data) && s.data[x] == old(s.data[x]) && sid(s, x) == old(sid(s, x))
  ensures forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: (x in s.data) ==> cnt(elems(s.data[x].data), len(s.data[x].data), d) == (old(x in s.data) ? old(cnt(elems(s.data[x].data), len(s.data[x].data), d)) : 0) + pcnt(H, elems(points), len(points), sid(s, x), d)
  ensures forall i int {points[i]} :: 0 <= i && i < len(points) ==> known(s.series, lset(points[i].Labels))
  loop 1
    use forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: cnt_put(it(elems(s.data[x].data)), elems(s.data[x].data), it(len(s.data[x].data)), mk(datapoint, points[it($i)].Timestamp, points[it($i)].Value), d)
    use forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: unfold(cnt(elems(s.data[x].data), 1, d))
    use forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: unfold(cnt(elems(s.data[x].data), 0, d))
    use forall L mathint, d datapoint {pcnt(H, elems(points), 0, L, d)} :: unfold(pcnt(H, elems(points), 0, L, d))
    use forall L mathint, d datapoint {pcnt(H, elems(points), $i, L, d)} :: unfold(pcnt(H, elems(points), $i, L, d))
    invariant s.nextPt <= old(s.nextPt) + $i && s.data == old(s.data) && s.series == old(s.series) && s.postings == old(s.postings) && s.postings.m == old(s.postings.m)
    invariant wfMap(s.series)
    invariant wfBlocks(s)
    invariant wfDistinct(s)
    invariant wfSorted(s)
    invariant wfRefs1(s)
    invariant wfRefs2(s)
    invariant wfRefs3(s)
    invariant wfPostings(s)
    assert forall x uint64 {x in s.data} {s.data[x]} :: (x in s.data) <==> it(x in s.data) || (x == it(s.nextPt) && !it(known(s.series, lset(points[$i].Labels))))
    assert forall x uint64 {s.data[x]} :: (x in s.data) ==> s.data[x].series == (it(x in s.data) ? it(s.data[x].series) : points[it($i)].Labels)
    assert forall n string, v string, x uint64 {x in eset(elems(s.postings.m[n][v]), len(s.postings.m[n][v]))} :: memL(s.postings, n, v, x) <==> it(memL(s.postings, n, v, x)) || (x == it(s.nextPt) && !it(known(s.series, lset(points[$i].Labels))) && (haslab(points[it($i)].Labels, n, v) || (n == "" && v == "")))
    invariant indexed(s)
    invariant old(strictPost(s.postings)) && labsok(points) ==> strictPost(s.postings)
    invariant forall x uint64 {s.data[x]} {x in s.data} :: old(x in s.data) ==> (x in s.data) && s.data[x] == old(s.data[x]) && sid(s, x) == old(sid(s, x))
    invariant forall L mathint, d datapoint {pcnt(H, elems(points), $i, L, d)} :: !known(s.series, L) ==> pcnt(H, elems(points), $i, L, d) == 0
    assert forall x uint64 {x in s.data} {s.data[x]} :: (x in s.data) && !it(x in s.data) ==> !it(known(s.series, lset(points[$i].Labels)))
    assert forall x uint64 {x in s.data} {s.data[x]} :: (x in s.data) && !it(x in s.data) ==> len(s.data[x].data) == 1 && s.data[x].data[0] == mk(datapoint, points[it($i)].Timestamp, points[it($i)].Value) && sid(s, x) == lset(points[it($i)].Labels)
    assert forall x uint64 {x in s.data} {s.data[x]} :: it(x in s.data) && sid(s, x) != lset(points[it($i)].Labels) ==> len(s.data[x].data) == it(len(s.data[x].data)) && elems(s.data[x].data) == it(elems(s.data[x].data))
    assert forall x uint64 {x in s.data} {s.data[x]} :: it(x in s.data) && sid(s, x) == lset(points[it($i)].Labels) ==> len(s.data[x].data) == it(len(s.data[x].data)) + 1
    assert forall x uint64 {x in s.data} {s.data[x]} :: it(x in s.data) && sid(s, x) == lset(points[it($i)].Labels) ==> putIn(it(elems(s.data[x].data)), elems(s.data[x].data), it(len(s.data[x].data)), mk(datapoint, points[it($i)].Timestamp, points[it($i)].Value))
    assert forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: (x in s.data) ==> cnt(elems(s.data[x].data), len(s.data[x].data), d) == (it(x in s.data) ? it(cnt(elems(s.data[x].data), len(s.data[x].data), d)) : 0) + ((sid(s, x) == lset(points[it($i)].Labels) && mk(datapoint, points[it($i)].Timestamp, points[it($i)].Value) == d) ? 1 : 0)
    invariant forall x uint64, d datapoint {cnt(elems(s.data[x].data), len(s.data[x].data), d)} :: (x in s.data) ==> cnt(elems(s.data[x].data), len(s.data[x].data), d) == (old(x in s.data) ? old(cnt(elems(s.data[x].data), len(s.data[x].data), d)) : 0) + pcnt(H, elems(points), $i, sid(s, x), d)
    invariant forall i int {points[i]} :: 0 <= i && i < $i ==> known(s.series, lset(points[i].Labels))
