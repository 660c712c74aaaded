package sigs.k8s.io/instrumentation-tools/promq/prom

lemma sset_step(a seq[string], n mathint)
  requires n >= 1
  ensures forall x string {x in sset(a, n)} {x in sset(a, n-1)} :: (x in sset(a, n)) <==> (x in sset(a, n-1)) || x == a[n-1]
lemma sset_none(a seq[string])
  ensures forall x string {x in sset(a, 0)} :: !(x in sset(a, 0))

pred del(p *memPostings, deleted map[uint64]struct{}, n string, v string, x uint64) bool := memL(p, n, v, x) && !(x in deleted)

func (p *memPostings) Delete(deleted)
  props C05, C06, C07, C09
  separate
  requires p.mtx == 0
  requires wfPost(p) && orderedPost(p)
  requires noEmpty(p)
  modifies p.mtx, mapof(p.m), heap map[string][]uint64
  ensures p.mtx == 0
  ensures wfMaps(p)
  ensures wfLists(p)
  ensures orderedPost(p)
  ensures forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: memL(p, n, v, x) <==> old(del(p, deleted, n, v, x))
  ensures forall n string, v string {p.m[n][v]} {v in p.m[n]} :: has(p, n, v) ==> old(has(p, n, v))
  ensures noEmpty(p)
  ensures old(strictPost(p)) ==> strictPost(p)
  loop 1
    invariant p.mtx == 2 && freshornil(keys)
    invariant forall n string {n in visited} {n in sset(elems(keys), len(keys))} :: (n in visited) <==> (n in sset(elems(keys), len(keys)))
  loop 2
    use sset_none(elems(keys))
    use sset_step(elems(keys), $i)
    invariant p.mtx == 0 && p.m == old(p.m) && p.ordered == old(p.ordered) && freshornil(vals)
    invariant len(vals) > 0 || cap(vals) > 0 ==> base(vals) != base(keys)
    invariant elems(keys) == pre(elems(keys))
    invariant wfMaps(p)
    invariant wfLists(p)
    invariant orderedPost(p)
    invariant old(strictPost(p)) ==> strictPost(p)
    assert forall n2 string {p.m[n2]} {n2 in p.m} :: n2 != keys[it($i)] ==> ((n2 in p.m) <==> it(n2 in p.m)) && p.m[n2] == it(p.m[n2])
    assert forall n2 string, v string {p.m[n2][v]} {v in p.m[n2]} :: n2 != keys[it($i)] && (n2 in p.m) ==> ((v in p.m[n2]) <==> it(v in p.m[n2])) && p.m[n2][v] == it(p.m[n2][v])
    assert forall v string {p.m[keys[it($i)]][v]} {v in p.m[keys[it($i)]]} :: has(p, keys[it($i)], v) ==> it(has(p, keys[it($i)], v))
    assert forall v string, x uint64 {x in eset(elems(p.m[keys[it($i)]][v]), len(p.m[keys[it($i)]][v]))} :: memL(p, keys[it($i)], v, x) <==> it(del(p, deleted, keys[it($i)], v, x))
    invariant forall n string, v string {p.m[n][v]} {v in p.m[n]} :: has(p, n, v) ==> old(has(p, n, v))
    invariant noEmpty(p)
    invariant forall n string {n in p.m} :: (n in p.m) ==> old(n in p.m)
    assert forall n2 string, v string {p.m[n2][v]} :: n2 != keys[it($i)] && has(p, n2, v) ==> elems(p.m[n2][v]) == it(elems(p.m[n2][v])) && len(p.m[n2][v]) == it(len(p.m[n2][v]))
    assert forall n2 string, v string, x uint64 {x in eset(elems(p.m[n2][v]), len(p.m[n2][v]))} :: n2 != keys[it($i)] ==> (memL(p, n2, v, x) <==> it(memL(p, n2, v, x)))
    invariant forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: (n in sset(elems(keys), $i)) ==> (memL(p, n, v, x) <==> old(del(p, deleted, n, v, x)))
    invariant forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: !(n in sset(elems(keys), $i)) ==> (memL(p, n, v, x) <==> old(memL(p, n, v, x)))
  loop 3
    invariant p.mtx == 2 && freshornil(vals)
    invariant len(vals) > 0 || cap(vals) > 0 ==> base(vals) != base(keys)
    invariant elems(keys) == pre(elems(keys))
    invariant forall v string {v in visited} {v in sset(elems(vals), len(vals))} :: (v in visited) <==> (v in sset(elems(vals), len(vals)))
  loop 4
    use sset_none(elems(vals))
    use sset_step(elems(vals), $i)
    invariant p.mtx == 0 && p.m == pre(p.m) && p.ordered == pre(p.ordered) && p.m[n] == pre(p.m[n])
    invariant wfMaps(p)
    assert forall n2 string, v string {p.m[n2][v]} {v in p.m[n2]} :: (n2 in p.m) && (n2 != n || v != vals[it($i)]) ==> ((v in p.m[n2]) <==> it(v in p.m[n2])) && p.m[n2][v] == it(p.m[n2][v])
    assert forall n2 string, v string {p.m[n2][v]} :: has(p, n2, v) && (n2 != n || v != vals[it($i)]) ==> elems(p.m[n2][v]) == it(elems(p.m[n2][v]))
    assert it(has(p, n, vals[$i])) || !has(p, n, vals[it($i)])
    assert has(p, n, vals[it($i)]) ==> len(p.m[n][vals[it($i)]]) > 0 && allocated(p.m[n][vals[it($i)]])
    assert forall n2 string, v2 string {p.m[n2][v2]} :: has(p, n, vals[it($i)]) && has(p, n2, v2) && (n2 != n || v2 != vals[it($i)]) ==> base(p.m[n][vals[it($i)]]) != base(p.m[n2][v2])
    invariant wfLists(p)
    assert p.ordered && has(p, n, vals[it($i)]) ==> sortedU(p.m[n][vals[it($i)]])
    assert old(strictPost(p)) && has(p, n, vals[it($i)]) ==> strictU(p.m[n][vals[it($i)]])
    invariant orderedPost(p)
    invariant old(strictPost(p)) ==> strictPost(p)
    invariant forall v string {p.m[n][v]} {v in p.m[n]} :: has(p, n, v) ==> pre(has(p, n, v))
    invariant forall n2 string, v string {p.m[n2][v]} {v in p.m[n2]} :: n2 != n && (n2 in p.m) ==> ((v in p.m[n2]) <==> pre(v in p.m[n2])) && p.m[n2][v] == pre(p.m[n2][v]) && ((v in p.m[n2]) ==> elems(p.m[n2][v]) == pre(elems(p.m[n2][v])))
    assert forall x uint64 {x in eset(elems(p.m[n][vals[it($i)]]), len(p.m[n][vals[it($i)]]))} :: memL(p, n, vals[it($i)], x) <==> it(del(p, deleted, n, vals[$i], x))
    invariant forall v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: (v in sset(elems(vals), $i)) ==> (memL(p, n, v, x) <==> pre(del(p, deleted, n, v, x)))
    invariant forall v string {p.m[n][v]} {v in p.m[n]} :: !(v in sset(elems(vals), $i)) ==> (has(p, n, v) <==> pre(has(p, n, v))) && p.m[n][v] == pre(p.m[n][v]) && (has(p, n, v) ==> elems(p.m[n][v]) == pre(elems(p.m[n][v])))
  loop 5
    invariant forall j int {p.m[n][l][j]} :: 0 <= j && j < $i ==> !(p.m[n][l][j] in deleted)
  loop 6
    invariant fresh(repl) && len(repl) <= $i && has(p, n, l)
    invariant forall n2 string, v2 string {p.m[n2][v2]} :: has(p, n2, v2) ==> base(p.m[n2][v2]) != base(repl)
    invariant forall n2 string, v2 string {p.m[n2][v2]} :: has(p, n2, v2) ==> elems(p.m[n2][v2]) == pre(elems(p.m[n2][v2]))
    invariant p.ordered ==> sortedU(p.m[n][l])
    invariant old(strictPost(p)) ==> strictU(p.m[n][l])
    invariant forall k int {repl[k]} :: 0 <= k && k < len(repl) ==> !(repl[k] in deleted) && (repl[k] in eset(elems(p.m[n][l]), $i))
    invariant forall j int {p.m[n][l][j]} :: 0 <= j && j < $i && !(p.m[n][l][j] in deleted) ==> (p.m[n][l][j] in eset(elems(repl), len(repl)))
    invariant p.ordered ==> (forall i int, j int {repl[i], repl[j]} :: 0 <= i && i < j && j < len(repl) ==> repl[i] <= repl[j])
    invariant p.ordered ==> (forall k int, j int {repl[k], p.m[n][l][j]} :: 0 <= k && k < len(repl) && $i <= j && j < len(p.m[n][l]) ==> repl[k] <= p.m[n][l][j])
    invariant old(strictPost(p)) ==> (forall i int, j int {repl[i], repl[j]} :: 0 <= i && i < j && j < len(repl) ==> repl[i] < repl[j])
    invariant old(strictPost(p)) ==> (forall k int, j int {repl[k], p.m[n][l][j]} :: 0 <= k && k < len(repl) && $i <= j && j < len(p.m[n][l]) ==> repl[k] < p.m[n][l][j])

// ---- expiring ----
pred lastts(s *rangeStorage, x uint64) int64 := s.data[x].data[len(s.data[x].data)-1].timestamp
func (s *rangeStorage) Clean(olderThan)
  props C06, C03, C04, C07
  separate
  requires wfMap(s.series) && wfBlocks(s) && wfDistinct(s) && wfSorted(s) && wfRefs1(s) && wfRefs2(s) && wfRefs3(s) && wfPostings(s) && indexed(s)
  modifies mapof(s.data), mapof(s.series), heap seriesData, heap datapoint, s.postings.mtx, mapof(s.postings.m), heap map[string][]uint64
  // the series that keep a sample, and no others, stay
  ensures forall x uint64 {x in s.data} {s.data[x]} :: (x in s.data) <==> old((x in s.data) && lastts(s, x) >= olderThan)
  ensures forall x uint64 {s.data[x]} :: (x in s.data) ==> s.data[x] == old(s.data[x]) && sid(s, x) == old(sid(s, x))
  // with exactly their samples at or after the cutoff
  ensures forall x uint64 {s.data[x]} :: (x in s.data) ==> len(s.data[x].data) <= old(len(s.data[x].data))
  ensures forall x uint64, i int {s.data[x].data[i]} :: (x in s.data) && 0 <= i && i < len(s.data[x].data) ==> s.data[x].data[i] == old(elems(s.data[x].data))[i + old(len(s.data[x].data)) - len(s.data[x].data)] && s.data[x].data[i].timestamp >= olderThan
  ensures forall x uint64, i int {old(s.data[x].data[i])} :: (x in s.data) && 0 <= i && i < old(len(s.data[x].data)) - len(s.data[x].data) ==> old(s.data[x].data[i]).timestamp < olderThan
  // and the store stays consistent, so that what is loaded next is found
  ensures wfMap(s.series)
  ensures wfBlocks(s)
  ensures wfDistinct(s)
  ensures wfSorted(s)
  ensures wfRefs1(s)
  ensures wfRefs2(s)
  ensures wfRefs3(s)
  ensures wfPostings(s)
  ensures indexed(s)
  ensures[C07] old(strictPost(s.postings)) ==> strictPost(s.postings)
  loop 1
    invariant fresh(postingsToClean)
    invariant forall x uint64 {x in visited} {x in postingsToClean} {s.data[x]} :: (x in postingsToClean) <==> (x in visited) && old(lastts(s, x)) < olderThan
    invariant forall x uint64 {x in visited} :: (x in visited) ==> (x in s.data)
    invariant forall x uint64 {s.data[x]} :: (x in s.data) ==> len(s.data[x].data) > 0 && len(s.data[x].data) <= old(len(s.data[x].data)) && base(s.data[x].data) == old(base(s.data[x].data)) && s.data[x].series == old(s.data[x].series)
    invariant forall x uint64 {s.data[x]} :: (x in s.data) ==> allocated(s.data[x].data)
    invariant forall x uint64 {s.data[x]} :: (x in s.data) && (!(x in visited) || (x in postingsToClean)) ==> s.data[x].data == old(s.data[x].data) && elems(s.data[x].data) == old(elems(s.data[x].data))
    invariant forall x uint64, i int {s.data[x].data[i]} :: (x in visited) && !(x in postingsToClean) && 0 <= i && i < len(s.data[x].data) ==> s.data[x].data[i] == old(elems(s.data[x].data))[i + old(len(s.data[x].data)) - len(s.data[x].data)] && s.data[x].data[i].timestamp >= olderThan
    invariant forall x uint64, i int {old(s.data[x].data[i])} :: (x in visited) && !(x in postingsToClean) && 0 <= i && i < old(len(s.data[x].data)) - len(s.data[x].data) ==> old(s.data[x].data[i]).timestamp < olderThan
    invariant wfSorted(s)
  loop 2
    invariant forall x uint64 {x in visited} :: (x in visited) ==> (x in postingsToClean)
    invariant forall x uint64 {x in s.data} {s.data[x]} :: (x in s.data) <==> pre(x in s.data) && !(x in visited)
    invariant forall x uint64 {s.data[x]} :: (x in s.data) ==> s.data[x] == pre(s.data[x])
    invariant wfMap(s.series)
    invariant wfRefs1(s)
    invariant wfRefs2(s)
