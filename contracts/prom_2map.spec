package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels

pred rid(r *seriesRef) mathint := lset(r.lset)

// every chain holds allocated references, each stored under its own hash, no two with equal label sets;
// chains share no storage
pred wfMap(m seriesHashmap) bool := m != nil && allocated(m)
  && (forall h uint64 {h in m} {m[h]} :: (h in m) ==> len(m[h]) > 0 && allocated(m[h]))
  && (forall h uint64, k int {m[h][k]} :: (h in m) && 0 <= k && k < len(m[h]) ==> m[h][k] != nil && allocated(m[h][k]) && lhash(rid(m[h][k])) == h)
  && (forall h uint64, j int, k int {m[h][j], m[h][k]} :: (h in m) && 0 <= j && j < k && k < len(m[h]) ==> rid(m[h][j]) != rid(m[h][k]))
  && (forall g uint64, h uint64 {m[g], m[h]} :: (g in m) && (h in m) && g != h ==> base(m[g]) != base(m[h]))
// the set of the first n references of a chain
function rset(a seq[*seriesRef], n mathint) set[*seriesRef]
axiom rset_def(a seq[*seriesRef], n mathint, x *seriesRef)
  trigger x in rset(a, n)
  ensures (x in rset(a, n)) <==> (exists i int {a[i]} :: 0 <= i && i < n && a[i] == x)
// reference r is in the map
pred inchain(m seriesHashmap, r *seriesRef) bool := r in rset(elems(m[lhash(rid(r))]), len(m[lhash(rid(r))]))
pred inmap(m seriesHashmap, r *seriesRef) bool := (lhash(rid(r)) in m) && (r in rset(elems(m[lhash(rid(r))]), len(m[lhash(rid(r))])))
// label set L has a reference
pred known(m seriesHashmap, L mathint) bool := (lhash(L) in m) && (exists k int {m[lhash(L)][k]} :: 0 <= k && k < len(m[lhash(L)]) && rid(m[lhash(L)][k]) == L)

func (m seriesHashmap) get(hash, lset) (r)
  props C04
  define L = lid(elems(lset), len(lset))
  requires wfMap(m)
  requires hash == lhash(lid(elems(lset), len(lset)))
  ensures r != nil ==> inmap(m, r) && rid(r) == L && allocated(r)
  ensures r == nil ==> !known(m, L)
  loop 1
    invariant forall k int {m[hash][k]} :: 0 <= k && k < $i ==> rid(m[hash][k]) != L

func (m seriesHashmap) set(hash, s)
  props C04
  requires wfMap(m)
  requires s != nil && allocated(s) && hash == lhash(rid(s))
  modifies mapof(m), heap *seriesRef
  ensures wfMap(m)
  ensures inmap(m, s)
  // everything else keeps its place
  ensures forall h uint64, k int {m[h][k]} {old(m[h][k])} :: old((h in m) && 0 <= k && k < len(m[h])) ==> (h in m) && k < len(m[h]) && (m[h][k] == old(m[h][k]) || (rid(old(m[h][k])) == rid(s) && m[h][k] == s))
  ensures known(m, rid(s))
  // other label sets keep their reference
  ensures forall r *seriesRef {inchain(m, r)} :: rid(r) != rid(s) ==> (inmap(m, r) <==> old(inmap(m, r)))
  ensures forall r *seriesRef {inchain(m, r)} :: rid(r) == rid(s) ==> (inmap(m, r) <==> r == s)
  loop 1
    invariant forall k int {l[k]} :: 0 <= k && k < $i ==> rid(l[k]) != rid(s)

func (m seriesHashmap) del(hash, lset)
  props C04, C06
  define L = lid(elems(lset), len(lset))
  requires wfMap(m)
  requires hash == lhash(lid(elems(lset), len(lset)))
  modifies mapof(m)
  ensures wfMap(m)
  ensures forall r *seriesRef {inchain(m, r)} :: inmap(m, r) <==> old(inmap(m, r)) && rid(r) != L
  ensures !known(m, L)
  ensures forall L2 mathint {lhash(L2)} :: L2 != L && old(known(m, L2)) ==> known(m, L2)
  loop 1
    invariant freshornil(rem)
    invariant len(rem) <= $i
    invariant forall k int {rem[k]} :: 0 <= k && k < len(rem) ==> rid(rem[k]) != L && (rem[k] in rset(elems(m[hash]), $i))
    invariant forall j int {m[hash][j]} :: 0 <= j && j < $i && rid(m[hash][j]) != L ==> (m[hash][j] in rset(elems(rem), len(rem)))
    invariant forall j int, k int {rem[j], rem[k]} :: 0 <= j && j < k && k < len(rem) ==> rid(rem[j]) != rid(rem[k])
