package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels
import index github.com/prometheus/prometheus/tsdb/index

guard memPostings.m by mtx
guard memPostings.ordered by mtx

// the set of the first n elements of a list (a definition: such a set exists for every list)
function eset(a seq[uint64], n mathint) set[uint64]
axiom eset_def(a seq[uint64], n mathint, x uint64)
  trigger x in eset(a, n)
  ensures (x in eset(a, n)) <==> (exists i int {a[i]} :: 0 <= i && i < n && a[i] == x)

// swapping two elements keeps the set of elements
lemma eset_swap(a seq[uint64], n mathint, i mathint)
  requires 1 <= i && i < n
  ensures forall x uint64 {x in eset(a, n)} {x in eset(a[i := a[i-1]][i-1 := a[i]], n)} :: (x in eset(a[i := a[i-1]][i-1 := a[i]], n)) <==> (x in eset(a, n))

pred has(p *memPostings, n string, v string) bool := (n in p.m) && (v in p.m[n])
pred memL(p *memPostings, n string, v string, x uint64) bool := has(p, n, v) && (x in eset(elems(p.m[n][v]), len(p.m[n][v])))
pred sortedU(l []uint64) bool := forall i int, j int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i] <= l[j]
pred strictU(l []uint64) bool := forall i int, j int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i] < l[j]

// the index is a map of maps of lists that share no storage, without empty lists
pred wfMaps(p *memPostings) bool := p.m != nil
  && (forall n string {n in p.m} {p.m[n]} :: (n in p.m) ==> p.m[n] != nil && allocated(p.m[n]))
  && (forall n1 string, n2 string {p.m[n1], p.m[n2]} :: (n1 in p.m) && (n2 in p.m) && n1 != n2 ==> p.m[n1] != p.m[n2])
pred wfLists(p *memPostings) bool :=
  (forall n string, v string {v in p.m[n]} {p.m[n][v]} :: has(p, n, v) ==> len(p.m[n][v]) > 0 && allocated(p.m[n][v]))
  && (forall n1 string, v1 string, n2 string, v2 string {p.m[n1][v1], p.m[n2][v2]} :: has(p, n1, v1) && has(p, n2, v2) && (n1 != n2 || v1 != v2) ==> base(p.m[n1][v1]) != base(p.m[n2][v2]))
pred wfPost(p *memPostings) bool := wfMaps(p) && wfLists(p)
pred orderedPost(p *memPostings) bool := p.ordered ==> (forall n string, v string {p.m[n][v]} :: has(p, n, v) ==> sortedU(p.m[n][v]))

// no label name without a value
pred noEmpty(p *memPostings) bool := forall n string {p.m[n]} {n in p.m} :: (n in p.m) ==> dom(p.m[n]) != emptyset(string)

// no list has a reference twice
pred strictPost(p *memPostings) bool := forall n string, v string {p.m[n][v]} :: has(p, n, v) ==> strictU(p.m[n][v])
pred below(p *memPostings, n string, v string, id uint64) bool := has(p, n, v) ==> (forall j int {p.m[n][v][j]} :: 0 <= j && j < len(p.m[n][v]) ==> p.m[n][v][j] < id)
pred allbelow(p *memPostings, id uint64) bool := forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: memL(p, n, v, x) ==> x < id
lemma eset_mem(a seq[uint64], n mathint, i mathint)
  requires 0 <= i && i < n
  ensures a[i] in eset(a, n)
// no label twice, none without a name
pred labuniq(l []labels.Label) bool := forall i int, j int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i].Name != l[j].Name || l[i].Value != l[j].Value
pred labnamed(l []labels.Label) bool := forall i int {l[i]} :: 0 <= i && i < len(l) ==> l[i].Name != ""

func NewmemPostings() (r)
  props C05, C07
  ensures r != nil && fresh(r)
  ensures wfPost(r) && r.ordered && r.mtx == 0
  ensures forall n string {n in r.m} :: !(n in r.m)
  ensures noEmpty(r)
  ensures[C07] strictPost(r)

func (p *memPostings) addFor(id, l)
  props C05, C07, C09
  requires p.mtx == 1
  requires wfPost(p) && orderedPost(p)
  modifies mapof(p.m), heap map[string][]uint64, heap uint64
  ensures old(noEmpty(p)) ==> noEmpty(p)
  ensures wfMaps(p)
  ensures wfLists(p)
  ensures orderedPost(p)
  ensures[C07] old(strictPost(p)) && old(below(p, l.Name, l.Value, id)) ==> strictPost(p)
  ensures forall n string, v string {p.m[n][v]} :: has(p, n, v) <==> (old(has(p, n, v)) || (n == l.Name && v == l.Value))
  ensures forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: memL(p, n, v, x) <==> (old(memL(p, n, v, x)) || (x == id && n == l.Name && v == l.Value))
  loop 1
    use eset_swap(elems(list), len(list), i)
    invariant 0 <= i && i < len(list)
    invariant forall j int, k int {list[j], list[k]} :: 0 <= j && j < k && k < len(list) && k != i ==> list[j] <= list[k]
    invariant forall j int {list[j]} :: i <= j && j < len(list) ==> list[i] <= list[j]
    invariant list[i] == id
    invariant pre(strictU(list)) ==> strictU(list) && i == len(list) - 1
    invariant forall x uint64 {x in eset(elems(list), len(list))} :: (x in eset(elems(list), len(list))) <==> (x in pre(eset(elems(list), len(list))))

func (p *memPostings) Add(id, lset)
  props C05, C07, C09
  requires p.mtx == 0
  requires wfPost(p) && orderedPost(p)
  modifies p.mtx, mapof(p.m), heap map[string][]uint64, heap uint64
  ensures p.mtx == 0
  ensures old(noEmpty(p)) ==> noEmpty(p)
  ensures wfMaps(p)
  ensures wfLists(p)
  ensures orderedPost(p)
  ensures[C07] old(strictPost(p)) && old(allbelow(p, id)) && labuniq(lset) && labnamed(lset) ==> strictPost(p)
  ensures forall n string, v string {p.m[n][v]} :: has(p, n, v) <==> (old(has(p, n, v)) || haslab(lset, n, v) || (n == "" && v == ""))
  ensures forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: memL(p, n, v, x) <==> (old(memL(p, n, v, x)) || (x == id && (haslab(lset, n, v) || (n == "" && v == ""))))
  loop 1
    invariant p.mtx == 1 && p.m == old(p.m) && p.ordered == old(p.ordered)
    invariant wfMaps(p)
    invariant wfLists(p)
    invariant orderedPost(p)
    invariant old(noEmpty(p)) ==> noEmpty(p)
    use forall n string, v string, j int {p.m[n][v][j]} :: eset_mem(elems(p.m[n][v]), len(p.m[n][v]), j)
    invariant old(strictPost(p)) && old(allbelow(p, id)) && labuniq(lset) && labnamed(lset) ==> strictPost(p)
    invariant forall n string, v string {p.m[n][v]} :: has(p, n, v) <==> (old(has(p, n, v)) || haslabn(lset, $i, n, v))
    invariant forall n string, v string, x uint64 {x in eset(elems(p.m[n][v]), len(p.m[n][v]))} :: memL(p, n, v, x) <==> (old(memL(p, n, v, x)) || (x == id && haslabn(lset, $i, n, v)))

pred haslabn(lset labels.Labels, k mathint, n string, v string) bool := exists j int {lset[j]} :: 0 <= j && j < k && lset[j].Name == n && lset[j].Value == v
pred haslab(lset labels.Labels, n string, v string) bool := haslabn(lset, len(lset), n, v)

// an iterator over references: what it delivers, whether it is still unused and
// owned by the caller, and its position
function plen(p index.Postings) mathint
function pseq(p index.Postings) seq[uint64]
ghost index.Postings.plive bool
ghost index.Postings.ppos mathint
// may be given away: unused (an iterator over nothing cannot be used up)
pred ready(p index.Postings) bool := p != nil && (plen(p) <= 0 || (p.plive && p.ppos == -1))
// strictly increasing: delivers no reference twice
pred strictP(p index.Postings) bool := forall i int, j int {pseq(p)[i], pseq(p)[j]} :: 0 <= i && i < j && j < plen(p) ==> pseq(p)[i] < pseq(p)[j]
// only r was made
pred onlynew(r index.Postings) bool := ready(r) && p_ge(r) && (forall q index.Postings {q.plive} {q.ppos} :: q != r ==> (q.plive <==> old(q.plive)) && q.ppos == old(q.ppos)) && (plen(r) > 0 ==> !old(r.plive))
pred p_ge(r index.Postings) bool := r.ppos >= -1

extern func index.NewListPostings(list) (r)
  trusted "dependency: a new iterator over exactly the given list"
  modifies ghost index.Postings.plive, ghost index.Postings.ppos
  ensures r != nil && plen(r) == len(list) && pseq(r) == elems(list)
  ensures onlynew(r)
extern func index.EmptyPostings() (r)
  trusted "dependency: an iterator over nothing"
  ensures r != nil && plen(r) == 0 && p_ge(r)

func (p *memPostings) Get(name, value) (r)
  props C05, C07, C09
  requires p.mtx == 0
  requires wfPost(p)
  modifies p.mtx, ghost index.Postings.plive, ghost index.Postings.ppos
  ensures onlynew(r)
  ensures p.mtx == 0
  ensures r != nil
  ensures has(p, name, value) ==> plen(r) == len(p.m[name][value]) && pseq(r) == elems(p.m[name][value])
  ensures !has(p, name, value) ==> plen(r) == 0

func (p *memPostings) UnsafeGet(name, value) (r)
  props C05, C07, C09
  requires p.mtx != 0
  requires wfPost(p)
  modifies ghost index.Postings.plive, ghost index.Postings.ppos
  ensures onlynew(r)
  ensures r != nil
  ensures has(p, name, value) ==> plen(r) == len(p.m[name][value]) && pseq(r) == elems(p.m[name][value])
  ensures !has(p, name, value) ==> plen(r) == 0

func (p *memPostings) All() (r)
  props C05, C07, C09
  requires p.mtx == 0
  requires wfPost(p)
  modifies p.mtx, ghost index.Postings.plive, ghost index.Postings.ppos
  ensures onlynew(r)
  ensures p.mtx == 0
  ensures r != nil
  ensures has(p, "", "") ==> plen(r) == len(p.m[""][""]) && pseq(r) == elems(p.m[""][""])
  ensures !has(p, "", "") ==> plen(r) == 0

// ---- listings ----

function sset(a seq[string], n mathint) set[string]
axiom sset_def(a seq[string], n mathint, x string)
  trigger x in sset(a, n)
  ensures (x in sset(a, n)) <==> (exists i int {a[i]} :: 0 <= i && i < n && a[i] == x)

func (p *memPostings) IterNames(cb)
  props C05, C09
  requires p.mtx == 0 && cb != nil
  requires wfMaps(p)
  modifies p.mtx, trace cb
  ensures p.mtx == 0
  ensures forall k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) ==> (callarg(cb, 0, k) in p.m)
  ensures forall n string {n in p.m} :: (n in p.m) ==> (exists k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) && callarg(cb, 0, k) == n)
  ensures forall j int, k int {callarg(cb, 0, j), callarg(cb, 0, k)} :: old(ncalls(cb)) <= j && j < k && k < ncalls(cb) ==> callarg(cb, 0, j) != callarg(cb, 0, k)
  loop 1
    invariant p.mtx == 1 && ncalls(cb) >= old(ncalls(cb)) && dom(p.m) == old(dom(p.m)) && p.m == old(p.m)
    invariant forall k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) ==> (callarg(cb, 0, k) in visited)
    invariant forall n string {n in visited} :: (n in visited) ==> (n in p.m) && (exists k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) && callarg(cb, 0, k) == n)
    invariant forall j int, k int {callarg(cb, 0, j), callarg(cb, 0, k)} :: old(ncalls(cb)) <= j && j < k && k < ncalls(cb) ==> callarg(cb, 0, j) != callarg(cb, 0, k)

func (p *memPostings) IterValues(labelName, cb)
  props C05, C09
  requires p.mtx == 0 && cb != nil
  requires wfMaps(p)
  modifies p.mtx, trace cb
  ensures p.mtx == 0
  ensures forall k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) ==> has(p, labelName, callarg(cb, 0, k))
  ensures forall v string {v in p.m[labelName]} :: has(p, labelName, v) ==> (exists k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) && callarg(cb, 0, k) == v)
  ensures forall j int, k int {callarg(cb, 0, j), callarg(cb, 0, k)} :: old(ncalls(cb)) <= j && j < k && k < ncalls(cb) ==> callarg(cb, 0, j) != callarg(cb, 0, k)
  loop 1
    invariant p.mtx == 1 && ncalls(cb) >= old(ncalls(cb)) && p.m == old(p.m)
    invariant forall k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) ==> (callarg(cb, 0, k) in visited)
    invariant forall n string {n in visited} :: (n in visited) ==> has(p, labelName, n)
    invariant forall n string {n in visited} :: (n in visited) ==> (exists k int {callarg(cb, 0, k)} :: old(ncalls(cb)) <= k && k < ncalls(cb) && callarg(cb, 0, k) == n)
    invariant forall j int, k int {callarg(cb, 0, j), callarg(cb, 0, k)} :: old(ncalls(cb)) <= j && j < k && k < ncalls(cb) ==> callarg(cb, 0, j) != callarg(cb, 0, k)

pred lablt(a labels.Label, b labels.Label) bool := a.Name < b.Name || (a.Name == b.Name && a.Value < b.Value)
pred labin(l []labels.Label, k mathint, n string, v string) bool := exists j int {l[j]} :: 0 <= j && j < k && l[j].Name == n && l[j].Value == v
pred labsdistinct(l []labels.Label, n mathint) bool := forall i int, j int {l[i], l[j]} :: 0 <= i && i < j && j < n ==> l[i].Name != l[j].Name || l[i].Value != l[j].Value

func (p *memPostings) SortedKeys() (r)
  props C05, C09
  requires p.mtx == 0
  requires wfMaps(p)
  modifies p.mtx
  ensures p.mtx == 0
  ensures forall i int {r[i]} :: 0 <= i && i < len(r) ==> has(p, r[i].Name, r[i].Value)
  ensures forall n string, v string {p.m[n][v]} {v in p.m[n]} :: has(p, n, v) ==> labin(r, len(r), n, v)
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> lablt(r[i], r[j])
  loop 1
    invariant p.mtx == 2 && p.m == old(p.m) && fresh(keys)
    invariant forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> has(p, keys[i].Name, keys[i].Value) && (keys[i].Name in visited)
    invariant forall n string, v string {p.m[n][v]} {v in p.m[n]} :: (n in visited) && (v in p.m[n]) ==> (n in p.m) && labin(keys, len(keys), n, v)
    invariant labsdistinct(keys, len(keys))
  loop 2
    invariant p.mtx == 2 && p.m == old(p.m) && fresh(keys) && (n in p.m)
    invariant forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> has(p, keys[i].Name, keys[i].Value)
    invariant len(keys) >= pre(len(keys)) && (forall i int {keys[i]} {pre(keys[i])} :: 0 <= i && i < pre(len(keys)) ==> keys[i] == pre(keys[i]))
    invariant forall i int {keys[i]} :: pre(len(keys)) <= i && i < len(keys) ==> keys[i].Name == n && (keys[i].Value in visited)
    invariant forall v string {v in visited} :: (v in visited) ==> (v in p.m[n]) && labin(keys, len(keys), n, v)
    invariant labsdistinct(keys, len(keys))

