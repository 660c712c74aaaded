package sigs.k8s.io/instrumentation-tools/promq/prom
import index github.com/prometheus/prometheus/tsdb/index
import labels github.com/prometheus/prometheus/pkg/labels
transparent github.com/prometheus/prometheus/pkg/labels.Matcher

// ---- C07 ----
// whether a regular expression matches a value: any relation
function rematch(re *labels.FastRegexMatcher, v string) bool
pred mtch(m *labels.Matcher, v string) bool := (m.Type == 0 && v == m.Value) || (m.Type == 1 && v != m.Value) || (m.Type == 2 && rematch(m.re, v)) || (m.Type == 3 && !rematch(m.re, v))
extern func (m *labels.Matcher) Matches(s) (r)
  trusted "dependency: the comparison named by the matcher's type; panics on any other type"
  requires m != nil && 0 <= m.Type && m.Type <= 3
  ensures r <==> mtch(m, s)

// what some iterator of a list delivers
function pun(a seq[index.Postings], n mathint, x uint64) bool
axiom pun_def(a seq[index.Postings], n mathint, x uint64)
  trigger pun(a, n, x)
  ensures pun(a, n, x) <==> (exists k int {a[k]} :: 0 <= k && k < n && (x in eset(pseq(a[k]), plen(a[k]))))
// what every iterator of a list delivers
function pall(a seq[index.Postings], n mathint, x uint64) bool
axiom pall_def(a seq[index.Postings], n mathint, x uint64)
  trigger pall(a, n, x)
  ensures pall(a, n, x) <==> (forall k int {a[k]} :: 0 <= k && k < n ==> (x in eset(pseq(a[k]), plen(a[k]))))
function pin(a seq[index.Postings], n mathint, q index.Postings) bool
axiom pin_def(a seq[index.Postings], n mathint, q index.Postings)
  trigger pin(a, n, q)
  ensures pin(a, n, q) <==> (exists k int {a[k]} :: 0 <= k && k < n && a[k] == q)
pred rdy(a []index.Postings, n mathint) bool := forall k int {a[k]} :: 0 <= k && k < n ==> ready(a[k]) && strictP(a[k]) && p_ge(a[k])
pred dist(a []index.Postings, n mathint) bool := forall j int, k int {a[j], a[k]} :: 0 <= j && j < k && k < n && plen(a[j]) > 0 ==> a[j] != a[k]
pred dist2(a []index.Postings, n mathint, b []index.Postings, m mathint) bool := forall j int, k int {a[j], b[k]} :: 0 <= j && j < n && 0 <= k && k < m && plen(a[j]) > 0 ==> a[j] != b[k]
// the iterators handed in are used up, apart from the result no other changes
pred usesup(its []index.Postings, r index.Postings) bool := ready(r) && p_ge(r) && strictP(r)
  && (forall q index.Postings {q.plive} {q.ppos} :: q != r && !pin(elems(its), len(its), q) ==> (q.plive <==> old(q.plive)) && q.ppos == old(q.ppos))
  && (forall q index.Postings {q.ppos} :: old(q.ppos) >= -1 ==> q.ppos >= -1)
  && (plen(r) > 0 ==> !old(r.plive) || pin(elems(its), len(its), r))

extern func index.Merge(its) (r)
  trusted "dependency: the union of sorted iterators"
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> ready(its[k])
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> strictP(its[k])
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> p_ge(its[k])
  requires dist(its, len(its))
  modifies ghost index.Postings.plive, ghost index.Postings.ppos
  ensures usesup(its, r)
  ensures forall x uint64 {x in eset(pseq(r), plen(r))} {pun(elems(its), len(its), x)} :: (x in eset(pseq(r), plen(r))) <==> pun(elems(its), len(its), x)
extern func index.Intersect(its) (r)
  trusted "dependency: the intersection of sorted iterators"
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> ready(its[k])
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> strictP(its[k])
  requires forall k int {its[k]} :: 0 <= k && k < len(its) ==> p_ge(its[k])
  requires dist(its, len(its))
  modifies ghost index.Postings.plive, ghost index.Postings.ppos
  ensures usesup(its, r)
  ensures forall x uint64 {x in eset(pseq(r), plen(r))} {pall(elems(its), len(its), x)} :: (x in eset(pseq(r), plen(r))) <==> len(its) > 0 && pall(elems(its), len(its), x)
extern func index.Without(full, drop) (r)
  trusted "dependency: the difference of two sorted iterators"
  requires ready(full) && strictP(full) && ready(drop) && strictP(drop) && (plen(full) > 0 ==> full != drop)
  modifies ghost index.Postings.plive, ghost index.Postings.ppos
  ensures ready(r) && p_ge(r) && strictP(r)
  ensures forall q index.Postings {q.plive} {q.ppos} :: q != r && q != full && q != drop ==> (q.plive <==> old(q.plive)) && q.ppos == old(q.ppos)
  ensures forall q index.Postings {q.ppos} :: old(q.ppos) >= -1 ==> q.ppos >= -1
  ensures plen(r) > 0 ==> !old(r.plive) || r == full
  ensures forall x uint64 {x in eset(pseq(r), plen(r))} {x in eset(pseq(full), plen(full))} :: (x in eset(pseq(r), plen(r))) <==> (x in eset(pseq(full), plen(full))) && !(x in eset(pseq(drop), plen(drop)))

pred someval(p *memPostings, m *labels.Matcher, x uint64) bool := exists v string {p.m[m.Name][v]} :: memL(p, m.Name, v, x) && mtch(m, v)
pred anyval(p *memPostings, n string, x uint64) bool := exists v string {p.m[n][v]} :: memL(p, n, v, x)
// the series satisfies the matcher: by a value it has for the label, or by the empty value if it has none
pred msat(p *memPostings, m *labels.Matcher, x uint64) bool := someval(p, m, x) || (mtch(m, "") && memL(p, "", "", x) && !anyval(p, m.Name, x))

func (q *memQuerier) Select(sortSeries, hints, matchers) (r)
  props C07, C09
  inlinecall IterValues
  define P = q.storage.postings
  requires q.storage != nil && q.storage.postings != nil
  requires q.storage.postings.mtx == 0 && wfPost(q.storage.postings) && strictPost(q.storage.postings)
  requires len(matchers) > 0 && (forall i int {matchers[i]} :: 0 <= i && i < len(matchers) ==> matchers[i] != nil && 0 <= matchers[i].Type && matchers[i].Type <= 3)
  modifies q.storage.postings.mtx, ghost index.Postings.plive, ghost index.Postings.ppos
  ensures q.storage.postings.mtx == 0
  ensures is(r, *seriesSet) && fresh(r.(*seriesSet)) && r.(*seriesSet).storage == q.storage
  ensures ready(r.(*seriesSet).postings) && p_ge(r.(*seriesSet).postings) && strictP(r.(*seriesSet).postings)
  ensures forall x uint64 {x in eset(pseq(r.(*seriesSet).postings), plen(r.(*seriesSet).postings))} :: (x in eset(pseq(r.(*seriesSet).postings), plen(r.(*seriesSet).postings))) <==> (forall i int {matchers[i]} :: 0 <= i && i < len(matchers) ==> msat(q.storage.postings, matchers[i], x))
  loop 1
    invariant q.storage.postings.mtx == 0 && fresh(sets) && len(sets) == len(matchers)
    invariant rdy(sets, $i) && dist(sets, $i)
    invariant forall k int {matchers[k]} :: 0 <= k && k < $i ==> ready(sets[k])
    assert forall k int {sets[k]} {it(sets[k])} :: 0 <= k && k < it($i) ==> sets[k] == it(sets[k])
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: someval(q.storage.postings, matchers[it($i)], x) ==> (x in eset(pseq(sets[it($i)]), plen(sets[it($i)])))
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: mtch(matchers[it($i)], "") && memL(q.storage.postings, "", "", x) && !anyval(q.storage.postings, matchers[it($i)].Name, x) ==> (x in eset(pseq(sets[it($i)]), plen(sets[it($i)])))
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: (x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))) && !mtch(matchers[it($i)], "") ==> someval(q.storage.postings, matchers[it($i)], x)
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: (x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))) && !someval(q.storage.postings, matchers[it($i)], x) ==> memL(q.storage.postings, "", "", x)
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: (x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))) && !someval(q.storage.postings, matchers[it($i)], x) ==> !anyval(q.storage.postings, matchers[it($i)].Name, x)
    assert forall x uint64 {x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))} :: (x in eset(pseq(sets[it($i)]), plen(sets[it($i)]))) ==> msat(q.storage.postings, matchers[it($i)], x)
    invariant forall k int, x uint64 {x in eset(pseq(sets[k]), plen(sets[k]))} :: 0 <= k && k < $i ==> ((x in eset(pseq(sets[k]), plen(sets[k]))) <==> msat(q.storage.postings, matchers[k], x))
  loop IterValues.1
    invariant elems(sets) == pre(elems(sets))
    assert len(matchingVals) >= it(len(matchingVals))
    assert forall j int {matchingVals[j]} {it(matchingVals[j])} :: 0 <= j && j < it(len(matchingVals)) ==> matchingVals[j] == it(matchingVals[j])
    invariant q.storage.postings.mtx == 1 && freshornil(matchingVals) && (cap(matchingVals) > 0 ==> base(matchingVals) != base(sets))
    invariant rdy(sets, i) && dist(sets, i)
    invariant rdy(matchingVals, len(matchingVals)) && dist(matchingVals, len(matchingVals)) && dist2(sets, i, matchingVals, len(matchingVals))
    invariant forall k int, x uint64 {x in eset(pseq(matchingVals[k]), plen(matchingVals[k]))} :: 0 <= k && k < len(matchingVals) && (x in eset(pseq(matchingVals[k]), plen(matchingVals[k]))) ==> someval(q.storage.postings, matcher, x)
    invariant forall v string, x uint64 {x in eset(elems(p.m[labelName][v]), len(p.m[labelName][v]))} :: (v in visited) && mtch(matcher, v) && memL(p, labelName, v, x) ==> pun(elems(matchingVals), len(matchingVals), x)
  loop IterValues#2.1
    invariant elems(sets) == pre(elems(sets)) && elems(matchingVals) == pre(elems(matchingVals))
    assert forall j int {withValueSet[j]} {it(withValueSet[j])} :: 0 <= j && j < it(len(withValueSet)) ==> withValueSet[j] == it(withValueSet[j])
    invariant q.storage.postings.mtx == 1 && freshornil(withValueSet) && (cap(withValueSet) > 0 ==> base(withValueSet) != base(sets) && base(withValueSet) != base(matchingVals))
    invariant rdy(sets, i) && dist(sets, i)
    invariant rdy(matchingVals, len(matchingVals)) && dist(matchingVals, len(matchingVals)) && dist2(sets, i, matchingVals, len(matchingVals))
    invariant rdy(withValueSet, len(withValueSet)) && dist(withValueSet, len(withValueSet)) && dist2(sets, i, withValueSet, len(withValueSet)) && dist2(matchingVals, len(matchingVals), withValueSet, len(withValueSet))
    invariant forall k int, x uint64 {x in eset(pseq(withValueSet[k]), plen(withValueSet[k]))} :: 0 <= k && k < len(withValueSet) && (x in eset(pseq(withValueSet[k]), plen(withValueSet[k]))) ==> anyval(q.storage.postings, labelName, x)
    invariant forall v string, x uint64 {x in eset(elems(p.m[labelName][v]), len(p.m[labelName][v]))} :: (v in visited) && memL(p, labelName, v, x) ==> pun(elems(withValueSet), len(withValueSet), x)
