package sigs.k8s.io/instrumentation-tools/promq/autocomplete
import sets sigs.k8s.io/instrumentation-tools/notstdlib/sets

// ---- C28 ----
function startswith(s string, p string) bool
axiom startswith_def(s string, p string)
  trigger startswith(s, p)
  ensures startswith(s, p) <==> (len(s) >= len(p) && (forall i int {s[i]} {p[i]} :: 0 <= i && i < len(p) ==> s[i] == p[i]))
extern func strings.HasPrefix(s, prefix) (r)
  trusted "standard library"
  ensures r <==> startswith(s, prefix)
function lower(s string) string
extern func strings.ToLower(s) (r)
  trusted "standard library: a function of its argument"
  ensures r == lower(s)

pred prefixed(s string, p string, fold bool) bool := p == "" || (fold && startswith(lower(s), lower(p))) || (!fold && startswith(s, p))
pred subseq(s string, p string, fold bool) bool := p == "" || (fold && fuzzy(lower(s), lower(p))) || (!fold && fuzzy(s, p))

func FilterPrefix(stringSet, prefix, ignoreCase) (r)
  props C28
  inlinecall filterSet
  ensures forall s string {s in r} {s in stringSet} :: (s in r) <==> (s in stringSet) && prefixed(s, prefix, ignoreCase)
  // the candidates are not changed: nothing is listed as modified
  ensures stringSet != nil ==> r != nil
  loop filterSet.1
    invariant ret != nil && fresh(ret)
    invariant forall s string {s in ret} :: (s in ret) <==> (exists i int {$range[i]} :: 0 <= i && i < $i && $range[i] == s) && prefixed(s, prefix, ignoreCase)

func FilterFuzzy(stringSet, prefix, ignoreCase) (r)
  props C28
  inlinecall filterSet
  ensures forall s string {s in r} {s in stringSet} :: (s in r) <==> (s in stringSet) && subseq(s, prefix, ignoreCase)
  ensures stringSet != nil ==> r != nil
  loop filterSet.1
    invariant ret != nil && fresh(ret)
    invariant forall s string {s in ret} :: (s in ret) ==> (exists i int {$range[i]} :: 0 <= i && i < $i && $range[i] == s)
    invariant forall s string {s in ret} :: (s in ret) ==> subseq(s, prefix, ignoreCase)
    invariant forall i int {$range[i]} :: 0 <= i && i < $i && subseq($range[i], prefix, ignoreCase) ==> ($range[i] in ret)

// the first m characters of p are a subsequence of the first n characters of s
recpred subq(s seq[int32], n mathint, p seq[int32], m mathint) bool := m <= 0 || (n > 0 && ((s[n-1] == p[m-1] && subq(s, n-1, p, m-1)) || subq(s, n-1, p, m)))
function fuzzy(s string, p string) bool
axiom fuzzy_def(s string, p string)
  trigger fuzzy(s, p)
  ensures fuzzy(s, p) <==> subq(runesof(s), nrunes(s), runesof(p), nrunes(p))

lemma subq_drop(s seq[int32], n mathint, p seq[int32], m mathint)
  requires n >= 0 && m >= 0
  induction n
  use unfold(subq(s, n, p, m+1))
  use unfold(subq(s, n, p, m))
  use subq_drop(s, n-1, p, m)
  ensures subq(s, n, p, m+1) ==> subq(s, n, p, m)
lemma subq_less(s seq[int32], n mathint, p seq[int32], k mathint, m mathint)
  requires n >= 0 && 0 <= k && k <= m
  induction m - k
  use subq_drop(s, n, p, m-1)
  use subq_less(s, n, p, k, m-1)
  ensures subq(s, n, p, m) ==> subq(s, n, p, k)

lemma subq_more(s seq[int32], n mathint, k mathint, p seq[int32], m mathint)
  requires 0 <= n && n <= k
  induction k - n
  use unfold(subq(s, k, p, m))
  use subq_more(s, n, k-1, p, m)
  ensures subq(s, n, p, m) ==> subq(s, k, p, m)

func _fuzzyMatch(s, sub) (r)
  props C28
  define S = runesof(s)
  define P = runesof(sub)
  ensures r <==> fuzzy(s, sub)
  use unfold(subq(runesof(s), 0, runesof(sub), 0))
  use unfold(subq(runesof(s), 0, runesof(sub), 1))
  loop 1
    use unfold(subq(S, sIdx, P, $i))
    use unfold(subq(S, sIdx, P, $i+1))
    use unfold(subq(S, sIdx-1, P, $i+1))
    use subq_drop(S, sIdx-1, P, $i)
    use subq_more(S, sIdx, nrunes(s), P, nrunes(sub))
    invariant 0 <= sIdx && sIdx <= nrunes(s) && len(subChars) == nrunes(sub) && len(sChars) == nrunes(s)
    invariant elems(sChars) == S && elems(subChars) == P
    invariant subq(S, sIdx, P, $i)
    invariant $i > 0 ==> sIdx > 0 && !subq(S, sIdx-1, P, $i)
    invariant $i == 0 ==> sIdx == 0
  loop 2
    use unfold(subq(S, sIdx, P, rangeindex+1))
    use unfold(subq(S, sIdx+1, P, rangeindex+1))
    use unfold(subq(S, sIdx+1, P, rangeindex))
    use subq_less(S, nrunes(s), P, rangeindex+1, nrunes(sub))
    invariant 0 <= sIdx && sIdx <= nrunes(s) && !found
    invariant subq(S, sIdx, P, rangeindex) && !subq(S, sIdx, P, rangeindex+1)

func Enquote(stringSet) (r)
  props C32
  ensures r != nil && fresh(r)
  ensures forall s string {s in stringSet} :: (s in stringSet) ==> (quoted(s) in r)
  ensures forall q string {q in r} :: (q in r) ==> (exists s string {s in stringSet} :: (s in stringSet) && q == quoted(s))
  loop 1
    invariant newStrings != nil && fresh(newStrings)
    invariant forall i int {$range[i]} :: 0 <= i && i < $i ==> (quoted($range[i]) in newStrings)
    invariant forall q string {q in newStrings} :: (q in newStrings) ==> (exists i int {$range[i]} :: 0 <= i && i < $i && q == quoted($range[i]))
function quoted(s string) string
extern func strconv.Quote(s) (r)
  trusted "standard library: a function of its argument"
  ensures r == quoted(s)
