package sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley

// ---- C30: what is recorded depends on the grammar and the words only ----
// every registered state is recorded: as many keys as states, all different
pred hkey(h arr[int]arr[int]EarleyItem, p *EarleyItem) mathint := key3(at(h, p).Rule.grammarRuleId, at(h, p).RulePos, at(h, p).originatingIndex)
recpred ks(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint) set[uint64] := n <= 0 ? emptyset(uint64) : ks(h, a, n - 1)[hkey(h, a[n-1]) := true]
lemma ks_mem(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint)
  props C30
  induction n
  use unfold(ks(h, a, n))
  use ks_mem(h, a, n - 1)
  ensures forall k uint64 {k in ks(h, a, n)} :: (k in ks(h, a, n)) ==> (exists i int {a[i]} :: 0 <= i && i < n && hkey(h, a[i]) == k)
lemma ks_card(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint)
  props C30
  requires forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> hkey(h, a[i]) != hkey(h, a[j])
  induction n
  use unfold(ks(h, a, n))
  use ks_mem(h, a, n - 1)
  use ks_card(h, a, n - 1)
  ensures finite(ks(h, a, n))
  ensures 0 <= n ==> len(ks(h, a, n)) == n
lemma backed(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, K set[uint64])
  props C30
  requires 0 <= n && finite(K) && len(K) == n
  requires forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> hkey(h, a[i]) != hkey(h, a[j])
  requires forall i int {a[i]} :: 0 <= i && i < n ==> hkey(h, a[i]) in K
  use ks_mem(h, a, n)
  use ks_card(h, a, n)
  ensures forall k uint64 {k in K} :: k in K ==> (exists i int {a[i]} :: 0 <= i && i < n && hkey(h, a[i]) == k)

recpred wf(R []*GrammarRule, C []*StateSet) bool := chartok(R, C)
lemma backed_set(R []*GrammarRule, C []*StateSet, k int)
  props C30
  requires wf(R, C) && 0 <= k && k < len(C)
  use unfold(wf(R, C))
  use backed(heapof(EarleyItem), elems(C[k].items), len(C[k].items), dom(C[k].itemSet))
  ensures forall key uint64 {key in C[k].itemSet} :: key in C[k].itemSet ==> (exists i int {C[k].items[i]} :: 0 <= i && i < len(C[k].items) && ikey(C[k].items[i]) == key)

pred isstate(R []*GrammarRule, it *EarleyItem, id mathint, pos mathint, orig mathint) bool := itemok(it) && ofgram(R, it.Rule) && it.Rule.grammarRuleId == id && it.RulePos == pos && it.originatingIndex == orig
lemma twins(R []*GrammarRule, C []*StateSet, k int)
  props C30
  requires wf(R, C) && 0 <= k && k < len(C)
  use unfold(wf(R, C))
  use backed_set(R, C, k)
  use forall a mathint, p mathint, o mathint, b mathint, q mathint, u mathint {key3(a, p, o), key3(b, q, u)} :: key3_inj(a, p, o, b, q, u)
  ensures forall id mathint, pos mathint, orig mathint {key3(id, pos, orig) in C[k].itemSet} :: 0 <= pos && pos < 65536 && 0 <= orig && orig < 65536 && key3(id, pos, orig) in C[k].itemSet ==> (exists i int {C[k].items[i]} :: 0 <= i && i < len(C[k].items) && isstate(R, C[k].items[i], id, pos, orig))

// what follows from a state follows from any state with the same key
lemma thenP(R []*GrammarRule, C []*StateSet, n int, k int)
  props C30
  requires wf(R, C) && 0 <= k && k < len(C) && k < n && clP(R, C, n)
  use unfold(wf(R, C))
  use twins(R, C, k)
  ensures forall it *EarleyItem, r int {ikey(it) in C[k].itemSet, R[r]} :: itemok(it) && ofgram(R, it.Rule) && ikey(it) in C[k].itemSet && 0 <= r && r < len(R) && nextis(it, R[r].left) ==> key3(r, 0, k) in C[k].itemSet
lemma thenS(R []*GrammarRule, W []Tokhan, C []*StateSet, n int, k int)
  props C30
  requires wf(R, C) && 0 <= k && k < len(C) && k < n && k < len(W) && clS(W, C, n)
  use unfold(wf(R, C))
  use twins(R, C, k)
  ensures forall id mathint, pos mathint, orig mathint {key3(id, pos, orig) in C[k].itemSet} :: 0 <= id && id < len(R) && 0 <= pos && pos < len(R[id].right) && 0 <= orig && orig < 65536 && key3(id, pos, orig) in C[k].itemSet && smatch(R[id].right[pos], W[k].Type) ==> key3(id, pos + 1, orig) in C[k + 1].itemSet
lemma thenC(R []*GrammarRule, C []*StateSet, n int, k int, o int)
  props C30
  requires wf(R, C) && 0 <= k && k < len(C) && k < n && 0 <= o && o < len(C) && clC(C, n)
  use unfold(wf(R, C))
  use twins(R, C, k)
  use twins(R, C, o)
  ensures forall it *EarleyItem, id mathint, pos mathint, orig mathint {ikey(it) in C[k].itemSet, key3(id, pos, orig) in C[o].itemSet} :: itemok(it) && ofgram(R, it.Rule) && ikey(it) in C[k].itemSet && it.RulePos == len(it.Rule.right) && it.originatingIndex == o && 0 <= id && id < len(R) && 0 <= pos && pos < len(R[id].right) && 0 <= orig && orig < 65536 && key3(id, pos, orig) in C[o].itemSet && is(R[id].right[pos], nonTerminal) && R[id].right[pos].(nonTerminal).name == it.Rule.left.(nonTerminal).name ==> key3(id, pos + 1, orig) in C[k].itemSet

// every state of the first m of set k of one chart is in the other, when those of the sets before are and the words agree
pred within(C []*StateSet, D []*StateSet, k int) bool := forall j int, i int {C[j].items[i]} :: 0 <= j && j < k && 0 <= i && i < len(C[j].items) ==> ikey(C[j].items[i]) in D[j].itemSet
pred withinm(C []*StateSet, D []*StateSet, k int, m mathint) bool := forall i int {C[k].items[i]} :: 0 <= i && i < m && i < len(C[k].items) ==> ikey(C[k].items[i]) in D[k].itemSet
pred kinds(W []Tokhan, V []Tokhan, n int) bool := forall j int {W[j]} {V[j]} :: 0 <= j && j < n ==> W[j].Type == V[j].Type
// a predicted state
lemma alsoP(R []*GrammarRule, C []*StateSet, D []*StateSet, n int, k int, i int)
  props C30
  requires wf(R, C) && wf(R, D) && 0 <= k && k < n && n <= len(C) && n <= len(D) && 0 <= i && i < len(C[k].items)
  requires rootsin(R, D)
  requires clP(R, D, n)
  requires jP(heapof(EarleyItem), C)
  requires withinm(C, D, k, i)
  requires C[k].items[i].RulePos == 0
  use unfold(wf(R, C))
  use unfold(predby(heapof(EarleyItem), elems(C[k].items), i, C[k].items[i].Rule.left))
  use thenP(R, D, n, k)
  ensures ikey(C[k].items[i]) in D[k].itemSet
// a state after a terminal
lemma alsoS(R []*GrammarRule, W []Tokhan, C []*StateSet, V []Tokhan, D []*StateSet, n int, k int, i int)
  props C30
  requires wf(R, C) && wf(R, D) && 0 <= k && k < n && n <= len(C) && n <= len(D) && 0 <= i && i < len(C[k].items)
  requires n <= len(V) && n <= len(W) && kinds(W, V, n)
  requires clS(V, D, n)
  requires jS(W, C)
  requires within(C, D, k)
  requires C[k].items[i].RulePos > 0 && is(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], terminal)
  use unfold(wf(R, C))
  use twins(R, C, k - 1)
  use thenS(R, V, D, n, k - 1)
  ensures ikey(C[k].items[i]) in D[k].itemSet
// a state after another symbol
lemma alsoC(R []*GrammarRule, C []*StateSet, D []*StateSet, n int, k int, i int)
  props C30
  requires wf(R, C) && wf(R, D) && 0 <= k && k < n && n <= len(C) && n <= len(D) && 0 <= i && i < len(C[k].items)
  requires clC(D, n)
  requires jC(heapof(EarleyItem), C)
  requires within(C, D, k)
  requires withinm(C, D, k, i)
  requires C[k].items[i].RulePos > 0 && is(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], nonTerminal)
  use unfold(wf(R, C))
  use forall o int {begun(o)} :: unfold(compby(heapof(EarleyItem), elems(C[k].items), i, C[k].items[i].Rule.right[C[k].items[i].RulePos - 1].(nonTerminal).name, o))
  use forall o int {begun(o)} :: twins(R, C, o)
  use forall o int {begun(o)} :: thenC(R, D, n, k, o)
  ensures ikey(C[k].items[i]) in D[k].itemSet
lemma uniq_pre(R []*GrammarRule, W []Tokhan, C []*StateSet, V []Tokhan, D []*StateSet, n int, k int, m int)
  props C30
  requires wf(R, C) && wf(R, D) && 0 <= k && k < n && n <= len(C) && n <= len(D) && m <= len(C[k].items)
  requires n <= len(V) && n <= len(W) && kinds(W, V, n)
  requires rootsin(R, D)
  requires clP(R, D, n)
  requires clS(V, D, n)
  requires clC(D, n)
  requires jP(heapof(EarleyItem), C)
  requires jS(W, C)
  requires jC(heapof(EarleyItem), C)
  requires within(C, D, k)
  induction m
  use unfold(wf(R, C))
  use uniq_pre(R, W, C, V, D, n, k, m - 1)
  use alsoP(R, C, D, n, k, m - 1)
  use alsoS(R, W, C, V, D, n, k, m - 1)
  use alsoC(R, C, D, n, k, m - 1)
  ensures withinm(C, D, k, m)
lemma uniq(R []*GrammarRule, W []Tokhan, C []*StateSet, V []Tokhan, D []*StateSet, n int, k int)
  props C30
  requires wf(R, C) && wf(R, D) && k <= n && n <= len(C) && n <= len(D)
  requires n <= len(V) && n <= len(W) && kinds(W, V, n)
  requires rootsin(R, D)
  requires clP(R, D, n)
  requires clS(V, D, n)
  requires clC(D, n)
  requires jP(heapof(EarleyItem), C)
  requires jS(W, C)
  requires jC(heapof(EarleyItem), C)
  induction k
  use uniq(R, W, C, V, D, n, k - 1)
  use uniq_pre(R, W, C, V, D, n, k - 1, len(C[k - 1].items))
  ensures within(C, D, k)

// ---- the kinds of token a chart expects after word k ----
pred waiting(it *EarleyItem, T TokenType) bool := it.RulePos < len(it.Rule.right) && is(it.Rule.right[it.RulePos], terminal) && tkind(it.Rule.right[it.RulePos].(terminal)) == T
recpred expected(C []*StateSet, k int, T TokenType) bool := exists i int {C[k].items[i]} :: 0 <= i && i < len(C[k].items) && waiting(C[k].items[i], T)
lemma kinds_in(R []*GrammarRule, C []*StateSet, D []*StateSet, k int, T TokenType)
  props C30
  requires wf(R, C) && wf(R, D) && 0 <= k && k < len(C) && k < len(D)
  requires within(C, D, k + 1)
  use unfold(wf(R, C))
  use twins(R, D, k)
  use unfold(expected(C, k, T))
  use unfold(expected(D, k, T))
  ensures expected(C, k, T) ==> expected(D, k, T)
// two charts of the same grammar, for words of the same kinds, expect the same
lemma same_kinds(H arr[int]arr[int]EarleyItem, R []*GrammarRule, W []Tokhan, C []*StateSet, V []Tokhan, D []*StateSet, k int, T TokenType)
  props C30
  requires H == heapof(EarleyItem) && parserok(H, R, W, C) && parserok(H, R, V, D)
  requires len(W) == len(V) && 0 <= k && k < len(W) && kinds(W, V, len(W))
  use unfold(wf(R, C))
  use unfold(wf(R, D))
  use uniq(R, W, C, V, D, len(W), len(W))
  use uniq(R, V, D, W, C, len(W), len(W))
  use kinds_in(R, C, D, k, T)
  use kinds_in(R, D, C, k, T)
  ensures expected(C, k, T) <==> expected(D, k, T)

recpred listsk(a seq[ContextualToken], n mathint, T TokenType) bool := exists t mathint {a[t]} :: 0 <= t && t < n && a[t].TokenType == T
lemma listsk_at(a seq[ContextualToken], n mathint, t mathint)
  props C30
  use unfold(listsk(a, n, a[t].TokenType))
  ensures 0 <= t && t < n ==> listsk(a, n, a[t].TokenType)
lemma listsk_more(a seq[ContextualToken], n mathint, b seq[ContextualToken], m mathint, T TokenType)
  props C30
  requires n <= m && (forall t mathint {b[t]} {a[t]} :: 0 <= t && t < n ==> b[t] == a[t])
  use unfold(listsk(a, n, T))
  use unfold(listsk(b, m, T))
  ensures listsk(a, n, T) ==> listsk(b, m, T)

// a context is that of a state of set k
recpred ctxof(C []*StateSet, k int, x *completionContext) bool := exists i int {C[k].items[i]} :: 0 <= i && i < len(C[k].items) && C[k].items[i].ctx == x
func (c *earleyChart) GetValidTerminalTypesAtStateSet(wordIndex) (types)
  props C30
  requires c != nil && 0 <= wordIndex && wordIndex < len(c.state)
  requires setsbase(c.state)
  requires alllisted(c.state)
  requires readok(c.state)
  requires ctxok(c.state)
  requires forall i int {c.state[wordIndex].items[i]} :: 0 <= i && i < len(c.state[wordIndex].items) ==> ruleok(c.state[wordIndex].items[i].Rule)
  define S = c.state[wordIndex]
  ensures freshornil(types)
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) ==> expected(c.state, wordIndex, types[t].TokenType)
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx == nil ==> types[t].TokenType == METRIC_ID || wordIndex == 0
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx != nil ==> ctxof(c.state, wordIndex, types[t].ctx)
  ensures forall i int, T TokenType {S.items[i], listsk(elems(types), len(types), T)} :: 0 <= i && i < len(S.items) && waiting(S.items[i], T) ==> listsk(elems(types), len(types), T)
  loop 1
    use listsk_at(elems(types), len(types), len(types) - 1)
    use forall T TokenType {listsk(it(elems(types)), it(len(types)), T)} :: listsk_more(it(elems(types)), it(len(types)), elems(types), len(types), T)
    use forall T TokenType {expected(c.state, wordIndex, T)} :: unfold(expected(c.state, wordIndex, T))
    use forall x *completionContext {ctxof(c.state, wordIndex, x)} :: unfold(ctxof(c.state, wordIndex, x))
    invariant freshornil(types) && newer(types) && terminalTypes != nil && fresh(terminalTypes)
    invariant forall t int {types[t]} :: 0 <= t && t < len(types) ==> expected(c.state, wordIndex, types[t].TokenType)
    invariant forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx == nil ==> types[t].TokenType == METRIC_ID || wordIndex == 0
    invariant forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx != nil ==> ctxof(c.state, wordIndex, types[t].ctx)
    invariant forall T TokenType {T in terminalTypes} :: T in terminalTypes ==> listsk(elems(types), len(types), T)
    invariant forall i int {S.items[i]} :: 0 <= i && i < $i && S.items[i].RulePos < len(S.items[i].Rule.right) && is(S.items[i].Rule.right[S.items[i].RulePos], terminal) ==> listsk(elems(types), len(types), tkind(S.items[i].Rule.right[S.items[i].RulePos].(terminal)))

// ---- parsers that go on where they were ----
pred same(a Tokhan, b Tokhan) bool := a.Val == b.Val && a.StartPos == b.StartPos && a.EndPos == b.EndPos
pred samed(W []Tokhan, T []Tokhan, n int) bool := forall k int {W[k]} {T[k]} :: 0 <= k && k < n ==> same(W[k], T[k])
func (t Tokhan) equals(t2) (r)
  props C30
  ensures r <==> same(t, t2)
func (ws Tokens) Compare(tks2) (r)
  props C30
  ensures r > 0 ==> r < len(ws) && r <= len(tks2) && samed(ws, tks2, r) && (r == len(tks2) || !same(ws[r], tks2[r]))
  ensures r < 0 ==> 0 - r == len(ws) && len(ws) < len(tks2) && samed(ws, tks2, len(ws))
  ensures r == 0 && len(ws) > 0 && len(tks2) > 0 && same(ws[0], tks2[0]) ==> len(ws) == len(tks2) && samed(ws, tks2, len(ws))
  loop 1
    invariant $i <= len(tks2) && samed(ws, tks2, $i)

// the tokens two texts begin with alike (same text, same place) are of the same kinds
pred lexed(W []Tokhan, T []Tokhan) bool := exists m int {T[m]} :: 0 <= m && m <= len(W) && m <= len(T) && samed(W, T, m) && kinds(W, T, m) && (m == len(W) || m == len(T) || !same(W[m], T[m]))

func (p *Earley) GetSuggestedTokenType(tokens) (types)
  props C30
  requires p != nil && p.chart != nil && parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state) && len(p.chart.inputWords) == len(p.words)
  requires len(tokens) < 65535 && (base(tokens) != base(p.words) || len(tokens) == 0)
  requires lexed(p.words, tokens)
  modifies p.words, elems(p.words), p.chart.state, p.chart.inputWords, heap *StateSet, heap StateSet, heap *EarleyItem, heap map[uint64]bool
  ensures len(tokens) == 0 ==> len(types) == 0
  // the parser is ready for the next query, with the words of this one
  ensures parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state) && len(p.chart.inputWords) == len(p.words)
  ensures len(tokens) > 0 ==> len(p.words) == len(tokens) && kinds(p.words, tokens, len(tokens)) && samed(p.words, tokens, len(tokens))
  ensures base(p.words) == old(base(p.words)) || fresh(p.words)
  // the kinds suggested are those the chart expects
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) ==> expected(p.chart.state, len(tokens) - 1, types[t].TokenType)
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx == nil ==> types[t].TokenType == METRIC_ID || len(tokens) == 1
  ensures forall t int {types[t]} :: 0 <= t && t < len(types) && types[t].ctx != nil ==> ctxof(p.chart.state, len(tokens) - 1, types[t].ctx)
  ensures forall i int, T TokenType {p.chart.state[len(tokens) - 1].items[i], listsk(elems(types), len(types), T)} :: len(tokens) > 0 && 0 <= i && i < len(p.chart.state[len(tokens) - 1].items) && waiting(p.chart.state[len(tokens) - 1].items[i], T) ==> listsk(elems(types), len(types), T)

// so two parsers of one grammar suggest the same for the same tokens, whatever they were asked before
lemma same_suggestions(p *Earley, q *Earley, a []ContextualToken, b []ContextualToken, n int, T TokenType)
  props C30
  requires p != nil && q != nil && p.chart != nil && q.chart != nil && p.g.rules == q.g.rules
  requires parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state) && parserok(heapof(EarleyItem), q.g.rules, q.words, q.chart.state)
  requires n > 0 && n == len(p.words) && n == len(q.words) && kinds(p.words, q.words, n)
  requires forall t int {a[t]} :: 0 <= t && t < len(a) ==> expected(p.chart.state, n - 1, a[t].TokenType)
  requires forall t int {b[t]} :: 0 <= t && t < len(b) ==> expected(q.chart.state, n - 1, b[t].TokenType)
  requires forall i int, T TokenType {p.chart.state[n - 1].items[i], listsk(elems(a), len(a), T)} :: 0 <= i && i < len(p.chart.state[n - 1].items) && waiting(p.chart.state[n - 1].items[i], T) ==> listsk(elems(a), len(a), T)
  requires forall i int, T TokenType {q.chart.state[n - 1].items[i], listsk(elems(b), len(b), T)} :: 0 <= i && i < len(q.chart.state[n - 1].items) && waiting(q.chart.state[n - 1].items[i], T) ==> listsk(elems(b), len(b), T)
  use same_kinds(heapof(EarleyItem), p.g.rules, p.words, p.chart.state, q.words, q.chart.state, n - 1, T)
  use unfold(listsk(elems(a), len(a), T))
  use unfold(listsk(elems(b), len(b), T))
  use unfold(expected(p.chart.state, n - 1, T))
  use unfold(expected(q.chart.state, n - 1, T))
  ensures listsk(elems(a), len(a), T) <==> listsk(elems(b), len(b), T)
