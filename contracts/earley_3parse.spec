package sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley

// ---- C29: symbols of the grammar ----
// the two kinds of symbol and their methods; the interface cannot be implemented elsewhere
func (nt nonTerminal) isTerminal() (r)
  props C29
  ensures !r
func (nt nonTerminal) GetName() (r)
  props C29
  ensures r == nt.name
func (nt nonTerminal) isRoot() (r)
  props C29
  ensures r == nt.root
func (nt nonTerminal) isMatchingTerminal(tt) (r)
  props C29
  ensures !r
func (t terminal) isTerminal() (r)
  props C29
  ensures r
pred tmatch(t terminal, k TokenType) bool := t.tokenType == k || (t.tokenSubType != nil && *t.tokenSubType == k)
func (t terminal) isMatchingTerminal(tt) (r)
  props C29
  ensures r <==> tmatch(t, tt)
pred tkind(t terminal) TokenType := t.tokenSubType != nil ? *t.tokenSubType : t.tokenType
func (t terminal) getType() (r)
  props C29
  ensures r != nil && *r == tkind(t)

pred issym(s Symbol) bool := s != nil && (is(s, nonTerminal) || (is(s, terminal) && allocated(s.(terminal).tokenSubType)))
pred smatch(s Symbol, k TokenType) bool := is(s, terminal) && tmatch(s.(terminal), k)
extern func (s Symbol) isTerminal() (r)
  trusted "dynamic dispatch: both implementations are under this contract"
  requires issym(s)
  ensures r <==> is(s, terminal)
extern func (s Symbol) isMatchingTerminal(tt) (r)
  trusted "dynamic dispatch: both implementations are under this contract"
  requires issym(s)
  ensures r <==> smatch(s, tt)
extern func (s Symbol) getType() (r)
  trusted "dynamic dispatch: the implementation for terminals is under this contract"
  requires is(s, terminal)
  ensures r != nil && *r == tkind(s.(terminal))
extern func (s NonTerminalNode) isRoot() (r)
  trusted "dynamic dispatch: the implementation is under this contract"
  requires is(s, nonTerminal)
  ensures r == s.(nonTerminal).root
extern func (s NonTerminalNode) GetName() (r)
  trusted "dynamic dispatch: the implementation is under this contract"
  requires is(s, nonTerminal)
  ensures r == s.(nonTerminal).name

// ---- rules and items ----
// a state: which rule, how far, since when
pred key3d(id mathint, pos mathint, orig mathint) mathint := id * 4294967296 + pos * 65536 + orig
recpred key3(id mathint, pos mathint, orig mathint) mathint := id * 4294967296 + pos * 65536 + orig
pred ikey(it *EarleyItem) mathint := key3(it.Rule.grammarRuleId, it.RulePos, it.originatingIndex)
pred itemok(it *EarleyItem) bool := it != nil && it.Rule != nil && 0 <= it.Rule.grammarRuleId && it.Rule.grammarRuleId < 4294967296 && 0 <= it.RulePos && it.RulePos <= len(it.Rule.right) && it.RulePos < 65536 && 0 <= it.originatingIndex && it.originatingIndex < 65536

func (item *EarleyItem) badhash() (r)
  props C29
  requires itemok(item)
  use unfold(key3(item.Rule.grammarRuleId, item.RulePos, item.originatingIndex))
  ensures r == ikey(item)

lemma key3_inj(a mathint, p mathint, o mathint, b mathint, q mathint, u mathint)
  props C29
  requires 0 <= p && p < 65536 && 0 <= o && o < 65536 && 0 <= q && q < 65536 && 0 <= u && u < 65536
  requires key3(a, p, o) == key3(b, q, u)
  use unfold(key3(a, p, o))
  use unfold(key3(b, q, u))
  ensures a == b && p == q && o == u

func (item *EarleyItem) isCompleted() (r)
  props C29
  requires item != nil && item.Rule != nil
  ensures r <==> item.RulePos == len(item.Rule.right)

// ---- sets of states ----
pred inset(s *StateSet, k mathint) bool := k in s.itemSet
pred uk(k mathint) bool := 0 <= k && k < 18446744073709551616
// every recorded state is well-formed and registered, once, and no other is registered
pred listed(s *StateSet) bool := forall i int {s.items[i]} :: 0 <= i && i < len(s.items) ==> itemok(s.items[i]) && allocated(s.items[i]) && ikey(s.items[i]) in s.itemSet
pred once(s *StateSet) bool := forall i int, j int {s.items[i], s.items[j]} :: 0 <= i && i < j && j < len(s.items) ==> ikey(s.items[i]) != ikey(s.items[j])
pred setok(s *StateSet) bool := s != nil && allocated(s) && s.itemSet != nil && allocated(s.itemSet) && allocated(s.items) && (base(s.items) == 0 ==> len(s.items) == 0) && len(s.itemSet) == len(s.items) && listed(s) && once(s)

func NewStateSet() (s)
  props C29
  ensures s != nil && fresh(s) && fresh(s.itemSet) && s.items == nil && s.stateNo == 0 && setok(s)
  ensures forall k uint64 {k in s.itemSet} :: !(k in s.itemSet)

func (s *StateSet) Add(item) (r)
  props C29
  requires setok(s) && itemok(item) && allocated(item)
  requires forall i int {s.items[i]} :: 0 <= i && i < len(s.items) ==> s.items[i] != item
  modifies s.items, elems(s.items), mapof(s.itemSet), item.id
  ensures r <==> !old(ikey(item) in s.itemSet)
  ensures setok(s)
  // exactly the new state is added, at the end
  ensures forall k uint64 {k in s.itemSet} {old(k in s.itemSet)} :: (k in s.itemSet) <==> (k == ikey(item) || old(k in s.itemSet))
  ensures r ==> len(s.items) == old(len(s.items)) + 1 && s.items[old(len(s.items))] == item && item.id == mk(ItemId, s.stateNo, old(len(s.items)))
  ensures !r ==> s.items == old(s.items) && item.id == old(item.id)
  ensures forall i int {s.items[i]} :: 0 <= i && i < old(len(s.items)) ==> s.items[i] == old(s.items[i]) && *s.items[i] == old(*s.items[i])
  ensures base(s.items) == old(base(s.items)) || fresh(s.items)

func (s *StateSet) GetStates() (l)
  props C29
  requires s != nil && (forall i int {s.items[i]} :: 0 <= i && i < len(s.items) ==> s.items[i] != nil)
  ensures len(l) == len(s.items) && freshornil(l)
  ensures forall i int {l[i]} :: 0 <= i && i < len(l) ==> l[i] == *s.items[i]
  loop 1
    invariant len(states) == $i && freshornil(states)
    invariant forall i int {states[i]} :: 0 <= i && i < len(states) ==> states[i] == *s.items[i]

pred wants(it EarleyItem, n string) bool := it.RulePos < len(it.Rule.right) && is(it.Rule.right[it.RulePos], nonTerminal) && it.Rule.right[it.RulePos].(nonTerminal).name == n
// a state that goes on from one of the first n of a list that waits for a symbol; h holds the states
pred at(h arr[int]arr[int]EarleyItem, p *EarleyItem) EarleyItem := h[base(p)][pi(p)]
recpred came(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, N string, r *GrammarRule, p mathint, o mathint, t mathint) bool := exists q mathint {a[q]} :: 0 <= q && q < n && wants(at(h, a[q]), N) && at(h, a[q]).Rule == r && at(h, a[q]).RulePos + 1 == p && at(h, a[q]).originatingIndex == o && at(h, a[q]).terminalSymbolsConsumed == t
lemma came_elim(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, N string, r *GrammarRule, p mathint, o mathint, t mathint)
  props C29
  use unfold(came(h, a, n, N, r, p, o, t))
  ensures came(h, a, n, N, r, p, o, t) ==> (exists q mathint {a[q]} :: 0 <= q && q < n && wants(at(h, a[q]), N) && at(h, a[q]).Rule == r && at(h, a[q]).RulePos + 1 == p && at(h, a[q]).originatingIndex == o && at(h, a[q]).terminalSymbolsConsumed == t)

lemma came_intro(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, N string, q mathint)
  props C29
  use unfold(came(h, a, n, N, at(h, a[q]).Rule, at(h, a[q]).RulePos + 1, at(h, a[q]).originatingIndex, at(h, a[q]).terminalSymbolsConsumed))
  ensures 0 <= q && q < n && wants(at(h, a[q]), N) ==> came(h, a, n, N, at(h, a[q]).Rule, at(h, a[q]).RulePos + 1, at(h, a[q]).originatingIndex, at(h, a[q]).terminalSymbolsConsumed)

// a state is among the first n of a list
recpred among(c seq[EarleyItem], n mathint, x EarleyItem) bool := exists j mathint {c[j]} :: 0 <= j && j < n && c[j] == x
lemma among_intro(c seq[EarleyItem], n mathint, j mathint)
  props C29
  use unfold(among(c, n, c[j]))
  ensures 0 <= j && j < n ==> among(c, n, c[j])
lemma among_more(c seq[EarleyItem], n mathint, b seq[EarleyItem], m mathint, x EarleyItem)
  props C29
  requires n <= m && (forall j mathint {b[j]} {c[j]} :: 0 <= j && j < n ==> b[j] == c[j])
  use unfold(among(c, n, x))
  use unfold(among(b, m, x))
  ensures among(c, n, x) ==> among(b, m, x)
// what holds for all goes for each
lemma among_keys(c seq[EarleyItem], n mathint, x EarleyItem, K set[uint64])
  props C29
  requires forall j mathint {c[j]} :: 0 <= j && j < n ==> key3(c[j].Rule.grammarRuleId, c[j].RulePos + 1, c[j].originatingIndex) in K
  use unfold(among(c, n, x))
  ensures among(c, n, x) ==> key3(x.Rule.grammarRuleId, x.RulePos + 1, x.originatingIndex) in K

func (s *StateSet) findItemsToComplete(symbol) (c)
  props C29
  requires setok(s) && is(symbol, nonTerminal)
  define N = symbol.(nonTerminal).name
  define HO = old(heapof(EarleyItem))
  define AO = old(elems(s.items))
  define NO = old(len(s.items))
  // exactly the states waiting for the symbol
  ensures freshornil(c)
  ensures forall j int {c[j]} :: 0 <= j && j < len(c) ==> wants(c[j], N) && came(HO, AO, NO, N, c[j].Rule, c[j].RulePos + 1, c[j].originatingIndex, c[j].terminalSymbolsConsumed)
  ensures forall i int {s.items[i]} :: 0 <= i && i < len(s.items) && wants(*s.items[i], N) ==> among(elems(c), len(c), *s.items[i])
  loop 1
    use came_intro(HO, AO, NO, N, $i)
    use among_intro(elems(candidates), len(candidates), len(candidates) - 1)
    use forall x EarleyItem {among(it(elems(candidates)), it(len(candidates)), x)} :: among_more(it(elems(candidates)), it(len(candidates)), elems(candidates), len(candidates), x)
    invariant freshornil(candidates) && newer(candidates) && allocated(candidates)
    invariant forall i int {$range[i]} {s.items[i]} :: 0 <= i && i < len($range) ==> $range[i] == *s.items[i]
    invariant forall j int {candidates[j]} :: 0 <= j && j < len(candidates) ==> wants(candidates[j], N) && came(HO, AO, NO, N, candidates[j].Rule, candidates[j].RulePos + 1, candidates[j].originatingIndex, candidates[j].terminalSymbolsConsumed)
    invariant forall i int {s.items[i]} :: 0 <= i && i < $i && wants(*s.items[i], N) ==> among(elems(candidates), len(candidates), *s.items[i])

// ---- the grammar ----
// a rule's number is its place in the grammar
pred ruleok(r *GrammarRule) bool := r != nil && is(r.left, nonTerminal) && 0 < len(r.right) && len(r.right) < 65536 && (forall i int {r.right[i]} :: 0 <= i && i < len(r.right) ==> issym(r.right[i]))
pred gramok(R []*GrammarRule) bool := len(R) < 4294967296 && (forall i int {R[i]} :: 0 <= i && i < len(R) ==> ruleok(R[i]) && R[i].grammarRuleId == i)
pred ofgram(R []*GrammarRule, r *GrammarRule) bool := r != nil && 0 <= r.grammarRuleId && r.grammarRuleId < len(R) && R[r.grammarRuleId] == r

func NewGrammar(rules) (g)
  props C29
  requires len(rules) < 4294967296
  requires forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> ruleok(rules[i])
  requires forall i int, j int {rules[i], rules[j]} :: 0 <= i && i < j && j < len(rules) ==> rules[i] != rules[j]
  modifies heap GrammarRule
  ensures g != nil && fresh(g) && g.rules == rules && gramok(g.rules)
  loop 1
    invariant forall i int {rules[i]} :: 0 <= i && i < len(rules) ==> ruleok(rules[i])
    invariant forall i int {rules[i]} :: 0 <= i && i < $i ==> rules[i].grammarRuleId == i

func (g *Grammar) recognizedRules(s) (found)
  props C29
  requires g != nil && gramok(g.rules) && s != nil
  ensures freshornil(found)
  ensures forall j int {found[j]} :: 0 <= j && j < len(found) ==> ofgram(g.rules, found[j]) && found[j].left == s
  ensures forall i int {g.rules[i]} :: 0 <= i && i < len(g.rules) && g.rules[i].left == s ==> (exists j int {found[j]} :: 0 <= j && j < len(found) && found[j] == g.rules[i])
  loop 1
    invariant freshornil(found)
    invariant forall j int {found[j]} :: 0 <= j && j < len(found) ==> ofgram(g.rules, found[j]) && found[j].left == s
    invariant forall i int {g.rules[i]} :: 0 <= i && i < $i && g.rules[i].left == s ==> (exists j int {found[j]} :: 0 <= j && j < len(found) && found[j] == g.rules[i])

// the states a parse starts from: the root rules
func (g Grammar) initialStateSet() (s)
  props C29
  requires gramok(g.rules)
  ensures s != nil && fresh(s) && fresh(s.itemSet) && freshornil(s.items) && s.stateNo == 0 && setok(s)
  ensures forall i int {g.rules[i]} :: 0 <= i && i < len(g.rules) && g.rules[i].left.(nonTerminal).root ==> key3(i, 0, 0) in s.itemSet
  ensures forall i int {s.items[i]} :: 0 <= i && i < len(s.items) ==> ofgram(g.rules, s.items[i].Rule) && s.items[i].Rule.left.(nonTerminal).root && s.items[i].RulePos == 0 && s.items[i].originatingIndex == 0 && s.items[i].terminalSymbolsConsumed == 0
  loop 1
    invariant ss != nil && fresh(ss) && fresh(ss.itemSet) && freshornil(ss.items) && ss.stateNo == 0 && setok(ss)
    invariant forall i int {g.rules[i]} :: 0 <= i && i < $i && g.rules[i].left.(nonTerminal).root ==> key3(i, 0, 0) in ss.itemSet
    invariant forall i int {ss.items[i]} :: 0 <= i && i < len(ss.items) ==> ofgram(g.rules, ss.items[i].Rule) && ss.items[i].Rule.left.(nonTerminal).root && ss.items[i].RulePos == 0 && ss.items[i].originatingIndex == 0 && ss.items[i].terminalSymbolsConsumed == 0

// ---- the chart ----
// every set is its own object; a state in set k began at k (nothing read yet) or before
pred apart(C []*StateSet) bool := forall i int, j int {C[i], C[j]} :: 0 <= i && i < j && j < len(C) ==> base(C[i]) != base(C[j]) && C[i].itemSet != C[j].itemSet && (base(C[i].items) == 0 || base(C[i].items) != base(C[j].items))
pred stateok(R []*GrammarRule, it *EarleyItem, k int) bool := ofgram(R, it.Rule) && it.originatingIndex <= k && (it.RulePos == 0 ==> it.originatingIndex == k) && (it.RulePos > 0 ==> it.originatingIndex < k)
// no state has read more tokens than lie between where it began and where it is
pred readone(it *EarleyItem, k int) bool := 0 <= it.terminalSymbolsConsumed && it.terminalSymbolsConsumed <= k - it.originatingIndex
// where something was read there is a context
pred ctxone(it *EarleyItem, k int) bool := it.ctx == nil ==> k == 0
pred ctxok(C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) ==> ctxone(C[k].items[i], k)
pred readok(C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) ==> readone(C[k].items[i], k)
pred setsbase(C []*StateSet) bool := forall k int {C[k]} :: 0 <= k && k < len(C) ==> C[k] != nil && allocated(C[k]) && C[k].itemSet != nil && allocated(C[k].itemSet) && allocated(C[k].items) && (base(C[k].items) == 0 ==> len(C[k].items) == 0) && C[k].stateNo == k && len(C[k].itemSet) == len(C[k].items)
pred alllisted(C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) ==> itemok(C[k].items[i]) && allocated(C[k].items[i]) && ikey(C[k].items[i]) in C[k].itemSet
pred allonce(C []*StateSet) bool := forall k int, i int, j int {C[k].items[i], C[k].items[j]} :: 0 <= k && k < len(C) && 0 <= i && i < j && j < len(C[k].items) ==> ikey(C[k].items[i]) != ikey(C[k].items[j])
pred statesok(R []*GrammarRule, C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) ==> stateok(R, C[k].items[i], k)
pred chartok(R []*GrammarRule, C []*StateSet) bool := gramok(R) && setsbase(C) && alllisted(C) && allonce(C) && statesok(R, C) && apart(C) && readok(C) && ctxok(C) && len(C) < 65536

// all that follows from a state of set k is there; t is the kind of the next token
pred nextis(it *EarleyItem, s Symbol) bool := it.RulePos < len(it.Rule.right) && it.Rule.right[it.RulePos] == s
pred followed(R []*GrammarRule, C []*StateSet, k int, it *EarleyItem, t TokenType) bool :=
  it.RulePos < len(it.Rule.right) ? (is(it.Rule.right[it.RulePos], nonTerminal) ? (forall r int {R[r]} :: 0 <= r && r < len(R) && R[r].left == it.Rule.right[it.RulePos] ==> key3(r, 0, k) in C[k].itemSet) : (smatch(it.Rule.right[it.RulePos], t) ==> key3(it.Rule.grammarRuleId, it.RulePos + 1, it.originatingIndex) in C[k + 1].itemSet)) : (forall j int {C[it.originatingIndex].items[j]} :: 0 <= j && j < len(C[it.originatingIndex].items) && wants(*C[it.originatingIndex].items[j], it.Rule.left.(nonTerminal).name) ==> key3(C[it.originatingIndex].items[j].Rule.grammarRuleId, C[it.originatingIndex].items[j].RulePos + 1, C[it.originatingIndex].items[j].originatingIndex) in C[k].itemSet)

func (c *earleyChart) GetState(i) (s)
  props C29
  requires c != nil && 0 <= i
  ensures s == (i < len(c.state) ? c.state[i] : nil)
func (c *earleyChart) Length() (n)
  props C29
  requires c != nil
  ensures n == len(c.state)
func (item *EarleyItem) GetRightSymbolByRulePos() (s)
  props C29
  requires item != nil && item.Rule != nil && 0 <= item.RulePos
  ensures item.RulePos < len(item.Rule.right) ==> s == item.Rule.right[item.RulePos]
func (item *EarleyItem) String() (s)
  props C29
  requires item != nil && item.Rule != nil && item.Rule.left != nil && 0 <= item.RulePos && item.RulePos <= len(item.Rule.right)
  requires forall i int {item.Rule.right[i]} :: 0 <= i && i < len(item.Rule.right) ==> item.Rule.right[i] != nil
  loop 1
    invariant len(rightStrings) == len(item.Rule.right)

func (p *Earley) predict(state, chartIndex, fromItems)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state)
  requires 0 <= chartIndex && chartIndex < len(p.chart.state) && itemok(state) && ctxone(state, chartIndex) && state.RulePos < len(state.Rule.right) && is(state.Rule.right[state.RulePos], nonTerminal)
  define S = p.chart.state[chartIndex]
  define N = state.Rule.right[state.RulePos]
  modifies p.chart.state[chartIndex].items, elems(p.chart.state[chartIndex].items), mapof(p.chart.state[chartIndex].itemSet)
  ensures gramok(p.g.rules)
  ensures setsbase(p.chart.state)
  ensures alllisted(p.chart.state)
  ensures allonce(p.chart.state)
  ensures statesok(p.g.rules, p.chart.state)
  ensures apart(p.chart.state)
  ensures readok(p.chart.state)
  ensures ctxok(p.chart.state)
  // nothing is forgotten anywhere, and only this set grows
  ensures forall j int, k uint64 {k in p.chart.state[j].itemSet} :: 0 <= j && j < len(p.chart.state) && old(k in p.chart.state[j].itemSet) ==> k in p.chart.state[j].itemSet
  ensures forall j int, i int {p.chart.state[j].items[i]} :: 0 <= j && j < len(p.chart.state) && 0 <= i && i < old(len(p.chart.state[j].items)) ==> p.chart.state[j].items[i] == old(p.chart.state[j].items[i])
  ensures forall j int {p.chart.state[j]} :: 0 <= j && j < len(p.chart.state) && j != chartIndex ==> p.chart.state[j].items == old(p.chart.state[j].items)
  ensures forall r int {p.g.rules[r]} :: 0 <= r && r < len(p.g.rules) && p.g.rules[r].left == N ==> key3(r, 0, chartIndex) in S.itemSet
  ensures len(S.items) >= old(len(S.items))
  ensures forall i int {S.items[i]} :: 0 <= i && i < old(len(S.items)) ==> S.items[i] == old(S.items[i])
  ensures forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> S.items[i].RulePos == 0 && S.items[i].originatingIndex == chartIndex && S.items[i].Rule.left == N
  ensures forall k uint64 {k in S.itemSet} :: old(k in S.itemSet) ==> k in S.itemSet
  ensures base(S.items) == old(base(S.items)) || fresh(S.items)
  loop 1
    invariant setok(S) && S.stateNo == chartIndex
    invariant forall i int {S.items[i]} :: 0 <= i && i < len(S.items) ==> stateok(p.g.rules, S.items[i], chartIndex) && readone(S.items[i], chartIndex)
    invariant forall i int {S.items[i]} :: 0 <= i && i < len(S.items) ==> ctxone(S.items[i], chartIndex)
    invariant forall j int {$range[j]} :: 0 <= j && j < $i ==> key3($range[j].grammarRuleId, 0, chartIndex) in S.itemSet
    invariant len(S.items) >= old(len(S.items))
    invariant forall i int {S.items[i]} :: 0 <= i && i < old(len(S.items)) ==> S.items[i] == old(S.items[i])
    invariant forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> S.items[i].RulePos == 0 && S.items[i].originatingIndex == chartIndex && S.items[i].Rule.left == N
    invariant forall k uint64 {k in S.itemSet} :: old(k in S.itemSet) ==> k in S.itemSet
    invariant base(S.items) == old(base(S.items)) || fresh(S.items)

func (p *Earley) scan(state, chartIndex, fromItems, token)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state)
  requires 0 <= chartIndex && chartIndex + 1 < len(p.chart.state) && itemok(state) && stateok(p.g.rules, state, chartIndex) && readone(state, chartIndex) && state.RulePos < len(state.Rule.right) && is(state.Rule.right[state.RulePos], terminal)
  define S = p.chart.state[chartIndex + 1]
  define ok = smatch(state.Rule.right[state.RulePos], token.Type)
  modifies p.chart.state[chartIndex + 1].items, elems(p.chart.state[chartIndex + 1].items), mapof(p.chart.state[chartIndex + 1].itemSet)
  ensures gramok(p.g.rules)
  ensures setsbase(p.chart.state)
  ensures alllisted(p.chart.state)
  ensures allonce(p.chart.state)
  ensures statesok(p.g.rules, p.chart.state)
  ensures apart(p.chart.state)
  ensures readok(p.chart.state)
  ensures ctxok(p.chart.state)
  // nothing is forgotten anywhere, and only this set grows
  ensures forall j int, k uint64 {k in p.chart.state[j].itemSet} :: 0 <= j && j < len(p.chart.state) && old(k in p.chart.state[j].itemSet) ==> k in p.chart.state[j].itemSet
  ensures forall j int, i int {p.chart.state[j].items[i]} :: 0 <= j && j < len(p.chart.state) && 0 <= i && i < old(len(p.chart.state[j].items)) ==> p.chart.state[j].items[i] == old(p.chart.state[j].items[i])
  ensures forall j int {p.chart.state[j]} :: 0 <= j && j < len(p.chart.state) && j != chartIndex + 1 ==> p.chart.state[j].items == old(p.chart.state[j].items)
  // the token is consumed if and only if it is the one expected next
  ensures ok ==> key3(state.Rule.grammarRuleId, state.RulePos + 1, state.originatingIndex) in S.itemSet
  ensures len(S.items) >= old(len(S.items)) && len(S.items) <= old(len(S.items)) + (ok ? 1 : 0)
  ensures forall i int {S.items[i]} :: 0 <= i && i < old(len(S.items)) ==> S.items[i] == old(S.items[i])
  ensures forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> S.items[i].Rule == state.Rule && S.items[i].RulePos == state.RulePos + 1 && S.items[i].originatingIndex == state.originatingIndex
  ensures forall k uint64 {k in S.itemSet} :: old(k in S.itemSet) ==> k in S.itemSet
  ensures base(S.items) == old(base(S.items)) || fresh(S.items)

func (p *Earley) complete(state, chartIndex)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state)
  requires 0 <= chartIndex && chartIndex < len(p.chart.state) && itemok(state) && stateok(p.g.rules, state, chartIndex) && state.RulePos == len(state.Rule.right) && ctxone(state, chartIndex)
  define S = p.chart.state[chartIndex]
  define O = old(p.chart.state[state.originatingIndex])
  define N = old(state.Rule.left.(nonTerminal).name)
  define HO = old(heapof(EarleyItem))
  define AO = old(elems(p.chart.state[state.originatingIndex].items))
  define NO = old(len(p.chart.state[state.originatingIndex].items))
  modifies p.chart.state[chartIndex].items, elems(p.chart.state[chartIndex].items), mapof(p.chart.state[chartIndex].itemSet)
  use forall r *GrammarRule, d mathint, o mathint, t mathint {came(HO, AO, NO, N, r, d, o, t)} :: came_elim(HO, AO, NO, N, r, d, o, t)
  ensures gramok(p.g.rules)
  ensures setsbase(p.chart.state)
  ensures alllisted(p.chart.state)
  ensures allonce(p.chart.state)
  ensures statesok(p.g.rules, p.chart.state)
  ensures apart(p.chart.state)
  ensures readok(p.chart.state)
  ensures ctxok(p.chart.state)
  // nothing is forgotten anywhere, and only this set grows
  ensures forall j int, k uint64 {k in p.chart.state[j].itemSet} :: 0 <= j && j < len(p.chart.state) && old(k in p.chart.state[j].itemSet) ==> k in p.chart.state[j].itemSet
  ensures forall j int, i int {p.chart.state[j].items[i]} :: 0 <= j && j < len(p.chart.state) && 0 <= i && i < old(len(p.chart.state[j].items)) ==> p.chart.state[j].items[i] == old(p.chart.state[j].items[i])
  ensures forall j int {p.chart.state[j]} :: 0 <= j && j < len(p.chart.state) && j != chartIndex ==> p.chart.state[j].items == old(p.chart.state[j].items)
  // exactly the states that waited for the symbol where it began go on
  ensures forall j int {old(O.items[j])} :: 0 <= j && j < old(len(O.items)) && old(wants(*O.items[j], N)) ==> old(key3(O.items[j].Rule.grammarRuleId, O.items[j].RulePos + 1, O.items[j].originatingIndex)) in S.itemSet
  ensures len(S.items) >= old(len(S.items))
  ensures forall i int {S.items[i]} :: 0 <= i && i < old(len(S.items)) ==> S.items[i] == old(S.items[i])
  ensures forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> (exists j int {old(O.items[j])} :: 0 <= j && j < old(len(O.items)) && old(wants(*O.items[j], N)) && S.items[i].Rule == old(O.items[j].Rule) && S.items[i].RulePos == old(O.items[j].RulePos) + 1 && S.items[i].originatingIndex == old(O.items[j].originatingIndex))
  ensures forall k uint64 {k in S.itemSet} :: old(k in S.itemSet) ==> k in S.itemSet
  ensures base(S.items) == old(base(S.items)) || fresh(S.items)
  loop 1
    useexit forall x EarleyItem {among(pre(elems($range)), len($range), x)} :: among_keys(pre(elems($range)), len($range), x, dom(S.itemSet))
    invariant setok(S) && S.stateNo == chartIndex
    invariant forall j int {$range[j]} {pre($range[j])} :: 0 <= j && j < len($range) ==> $range[j] == pre($range[j])
    invariant forall j int {pre($range[j])} :: 0 <= j && j < $i ==> key3(pre($range[j].Rule).grammarRuleId, pre($range[j].RulePos) + 1, pre($range[j].originatingIndex)) in S.itemSet
    invariant forall j int {$range[j]} :: 0 <= j && j < len($range) ==> ofgram(p.g.rules, $range[j].Rule) && wants($range[j], N) && 0 <= $range[j].RulePos && 0 <= $range[j].originatingIndex && $range[j].originatingIndex < chartIndex
    invariant forall j int {$range[j]} :: 0 <= j && j < len($range) ==> came(HO, AO, NO, N, $range[j].Rule, $range[j].RulePos + 1, $range[j].originatingIndex, $range[j].terminalSymbolsConsumed)
    invariant forall q int {old(O.items[q])} :: 0 <= q && q < old(len(O.items)) && old(wants(*O.items[q], N)) ==> among(pre(elems($range)), len($range), old(*O.items[q]))
    invariant len(S.items) >= old(len(S.items))
    invariant forall i int {S.items[i]} :: 0 <= i && i < old(len(S.items)) ==> S.items[i] == old(S.items[i])
    invariant forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> newer(S.items[i])
    invariant forall i int {S.items[i]} :: 0 <= i && i < len(S.items) ==> ctxone(S.items[i], chartIndex)
    invariant forall i int {S.items[i]} :: old(len(S.items)) <= i && i < len(S.items) ==> came(HO, AO, NO, N, S.items[i].Rule, S.items[i].RulePos, S.items[i].originatingIndex, S.items[i].terminalSymbolsConsumed)
    invariant forall k uint64 {k in S.itemSet} :: old(k in S.itemSet) ==> k in S.itemSet
    invariant base(S.items) == old(base(S.items)) || fresh(S.items)

// ---- growing and cutting the chart ----
pred itemsprintable(C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) ==> itemok(C[k].items[i])
func (c *earleyChart) String() (s)
  props C29
  requires c != nil && len(c.state) <= len(c.inputWords) + 1 && 0 < len(c.state)
  requires forall k int {c.state[k]} :: 0 <= k && k < len(c.state) ==> c.state[k] != nil
  requires forall k int, i int {c.state[k].items[i]} :: 0 <= k && k < len(c.state) && 0 <= i && i < len(c.state[k].items) ==> itemok(c.state[k].items[i]) && ruleok(c.state[k].items[i].Rule)

func (c *earleyChart) append(set)
  props C29
  requires c != nil && set != nil
  modifies set.stateNo, c.state, elems(c.state)
  ensures set.stateNo == old(len(c.state)) && len(c.state) == old(len(c.state)) + 1
  ensures c.state[old(len(c.state))] == set
  ensures forall k int {c.state[k]} :: 0 <= k && k < old(len(c.state)) ==> c.state[k] == old(c.state[k])
  ensures base(c.state) == old(base(c.state)) || fresh(c.state)

func (c *earleyChart) setInputWords(t)
  props C29
  requires c != nil
  modifies c.inputWords
  ensures c.inputWords == t

func (c *earleyChart) resetChartBeforeIndex(index)
  props C29
  requires c != nil && 0 <= index && index <= len(c.inputWords) && index < len(c.state)
  modifies c.inputWords, c.state
  // the sets up to the index are kept
  ensures len(c.state) == index + 1 && base(c.state) == old(base(c.state))
  ensures forall k int {c.state[k]} :: 0 <= k && k <= index ==> c.state[k] == old(c.state[k])
  ensures len(c.inputWords) == index

func (p *Earley) resizeChart(size)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state) && size < 65536
  modifies p.chart.state, elems(p.chart.state)
  ensures len(p.chart.state) == (old(len(p.chart.state)) < size ? size : old(len(p.chart.state)))
  ensures forall k int {p.chart.state[k]} :: 0 <= k && k < old(len(p.chart.state)) ==> p.chart.state[k] == old(p.chart.state[k])
  ensures forall k int {p.chart.state[k]} :: old(len(p.chart.state)) <= k && k < len(p.chart.state) ==> fresh(p.chart.state[k]) && fresh(p.chart.state[k].itemSet) && p.chart.state[k].items == nil
  ensures gramok(p.g.rules)
  ensures setsbase(p.chart.state)
  ensures alllisted(p.chart.state)
  ensures allonce(p.chart.state)
  ensures statesok(p.g.rules, p.chart.state)
  ensures apart(p.chart.state)
  ensures readok(p.chart.state)
  ensures ctxok(p.chart.state)
  ensures base(p.chart.state) == old(base(p.chart.state)) || fresh(p.chart.state)
  loop 1
    invariant currentSize == len(p.chart.state) && len(p.chart.state) >= old(len(p.chart.state)) && (currentSize <= size || currentSize == old(len(p.chart.state)))
    invariant forall k int {p.chart.state[k]} :: 0 <= k && k < old(len(p.chart.state)) ==> p.chart.state[k] == old(p.chart.state[k])
    invariant forall k int {p.chart.state[k]} :: old(len(p.chart.state)) <= k && k < len(p.chart.state) ==> fresh(p.chart.state[k]) && newer(p.chart.state[k]) && fresh(p.chart.state[k].itemSet) && newer(p.chart.state[k].itemSet) && p.chart.state[k].items == nil && p.chart.state[k].stateNo == k && len(p.chart.state[k].itemSet) == 0
    invariant forall i int, j int {p.chart.state[i], p.chart.state[j]} :: old(len(p.chart.state)) <= i && i < j && j < len(p.chart.state) ==> base(p.chart.state[i]) != base(p.chart.state[j]) && p.chart.state[i].itemSet != p.chart.state[j].itemSet
    invariant base(p.chart.state) == old(base(p.chart.state)) || fresh(p.chart.state)

// ---- every registered state is recorded ----
recpred kset(a seq[uint64], n mathint) set[uint64] := n <= 0 ? emptyset(uint64) : kset(a, n - 1)[a[n-1] := true]
lemma kset_mem(a seq[uint64], n mathint)
  props C29
  induction n
  use unfold(kset(a, n))
  use kset_mem(a, n - 1)
  ensures forall k uint64 {k in kset(a, n)} :: (k in kset(a, n)) ==> (exists i int {a[i]} :: 0 <= i && i < n && a[i] == k)
lemma kset_has(a seq[uint64], n mathint, i mathint)
  props C29
  induction n
  use unfold(kset(a, n))
  use kset_has(a, n - 1, i)
  ensures 0 <= i && i < n ==> a[i] in kset(a, n)
lemma kset_card(a seq[uint64], n mathint)
  props C29
  requires forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> a[i] != a[j]
  induction n
  use unfold(kset(a, n))
  use kset_mem(a, n - 1)
  use kset_card(a, n - 1)
  ensures finite(kset(a, n))
  ensures 0 <= n ==> len(kset(a, n)) == n
// distinct members as many as there are: all of them
lemma pigeons(a seq[uint64], n mathint, K set[uint64])
  props C29
  requires 0 <= n && finite(K) && len(K) == n
  requires forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> a[i] != a[j]
  requires forall i int {a[i]} :: 0 <= i && i < n ==> a[i] in K
  use kset_mem(a, n)
  use kset_card(a, n)
  ensures forall k uint64 {k in K} :: k in K ==> (exists i int {a[i]} :: 0 <= i && i < n && a[i] == k)
lemma recorded(s *StateSet, a seq[uint64])
  props C29
  requires setok(s)
  requires forall i int {a[i]} {s.items[i]} :: 0 <= i && i < len(s.items) ==> a[i] == ikey(s.items[i])
  use pigeons(a, len(s.items), dom(s.itemSet))
  ensures forall k uint64 {k in s.itemSet} :: k in s.itemSet ==> (exists i int {s.items[i]} :: 0 <= i && i < len(s.items) && ikey(s.items[i]) == k)

// ---- the parse: closed and justified charts ----
// the root rules are where a parse begins
pred rootsin(R []*GrammarRule, C []*StateSet) bool := forall r int {R[r]} :: 0 <= r && r < len(R) && R[r].left.(nonTerminal).root ==> key3(r, 0, 0) in C[0].itemSet
// whatever follows by prediction from the states of the sets before set n is there
pred clP(R []*GrammarRule, C []*StateSet, n int) bool := forall k int, i int, r int {C[k].items[i], R[r]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) && k < n && 0 <= r && r < len(R) && nextis(C[k].items[i], R[r].left) ==> key3(r, 0, k) in C[k].itemSet
// ... and from the first m states of set n
pred clPn(R []*GrammarRule, C []*StateSet, n int, m int) bool := forall i int, r int {C[n].items[i], R[r]} :: 0 <= i && i < len(C[n].items) && i < m && 0 <= r && r < len(R) && nextis(C[n].items[i], R[r].left) ==> key3(r, 0, n) in C[n].itemSet
// ... by scanning the words ...
pred clS(W []Tokhan, C []*StateSet, n int) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(W) && k < len(C) && 0 <= i && i < len(C[k].items) && k < n && C[k].items[i].RulePos < len(C[k].items[i].Rule.right) && smatch(C[k].items[i].Rule.right[C[k].items[i].RulePos], W[k].Type) ==> key3(C[k].items[i].Rule.grammarRuleId, C[k].items[i].RulePos + 1, C[k].items[i].originatingIndex) in C[k + 1].itemSet
// ... and from the first m states of set n
pred clSn(W []Tokhan, C []*StateSet, n int, m int) bool := forall i int {C[n].items[i]} :: 0 <= i && i < len(C[n].items) && i < m && C[n].items[i].RulePos < len(C[n].items[i].Rule.right) && smatch(C[n].items[i].Rule.right[C[n].items[i].RulePos], W[n].Type) ==> key3(C[n].items[i].Rule.grammarRuleId, C[n].items[i].RulePos + 1, C[n].items[i].originatingIndex) in C[n + 1].itemSet
// ... by completion
pred clC(C []*StateSet, n int) bool := forall k int, i int, j int, q int {C[k].items[i], C[j].items[q]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) && k < n && C[k].items[i].RulePos == len(C[k].items[i].Rule.right) && j == C[k].items[i].originatingIndex && 0 <= q && q < len(C[j].items) && wants(*C[j].items[q], C[k].items[i].Rule.left.(nonTerminal).name) ==> key3(C[j].items[q].Rule.grammarRuleId, C[j].items[q].RulePos + 1, C[j].items[q].originatingIndex) in C[k].itemSet
// ... and from the first m states of set n
pred clCn(C []*StateSet, n int, m int) bool := forall i int, j int, q int {C[n].items[i], C[j].items[q]} :: 0 <= i && i < len(C[n].items) && i < m && C[n].items[i].RulePos == len(C[n].items[i].Rule.right) && j == C[n].items[i].originatingIndex && 0 <= q && q < len(C[j].items) && wants(*C[j].items[q], C[n].items[i].Rule.left.(nonTerminal).name) ==> key3(C[j].items[q].Rule.grammarRuleId, C[j].items[q].RulePos + 1, C[j].items[q].originatingIndex) in C[n].itemSet

pred boundW(W []Tokhan, old int, tokens []Tokhan) bool := len(W) == old + len(tokens) && (forall t int {tokens[t]} {W[old + t]} :: 0 <= t && t < len(tokens) ==> W[old + t] == tokens[t])

// ---- nothing else is there ----
// two lists begin with the same m states
recpred agree(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], g arr[int]arr[int]EarleyItem, b seq[*EarleyItem], m mathint) bool := forall q mathint {a[q]} {b[q]} :: 0 <= q && q < m ==> at(h, a[q]) == at(g, b[q])
lemma agree_intro(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], g arr[int]arr[int]EarleyItem, b seq[*EarleyItem], m mathint)
  props C29
  use unfold(agree(h, a, g, b, m))
  requires forall q mathint {a[q]} {b[q]} :: 0 <= q && q < m ==> at(h, a[q]) == at(g, b[q])
  ensures agree(h, a, g, b, m)
// one of the first n states of a list expects a symbol next; h holds the states
recpred predby(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, s Symbol) bool := exists q mathint {a[q]} :: 0 <= q && q < n && at(h, a[q]).RulePos < len(at(h, a[q]).Rule.right) && at(h, a[q]).Rule.right[at(h, a[q]).RulePos] == s
lemma predby_at(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, s Symbol, q mathint)
  props C29
  use unfold(predby(h, a, n, s))
  ensures 0 <= q && q < n && at(h, a[q]).RulePos < len(at(h, a[q]).Rule.right) && at(h, a[q]).Rule.right[at(h, a[q]).RulePos] == s ==> predby(h, a, n, s)
lemma predby_same(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], g arr[int]arr[int]EarleyItem, b seq[*EarleyItem], n mathint, s Symbol, m mathint)
  props C29
  requires agree(h, a, g, b, m) && n <= m
  use unfold(agree(h, a, g, b, m))
  use unfold(predby(h, a, n, s))
  use unfold(predby(g, b, n, s))
  ensures predby(h, a, n, s) ==> predby(g, b, n, s)
// one of the first n states of a list is the end of a rule for the named symbol that began at o
recpred compby(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, s string, o mathint) bool := exists q mathint {a[q]} :: 0 <= q && q < n && at(h, a[q]).RulePos == len(at(h, a[q]).Rule.right) && at(h, a[q]).Rule.left.(nonTerminal).name == s && at(h, a[q]).originatingIndex == o
lemma compby_at(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], n mathint, s string, o mathint, q mathint)
  props C29
  use unfold(compby(h, a, n, s, o))
  ensures 0 <= q && q < n && at(h, a[q]).RulePos == len(at(h, a[q]).Rule.right) && at(h, a[q]).Rule.left.(nonTerminal).name == s && at(h, a[q]).originatingIndex == o ==> compby(h, a, n, s, o)
lemma compby_same(h arr[int]arr[int]EarleyItem, a seq[*EarleyItem], g arr[int]arr[int]EarleyItem, b seq[*EarleyItem], n mathint, s string, o mathint, m mathint)
  props C29
  requires agree(h, a, g, b, m) && n <= m
  use unfold(agree(h, a, g, b, m))
  use unfold(compby(h, a, n, s, o))
  use unfold(compby(g, b, n, s, o))
  ensures compby(h, a, n, s, o) ==> compby(g, b, n, s, o)

// a state at the start of a rule is a root rule of set 0 or predicted by a state before it
pred jP(H arr[int]arr[int]EarleyItem, C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) && C[k].items[i].RulePos == 0 ==> (k == 0 && C[k].items[i].Rule.left.(nonTerminal).root) || predby(H, elems(C[k].items), i, C[k].items[i].Rule.left)
// a state after a terminal comes from one of the set before, by the word between them
pred jS(W []Tokhan, C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) && C[k].items[i].RulePos > 0 && is(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], terminal) ==> k <= len(W) && smatch(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], W[k - 1].Type) && key3(C[k].items[i].Rule.grammarRuleId, C[k].items[i].RulePos - 1, C[k].items[i].originatingIndex) in C[k - 1].itemSet
// a state after another symbol goes on from one of the set where a completed state before it began
recpred begun(o mathint) mathint := 0
lemma begun_true(o mathint)
  props C29
  auto
  trigger begun(o)
  use unfold(begun(o))
  ensures begun(o) >= 0
pred contd(H arr[int]arr[int]EarleyItem, C []*StateSet, k int, i int) bool := (exists o int {begun(o)} :: begun(o) >= 0 && 0 <= o && o < k && compby(H, elems(C[k].items), i, C[k].items[i].Rule.right[C[k].items[i].RulePos - 1].(nonTerminal).name, o) && key3(C[k].items[i].Rule.grammarRuleId, C[k].items[i].RulePos - 1, C[k].items[i].originatingIndex) in C[o].itemSet)
pred jC(H arr[int]arr[int]EarleyItem, C []*StateSet) bool := forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < len(C[k].items) && C[k].items[i].RulePos > 0 && is(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], nonTerminal) ==> contd(H, C, k, i)

func (p *Earley) PartialParse(tokens, chartIndex) (c)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state)
  requires 0 <= chartIndex && len(p.words) == chartIndex && len(p.chart.state) == chartIndex + 1 && chartIndex + len(tokens) < 65535
  requires base(tokens) != base(p.words) || len(tokens) == 0
  requires rootsin(p.g.rules, p.chart.state)
  requires clP(p.g.rules, p.chart.state, chartIndex)
  requires clS(p.words, p.chart.state, chartIndex)
  requires clC(p.chart.state, chartIndex)
  requires jP(heapof(EarleyItem), p.chart.state)
  requires jS(p.words, p.chart.state)
  requires jC(heapof(EarleyItem), p.chart.state)
  define R = p.g.rules
  define C = p.chart.state
  define n0 = old(chartIndex)
  modifies p.words, elems(p.words), p.chart.state, p.chart.inputWords, heap *StateSet, heap StateSet, heap *EarleyItem, heap map[uint64]bool
  ensures c == p.chart
  ensures len(p.words) == n0 + len(tokens) && len(C) == len(p.words) + 1
  ensures p.chart.inputWords == p.words
  ensures base(p.words) == old(base(p.words)) || fresh(p.words)
  ensures forall k int {p.words[k]} :: 0 <= k && k < n0 ==> p.words[k] == old(p.words[k])
  ensures forall k int {p.words[k]} :: n0 <= k && k < len(p.words) ==> p.words[k] == tokens[k - n0]
  ensures gramok(R)
  ensures setsbase(C)
  ensures alllisted(C)
  ensures allonce(C)
  ensures statesok(R, C)
  ensures apart(C)
  ensures readok(C)
  ensures ctxok(C)
  ensures rootsin(R, C)
  ensures clP(R, C, len(p.words))
  ensures clS(p.words, C, len(p.words))
  ensures clC(C, len(p.words))
  ensures jP(heapof(EarleyItem), C)
  ensures jS(p.words, C)
  ensures jC(heapof(EarleyItem), C)
  loop 1
    invariant chartIndex == n0 + $i && len(p.words) == n0 + len(tokens) && len(C) == len(p.words) + 1 without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant p.chart.inputWords == p.words without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant currStateSet == C[chartIndex] without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant forall k int {p.words[k]} :: 0 <= k && k < n0 ==> p.words[k] == old(p.words[k]) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant forall k int {p.words[k]} :: n0 <= k && k < len(p.words) ==> p.words[k] == tokens[k - n0] without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant setsbase(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant alllisted(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant allonce(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant statesok(R, C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant apart(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant readok(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant ctxok(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone
    invariant rootsin(R, C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clP(R, C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clS(p.words, C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clC(C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant jP(heapof(EarleyItem), C)
    invariant jS(p.words, C)
    invariant jC(heapof(EarleyItem), C)
  loop 2
    use forall k int {agree(it(heapof(EarleyItem)), it(elems(C[k].items)), heapof(EarleyItem), elems(C[k].items), it(len(C[k].items)))} :: agree_intro(it(heapof(EarleyItem)), it(elems(C[k].items)), heapof(EarleyItem), elems(C[k].items), it(len(C[k].items)))
    use forall k int, n mathint, s Symbol {predby(it(heapof(EarleyItem)), it(elems(C[k].items)), n, s)} :: predby_same(it(heapof(EarleyItem)), it(elems(C[k].items)), heapof(EarleyItem), elems(C[k].items), n, s, it(len(C[k].items)))
    use forall k int, n mathint, s string, o mathint {compby(it(heapof(EarleyItem)), it(elems(C[k].items)), n, s, o)} :: compby_same(it(heapof(EarleyItem)), it(elems(C[k].items)), heapof(EarleyItem), elems(C[k].items), n, s, o, it(len(C[k].items)))
    use forall n mathint, s Symbol {predby(heapof(EarleyItem), elems(C[chartIndex].items), n, s)} :: predby_at(heapof(EarleyItem), elems(C[chartIndex].items), n, s, it(setIndex))
    use forall n mathint, s string, o mathint {compby(heapof(EarleyItem), elems(C[chartIndex].items), n, s, o)} :: compby_at(heapof(EarleyItem), elems(C[chartIndex].items), n, s, o, it(setIndex))
    use begun(it(C[chartIndex].items[setIndex].originatingIndex))
    assert forall k int {C[k]} :: 0 <= k && k < len(C) ==> agree(it(heapof(EarleyItem)), it(elems(C[k].items)), heapof(EarleyItem), elems(C[k].items), it(len(C[k].items))) without clP clPn clS clSn clC clCn jP jS jC predby compby predby_same predby_at compby_same compby_at rootsin apart allonce alllisted statesok gramok chartok readok readone ctxok ctxone
    invariant 0 <= chartIndex && chartIndex < len(p.words) && len(C) == len(p.words) + 1 && token == p.words[chartIndex] without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant currStateSet == C[chartIndex] without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant 0 <= setIndex && setIndex <= len(C[chartIndex].items) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant setsbase(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant alllisted(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant allonce(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant statesok(R, C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant apart(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant readok(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun ctxok ctxone
    invariant ctxok(C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone
    invariant rootsin(R, C) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clP(R, C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clPn(R, C, chartIndex, setIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clS(p.words, C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clSn(p.words, C, chartIndex, setIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    invariant clC(C, chartIndex) without jP jS jC predby compby agree agree_intro predby_same predby_at compby_same compby_at begun readok readone ctxok ctxone
    assert forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < it(len(C[k].items)) && C[k].items[i].RulePos == 0 ==> (k == 0 && C[k].items[i].Rule.left.(nonTerminal).root) || predby(heapof(EarleyItem), elems(C[k].items), i, C[k].items[i].Rule.left) without wants agree_intro clP clPn clS clSn clC clCn jS jC compby compby_same compby_at predby_at rootsin apart allonce setsbase gramok chartok statesok alllisted readok readone ctxok ctxone begun
    assert forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && it(len(C[k].items)) <= i && i < len(C[k].items) && C[k].items[i].RulePos == 0 ==> (k == 0 && C[k].items[i].Rule.left.(nonTerminal).root) || predby(heapof(EarleyItem), elems(C[k].items), i, C[k].items[i].Rule.left) without agree agree_intro clP clPn clS clSn clC clCn jP jS jC compby compby_same compby_at predby_same rootsin apart allonce gramok chartok readok readone ctxok ctxone begun
    invariant jP(heapof(EarleyItem), C) without wants agree agree_intro clP clPn clS clSn clC clCn jS jC compby compby_same compby_at predby_same predby_at rootsin apart allonce setsbase gramok chartok statesok alllisted readok readone ctxok ctxone begun
    invariant jS(p.words, C) without agree_intro clP clPn clS clSn clC clCn jP jC compby compby_same compby_at predby predby_same predby_at rootsin apart allonce setsbase gramok chartok agree begun readok readone ctxok ctxone
    assert forall i int {C[chartIndex].items[i]} :: it(len(C[chartIndex].items)) <= i && i < len(C[chartIndex].items) && it(C[chartIndex].items[setIndex]).RulePos == len(it(C[chartIndex].items[setIndex]).Rule.right) ==> C[chartIndex].items[i].RulePos > 0 && is(C[chartIndex].items[i].Rule.right[C[chartIndex].items[i].RulePos - 1], nonTerminal) && C[chartIndex].items[i].Rule.right[C[chartIndex].items[i].RulePos - 1].(nonTerminal).name == it(C[chartIndex].items[setIndex]).Rule.left.(nonTerminal).name && 0 <= it(C[chartIndex].items[setIndex]).originatingIndex && it(C[chartIndex].items[setIndex]).originatingIndex < chartIndex && compby(heapof(EarleyItem), elems(C[chartIndex].items), i, it(C[chartIndex].items[setIndex]).Rule.left.(nonTerminal).name, it(C[chartIndex].items[setIndex]).originatingIndex) && key3(C[chartIndex].items[i].Rule.grammarRuleId, C[chartIndex].items[i].RulePos - 1, C[chartIndex].items[i].originatingIndex) in C[it(C[chartIndex].items[setIndex]).originatingIndex].itemSet && begun(it(C[chartIndex].items[setIndex]).originatingIndex) >= 0 without agree agree_intro clP clPn clS clSn clC clCn jP jS jC predby predby_same predby_at compby_same rootsin apart allonce setsbase chartok readok readone ctxok ctxone
    assert forall k int, i int {C[k].items[i]} :: 0 <= k && k < len(C) && 0 <= i && i < it(len(C[k].items)) && C[k].items[i].RulePos > 0 && is(C[k].items[i].Rule.right[C[k].items[i].RulePos - 1], nonTerminal) ==> contd(heapof(EarleyItem), C, k, i) without wants statesok alllisted gramok compby_at agree_intro clP clPn clS clSn clC clCn jP jS predby predby_same predby_at rootsin apart allonce setsbase chartok cnew readok readone ctxok ctxone
    assert forall i int {C[chartIndex].items[i]} :: it(len(C[chartIndex].items)) <= i && i < len(C[chartIndex].items) && it(C[chartIndex].items[setIndex]).RulePos == len(it(C[chartIndex].items[setIndex]).Rule.right) && C[chartIndex].items[i].RulePos > 0 ==> contd(heapof(EarleyItem), C, chartIndex, i) without wants statesok alllisted gramok compby_at compby_same agree agree_intro clP clPn clS clSn clC clCn jP jS jC contd predby predby_same predby_at rootsin apart allonce setsbase chartok readok readone ctxok ctxone
    invariant jC(heapof(EarleyItem), C) without wants statesok alllisted gramok agree agree_intro clP clPn clS clSn clC clCn jP jS predby predby_same predby_at compby_at compby_same rootsin apart allonce setsbase chartok readok readone ctxok ctxone
    assert forall j int, q int {C[j].items[q]} :: it(C[chartIndex].items[setIndex]).RulePos == len(it(C[chartIndex].items[setIndex]).Rule.right) && j == it(C[chartIndex].items[setIndex]).originatingIndex && 0 <= q && q < len(C[j].items) && wants(*C[j].items[q], it(C[chartIndex].items[setIndex]).Rule.left.(nonTerminal).name) ==> key3(C[j].items[q].Rule.grammarRuleId, C[j].items[q].RulePos + 1, C[j].items[q].originatingIndex) in C[chartIndex].itemSet without agree_intro clP clPn clS clSn jP jS jC predby compby predby_same predby_at compby_same compby_at rootsin agree begun readok readone ctxok ctxone clC clCn
    assert forall i int, j int, q int {C[chartIndex].items[i], C[j].items[q]} :: 0 <= i && i < len(C[chartIndex].items) && i < it(setIndex) && C[chartIndex].items[i].RulePos == len(C[chartIndex].items[i].Rule.right) && j == C[chartIndex].items[i].originatingIndex && 0 <= q && q < len(C[j].items) && wants(*C[j].items[q], C[chartIndex].items[i].Rule.left.(nonTerminal).name) ==> key3(C[j].items[q].Rule.grammarRuleId, C[j].items[q].RulePos + 1, C[j].items[q].originatingIndex) in C[chartIndex].itemSet without agree_intro clP clPn clS clSn jP jS jC predby compby predby_same predby_at compby_same compby_at rootsin agree begun readok readone ctxok ctxone clC
    invariant clCn(C, chartIndex, setIndex) without agree_intro clP clPn clS clSn jP jS jC predby compby predby_same predby_at compby_same compby_at rootsin agree begun readok readone ctxok ctxone

// ---- parsers ----
// what a parser holds: the chart of the words it has read
pred parserok(H arr[int]arr[int]EarleyItem, R []*GrammarRule, W []Tokhan, C []*StateSet) bool := len(C) == len(W) + 1 && chartok(R, C) && rootsin(R, C) && clP(R, C, len(W)) && clS(W, C, len(W)) && clC(C, len(W)) && jP(H, C) && jS(W, C) && jC(H, C)

func initializeChart(g) (c)
  props C29
  requires gramok(g.rules)
  ensures c != nil && fresh(c) && len(c.inputWords) == 0 && len(c.state) == 1 && freshornil(c.state)
  ensures setsbase(c.state)
  ensures alllisted(c.state)
  ensures allonce(c.state)
  ensures statesok(g.rules, c.state)
  ensures apart(c.state)
  ensures readok(c.state)
  ensures ctxok(c.state)
  ensures rootsin(g.rules, c.state)
  ensures forall k int, i int {c.state[k].items[i]} :: 0 <= k && k < len(c.state) && 0 <= i && i < len(c.state[k].items) ==> c.state[k].items[i].RulePos == 0 && c.state[k].items[i].Rule.left.(nonTerminal).root

func NewEarleyParser(g) (p)
  props C29
  requires gramok(g.rules)
  ensures p != nil && fresh(p) && p.chart != nil && fresh(p.chart) && p.g == g && len(p.words) == 0 && len(p.chart.inputWords) == 0
  ensures parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state)

func (p *Earley) resizeChartIfNecessary(words)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state) && len(words) < 65535
  modifies p.chart.state, elems(p.chart.state)
  ensures len(p.chart.state) == (old(len(p.chart.state)) < len(words) + 1 ? len(words) + 1 : old(len(p.chart.state)))
  ensures forall k int {p.chart.state[k]} :: 0 <= k && k < old(len(p.chart.state)) ==> p.chart.state[k] == old(p.chart.state[k])
  ensures forall k int {p.chart.state[k]} :: old(len(p.chart.state)) <= k && k < len(p.chart.state) ==> fresh(p.chart.state[k]) && fresh(p.chart.state[k].itemSet) && p.chart.state[k].items == nil
  ensures gramok(p.g.rules)
  ensures setsbase(p.chart.state)
  ensures alllisted(p.chart.state)
  ensures allonce(p.chart.state)
  ensures statesok(p.g.rules, p.chart.state)
  ensures apart(p.chart.state)
  ensures readok(p.chart.state)
  ensures ctxok(p.chart.state)
  ensures base(p.chart.state) == old(base(p.chart.state)) || fresh(p.chart.state)

func (p *Earley) ParseTokens(tokens) (c)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state) && 0 < len(p.chart.state) && rootsin(p.g.rules, p.chart.state) && jP(heapof(EarleyItem), p.chart.state)
  requires len(tokens) < 65535
  modifies p.words, p.chart.state, p.chart.inputWords, heap *StateSet, heap StateSet, heap *EarleyItem, heap map[uint64]bool
  ensures c == p.chart
  ensures len(p.words) == len(tokens) && freshornil(p.words)
  ensures p.chart.inputWords == p.words
  ensures forall k int {p.words[k]} :: 0 <= k && k < len(tokens) ==> p.words[k] == tokens[k]
  ensures parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state)

func (p *Earley) Parse(input) (c)
  props C29
  requires p != nil && p.chart != nil && chartok(p.g.rules, p.chart.state) && 0 < len(p.chart.state) && rootsin(p.g.rules, p.chart.state) && jP(heapof(EarleyItem), p.chart.state)
  requires len(input) <= 1000000000000 && ntok(input) < 65535
  modifies p.words, p.chart.state, p.chart.inputWords, heap *StateSet, heap StateSet, heap *EarleyItem, heap map[uint64]bool
  ensures c == p.chart
  ensures len(p.words) == ntok(input)
  ensures forall k int {p.words[k]} :: 0 <= k && k < ntok(input) ==> p.words[k] == tokof(input, 0, k)
  ensures parserok(heapof(EarleyItem), p.g.rules, p.words, p.chart.state)
