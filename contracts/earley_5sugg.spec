package sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley
import autocomplete sigs.k8s.io/instrumentation-tools/promq/autocomplete
import sets sigs.k8s.io/instrumentation-tools/notstdlib/sets

// ---- C32: the word before the cursor ----
pred sep(b byte) bool := exists i int {PromQLTokenSeparators[i]} :: 0 <= i && i < len(PromQLTokenSeparators) && PromQLTokenSeparators[i] == b
extern func strings.LastIndexAny(s, chars) (r)
  trusted "standard library, for a set of single-byte characters"
  ensures 0 - 1 <= r && r < len(s)
  ensures r >= 0 ==> (exists i int {chars[i]} :: 0 <= i && i < len(chars) && chars[i] == s[r])
  ensures forall j int, i int {s[j], chars[i]} :: r < j && j < len(s) && 0 <= i && i < len(chars) ==> s[j] != chars[i]
// w is the text after the last separator of q
pred wordof(q string, w string) bool := len(w) <= len(q) && w == q[len(q) - len(w):] && (forall j int {q[j]} :: len(q) - len(w) <= j && j < len(q) ==> !sep(q[j])) && (len(w) < len(q) ==> sep(q[len(q) - len(w) - 1]))
func getPrefix(query) (r)
  props C32
  ensures wordof(query, r)

function contains(s string, sub string) bool
extern func strings.Contains(s, sub) (r)
  trusted "standard library: a function of its arguments"
  ensures r <==> contains(s, sub)
function piece(s string, by string, k mathint) string
axiom piece_clean(s string, by string, k mathint)
  trigger contains(piece(s, by, k), by)
  ensures !contains(piece(s, by, k), by)
extern func strings.Split(s, by) (r)
  trusted "standard library: at least two pieces if there is a separator, none of which has one"
  ensures r != nil && fresh(r) && len(r) > 0 && (contains(s, by) ==> len(r) >= 2)
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == piece(s, by, k)
extern func strconv.Atoi(s) (n, err)
  trusted "standard library: any number, any error"

// ---- what the index reports, at any time ----
function hasmetric(x autocomplete.QueryIndex, m string) bool
function haslabel(x autocomplete.QueryIndex, m string, l string) bool
function hasvalue(x autocomplete.QueryIndex, m string, l string, v string) bool
extern func (x autocomplete.QueryIndex) GetMetricNames() (r)
  trusted "the index is another component (C10); it changes nothing the completer holds"
  ensures forall m string {m in r} :: m in r ==> hasmetric(x, m)
extern func (x autocomplete.QueryIndex) GetStoredDimensionsForMetric(m) (r)
  trusted "the index is another component (C10); it changes nothing the completer holds"
  ensures forall l string {l in r} :: l in r ==> haslabel(x, m, l)
extern func (x autocomplete.QueryIndex) GetStoredValuesForMetricAndDimension(m, l) (r)
  trusted "the index is another component (C10); it changes nothing the completer holds"
  ensures forall v string {v in r} :: v in r ==> hasvalue(x, m, l, v)

func (c *promQLCompleter) GetMetricNames() (r)
  props C32
  requires c != nil && c.index != nil
  ensures forall m string {m in r} :: m in r ==> hasmetric(c.index, m)
func (c *promQLCompleter) GetStoredDimensionsForMetric(mName) (r)
  props C32
  requires c != nil && c.index != nil
  ensures forall l string {l in r} :: l in r ==> haslabel(c.index, mName, l)
func (c *promQLCompleter) GetStoredValuesForMetricAndDimension(mName, lName) (r)
  props C32
  requires c != nil && c.index != nil
  ensures forall q string {q in r} :: q in r ==> (exists v string {hasvalue(c.index, mName, lName, v)} :: hasvalue(c.index, mName, lName, v) && q == quoted(v))

func NewPartialMatch(name, kind, detail) (r)
  props C32
  ensures r != nil && is(r, *matchResult) && r.(*matchResult) != nil && fresh(r.(*matchResult)) && *r.(*matchResult) == mk(matchResult, name, kind, detail)
func (m matchResult) GetValue() (r)
  props C32
  ensures r == m.Value
func (m matchResult) GetKind() (r)
  props C32
  ensures r == m.Kind
func (m matchResult) GetDetail() (r)
  props C32
  ensures r == m.Detail
extern func (m autocomplete.Match) GetValue() (r)
  trusted "dynamic dispatch: the implementation is under this contract"
  requires m != nil
  ensures is(m, *matchResult) ==> r == m.(*matchResult).Value

// ---- where nothing was read, no label and no value is expected ----
// the symbols a query can begin with
function starts(s Symbol) bool
pred startsok(R []*GrammarRule) bool := forall r int {R[r]} :: 0 <= r && r < len(R) ==> (R[r].left.(nonTerminal).root ==> starts(R[r].left)) && (starts(R[r].left) ==> (is(R[r].right[0], nonTerminal) ? starts(R[r].right[0]) : (tkind(R[r].right[0].(terminal)) != STRING && tkind(R[r].right[0].(terminal)) != METRIC_LABEL_SUBTYPE)))
lemma first_set(H arr[int]arr[int]EarleyItem, R []*GrammarRule, C []*StateSet, n int)
  props C32
  requires H == heapof(EarleyItem) && chartok(R, C) && jP(H, C) && startsok(R) && 0 <= n && len(C) > 0 && n <= len(C[0].items)
  induction n
  use first_set(H, R, C, n - 1)
  use unfold(predby(H, elems(C[0].items), n - 1, C[0].items[n - 1].Rule.left))
  ensures forall i int {C[0].items[i]} :: 0 <= i && i < n ==> C[0].items[i].RulePos == 0 && starts(C[0].items[i].Rule.left)
lemma first_kinds(H arr[int]arr[int]EarleyItem, R []*GrammarRule, C []*StateSet, T TokenType)
  props C32
  requires H == heapof(EarleyItem) && chartok(R, C) && jP(H, C) && startsok(R) && len(C) > 0
  use first_set(H, R, C, len(C[0].items))
  use unfold(expected(C, 0, T))
  ensures expected(C, 0, T) ==> T != STRING && T != METRIC_LABEL_SUBTYPE

// ---- the suggestions ----
// a label of a metric, a value of a metric and a label, that a state of set k is in the middle of
recpred islabel(x autocomplete.QueryIndex, C []*StateSet, k int, l string) bool := exists z *completionContext {ctxof(C, k, z)} :: ctxof(C, k, z) && z != nil && z.metric != nil && haslabel(x, *z.metric, l)
recpred isvalue(x autocomplete.QueryIndex, C []*StateSet, k int, q string) bool := exists z *completionContext, v string {ctxof(C, k, z), quoted(v)} :: ctxof(C, k, z) && z != nil && z.metric != nil && z.metricLabel != nil && hasvalue(x, *z.metric, *z.metricLabel, v) && q == quoted(v)
lemma islabel_at(x autocomplete.QueryIndex, C []*StateSet, k int, l string, z *completionContext)
  props C32
  use unfold(islabel(x, C, k, l))
  ensures ctxof(C, k, z) && z != nil && z.metric != nil && haslabel(x, *z.metric, l) ==> islabel(x, C, k, l)
lemma isvalue_at(x autocomplete.QueryIndex, C []*StateSet, k int, z *completionContext, v string)
  props C32
  use unfold(isvalue(x, C, k, quoted(v)))
  ensures ctxof(C, k, z) && z != nil && z.metric != nil && z.metricLabel != nil && hasvalue(x, *z.metric, *z.metricLabel, v) ==> isvalue(x, C, k, quoted(v))
// what is suggested is known to the index or the language
pred backedby(x autocomplete.QueryIndex, C []*StateSet, k int, v string, kind string) bool := (kind == "metric-label" && islabel(x, C, k, v)) || (kind == "metric-id" && (hasmetric(x, v) || isvalue(x, C, k, v))) || v in tokenTypeMatching[kind]
pred goeson(v string, w string) bool := w == "" || startswith(v, w)
// a unit of time, or something known that continues the word, or the part after a colon in it
pred suggestion(x autocomplete.QueryIndex, C []*StateSet, k int, m autocomplete.Match, w string) bool := m != nil && is(m, *matchResult) && m.(*matchResult) != nil && ((m.(*matchResult).Kind == "time-unit" && m.(*matchResult).Value in timeUnits) || (backedby(x, C, k, m.(*matchResult).Value, m.(*matchResult).Kind) && (goeson(m.(*matchResult).Value, w) || (contains(w, ":") && goeson(m.(*matchResult).Value, piece(w, ":", 1))))))
pred suggestions(x autocomplete.QueryIndex, C []*StateSet, k int, l []autocomplete.Match, w string) bool := forall i int {l[i]} :: 0 <= i && i < len(l) ==> suggestion(x, C, k, l[i], w)

// the tokens of a text and those read before begin alike in kind as long as they do in text and place
pred tsame(a Tokhan, b Tokhan) bool := a.Val == b.Val && a.StartPos == b.StartPos && a.EndPos == b.EndPos && a.Type == b.Type
recpred lexedlike(W []Tokhan, q string) bool := exists m int {tokof(q, 0, m)} :: 0 <= m && m <= len(W) && m <= ntok(q) && (forall k int {W[k]} {tokof(q, 0, k)} :: 0 <= k && k < m ==> tsame(W[k], tokof(q, 0, k))) && (m == len(W) || m == ntok(q) || !same(W[m], tokof(q, 0, m)))

func (c *promQLCompleter) GenerateSuggestions(query, pos) (matches)
  props C32
  requires c != nil && c.index != nil && 0 <= pos && pos <= len(query) && len(query) <= 1000000000000
  requires PromQLParser != nil && PromQLParser.chart != nil && parserok(heapof(EarleyItem), PromQLParser.g.rules, PromQLParser.words, PromQLParser.chart.state) && len(PromQLParser.chart.inputWords) == len(PromQLParser.words) && startsok(PromQLParser.g.rules)
  requires forall x string {ntok(x)} :: len(x) <= pos && (forall i int {x[i]} :: 0 <= i && i < len(x) ==> x[i] == query[i]) ==> ntok(x) < 65535 && lexedlike(PromQLParser.words, x)
  define X = c.index
  use forall x string {lexedlike(PromQLParser.words, x)} :: unfold(lexedlike(PromQLParser.words, x))
  modifies PromQLParser.words, elems(PromQLParser.words), PromQLParser.chart.state, PromQLParser.chart.inputWords, heap *StateSet, heap StateSet, heap *EarleyItem, heap map[uint64]bool
  // the parser is ready for the next query
  ensures parserok(heapof(EarleyItem), PromQLParser.g.rules, PromQLParser.words, PromQLParser.chart.state) && len(PromQLParser.chart.inputWords) == len(PromQLParser.words)
  ensures exists n int {query[0:pos][n:]} :: 0 <= n && n <= pos && wordof(query[0:pos], query[0:pos][n:]) && suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][n:])
  loop 1
    use forall z *completionContext, l string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), haslabel(X, *z.metric, l)} :: islabel_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, l, z)
    use forall z *completionContext, v string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), hasvalue(X, *z.metric, *z.metricLabel, v)} :: isvalue_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, z, v)
    use first_kinds(heapof(EarleyItem), PromQLParser.g.rules, PromQLParser.chart.state, METRIC_LABEL_SUBTYPE)
    use first_kinds(heapof(EarleyItem), PromQLParser.g.rules, PromQLParser.chart.state, STRING)
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
  loop 2
    use forall z *completionContext, l string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), haslabel(X, *z.metric, l)} :: islabel_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, l, z)
    use forall z *completionContext, v string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), hasvalue(X, *z.metric, *z.metricLabel, v)} :: isvalue_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, z, v)
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
  loop 3
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
  loop 4
    use forall z *completionContext, l string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), haslabel(X, *z.metric, l)} :: islabel_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, l, z)
    use forall z *completionContext, v string {ctxof(PromQLParser.chart.state, len(PromQLParser.words) - 1, z), hasvalue(X, *z.metric, *z.metricLabel, v)} :: isvalue_at(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, z, v)
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
  loop 5
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
  loop 6
    invariant len(q) <= pos && wordof(query[0:pos], query[0:pos][len(q):])
    invariant autocompletePrefix == query[0:pos][len(q):] || (contains(query[0:pos][len(q):], ":") && autocompletePrefix == piece(query[0:pos][len(q):], ":", 1))
    invariant freshornil(matches)
    invariant suggestions(X, PromQLParser.chart.state, len(PromQLParser.words) - 1, matches, query[0:pos][len(q):])
