package sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley
import parser github.com/prometheus/prometheus/promql/parser
import sets sigs.k8s.io/instrumentation-tools/notstdlib/sets

// ---- C31: the kind of a lexical item ----
pred aggrItem(t parser.ItemType) bool := t == parser.AVG || t == parser.BOTTOMK || t == parser.COUNT || t == parser.COUNT_VALUES || t == parser.GROUP || t == parser.MAX || t == parser.MIN || t == parser.QUANTILE || t == parser.STDDEV || t == parser.STDVAR || t == parser.SUM || t == parser.TOPK
pred cmpItem(t parser.ItemType) bool := t == parser.EQL || t == parser.EQLC || t == parser.EQL_REGEX || t == parser.GTE || t == parser.GTR || t == parser.LSS || t == parser.LTE || t == parser.NEQ || t == parser.NEQ_REGEX
pred arithItem(t parser.ItemType) bool := t == parser.ADD || t == parser.SUB || t == parser.MUL || t == parser.DIV || t == parser.MOD || t == parser.POW
pred setItem(t parser.ItemType) bool := t == parser.LAND || t == parser.LOR || t == parser.LUNLESS
pred scalarFn(v string) bool := v in scalarFunctions
pred vectorFn(v string) bool := v in vectorFunctions

func isAggregator(item) (r)
  props C31
  ensures r <==> aggrItem(item)
func isOperator(item) (r)
  props C31
  // the parser has one more operator class, which the lexer never delivers here: '@'
  ensures r <==> cmpItem(item) || arithItem(item) || setItem(item) || item == parser.AT || item == 57386
func isScalarFunction(item) (r)
  props C31
  ensures r <==> scalarFn(item.Val)
  loop 1
    invariant forall i int {$range[i]} :: 0 <= i && i < $i ==> $range[i] != item.Val
func isVectorFunction(item) (r)
  props C31
  ensures r <==> vectorFn(item.Val)
  loop 1
    invariant forall i int {$range[i]} :: 0 <= i && i < $i ==> $range[i] != item.Val

pred kindtable(t parser.ItemType, v string) TokenType :=
  (t == parser.BY || t == parser.WITHOUT) ? AGGR_KW :
  (t == parser.OFFSET ? OFFSET_KW :
  (t == parser.BOOL ? BOOL_KW :
  ((t == parser.GROUP_LEFT || t == parser.GROUP_RIGHT) ? GROUP_SIDE :
  ((t == parser.IGNORING || t == parser.ON) ? GROUP_KW :
  (t == parser.EOF ? EOF :
  (t == parser.STRING ? STRING :
  (aggrItem(t) ? AGGR_OP :
  (t == parser.METRIC_IDENTIFIER ? METRIC_ID :
  (scalarFn(v) ? FUNCTION_SCALAR_ID :
  (vectorFn(v) ? FUNCTION_VECTOR_ID :
  (t == parser.IDENTIFIER ? ID :
  (t == parser.LEFT_BRACE ? LEFT_BRACE :
  (t == parser.RIGHT_BRACE ? RIGHT_BRACE :
  (t == parser.LEFT_PAREN ? LEFT_PAREN :
  (t == parser.RIGHT_PAREN ? RIGHT_PAREN :
  (t == parser.LEFT_BRACKET ? LEFT_BRACKET :
  (t == parser.RIGHT_BRACKET ? RIGHT_BRACKET :
  (t == parser.DURATION ? DURATION :
  (arithItem(t) ? ARITHMETIC :
  (setItem(t) ? SET :
  ((cmpItem(t) || t == parser.AT || t == 57386) ? OPERATOR :
  (t == parser.COMMA ? COMMA :
  (t == parser.COLON ? COLON :
  (t == parser.NUMBER ? NUM : UNKNOWN))))))))))))))))))))))))

function kindof(t parser.ItemType, v string) TokenType
axiom kindof_def(t parser.ItemType, v string)
  trigger kindof(t, v)
  ensures kindof(t, v) == kindtable(t, v)

func mapParserItemTypeToTokhanType(item) (r)
  props C31
  ensures r == kindof(item.Typ, item.Val)

pred tokhan(it parser.Item, off int) Tokhan := mk(Tokhan, it.Pos + off, it.Pos + len(it.Val) + off, kindof(it.Typ, it.Val), it.Typ, it.Val, 0)

extern func (i *parser.Item) PositionRange() (r)
  trusted "dependency: an item covers its own text"
  ensures r.Start == i.Pos && r.End == i.Pos + len(i.Val)

// ---- the lexer of the dependency, as a sequence of items per text ----
function lexitem(q string, k mathint) parser.Item
function lexend(q string) mathint
pred lexstop(t parser.ItemType) bool := t == parser.EOF || t == parser.ERROR
axiom lex_end(q string, k mathint)
  trigger lexitem(q, k)
  ensures lexend(q) >= 0 && lexstop(lexitem(q, lexend(q)).Typ) && (0 <= k && k < lexend(q) ==> !lexstop(lexitem(q, k).Typ))
// every item but an error message is a piece of the text; a later error is not at the beginning
axiom lex_pos(q string, k mathint)
  trigger lexitem(q, k)
  ensures 0 <= k && k <= lexend(q) ==> 0 <= lexitem(q, k).Pos && lexitem(q, k).Pos <= len(q) && (lexitem(q, k).Typ != parser.ERROR ==> lexitem(q, k).Pos + len(lexitem(q, k).Val) <= len(q)) && (lexitem(q, k).Typ == parser.ERROR && k > 0 ==> lexitem(q, k).Pos > 0)
axiom lex_text(q string, k mathint, i mathint)
  trigger lexitem(q, k).Val[i]
  ensures 0 <= k && k <= lexend(q) && lexitem(q, k).Typ != parser.ERROR && 0 <= i && i < len(lexitem(q, k).Val) ==> lexitem(q, k).Val[i] == q[lexitem(q, k).Pos + i]
axiom lex_order(q string, j mathint, k mathint)
  trigger lexitem(q, j), lexitem(q, k)
  ensures 0 <= j && j < k && k <= lexend(q) ==> lexitem(q, j).Pos + len(lexitem(q, j).Val) <= lexitem(q, k).Pos

ghost parser.Lexer.lexin string
ghost parser.Lexer.lexcount mathint
extern func parser.Lex(input) (r)
  trusted "dependency: a lexer at the beginning of the text"
  ensures r != nil && fresh(r) && r.lexin == input && r.lexcount == 0
extern func (l *parser.Lexer) NextItem(itemp)
  trusted "dependency: the next item of the text (the items of a text are a function of the text)"
  requires itemp != nil
  modifies *itemp, l.lexcount
  ensures l.lexcount == old(l.lexcount) + 1
  ensures *itemp == lexitem(l.lexin, old(l.lexcount))

func createTokenFromItem(item, offset) (r)
  props C31
  requires 0 <= item.Pos && item.Pos <= 1000000000000 && 0 <= offset && offset <= 1000000000000 && len(item.Val) <= 1000000000000
  ensures r == tokhan(item, offset)

// the tokens of a text: the items up to its end, or up to the first error followed by those of the text from there on
pred lexlast(q string) parser.Item := lexitem(q, lexend(q))
pred resumes(q string) bool := lexlast(q).Typ == parser.ERROR && lexend(q) > 0
recpred ntok(q string) mathint := lexlast(q).Typ == parser.EOF ? lexend(q) + 1 : (lexend(q) == 0 ? 0 : lexend(q) + ntok(q[lexlast(q).Pos:]))
recpred tokof(q string, off mathint, k mathint) Tokhan := (k < lexend(q) || !resumes(q)) ? tokhan(lexitem(q, k), off) : tokof(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q))

func extractTokensWithOffset(query, offset) (words)
  props C31
  requires 0 <= offset && len(query) + offset <= 1000000000000
  use unfold(ntok(query))
  use forall k mathint {tokof(query, offset, k)} :: unfold(tokof(query, offset, k))
  ensures freshornil(words)
  ensures len(words) == ntok(query)
  ensures forall k int {words[k]} :: 0 <= k && k < ntok(query) ==> words[k] == tokof(query, offset, k)
  loop 1
    invariant l != nil && l.lexin == query && l.lexcount == i && 0 <= i && i <= lexend(query)
    invariant freshornil(words)
    invariant len(words) == i && (forall k int {words[k]} :: 0 <= k && k < i ==> words[k] == tokhan(lexitem(query, k), offset))

// every token is the piece of the query between its offsets
lemma tok_in(q string, off mathint, k mathint)
  props C31
  requires 0 <= k && k < ntok(q) && 0 <= off
  induction len(q)
  use unfold(ntok(q))
  use unfold(tokof(q, off, k))
  use lexitem(q, k)
  use lexlast(q)
  use tok_in(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q))
  ensures off <= tokof(q, off, k).StartPos && tokof(q, off, k).StartPos <= tokof(q, off, k).EndPos && tokof(q, off, k).EndPos <= off + len(q)
  ensures tokof(q, off, k).EndPos - tokof(q, off, k).StartPos == len(tokof(q, off, k).Val)
lemma tok_text(q string, off mathint, k mathint, i mathint)
  props C31
  requires 0 <= k && k < ntok(q) && 0 <= off
  requires 0 <= i && i < len(tokof(q, off, k).Val)
  induction len(q)
  use unfold(ntok(q))
  use unfold(tokof(q, off, k))
  use lexitem(q, k)
  use lexlast(q)
  use tok_in(q, off, k)
  use tok_in(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q))
  use tok_text(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q), i)
  ensures tokof(q, off, k).Val[i] == q[tokof(q, off, k).StartPos - off + i]
lemma tok_kind(q string, off mathint, k mathint)
  props C31
  requires 0 <= k && k < ntok(q) && 0 <= off
  induction len(q)
  use unfold(ntok(q))
  use unfold(tokof(q, off, k))
  use lexitem(q, k)
  use lexlast(q)
  use tok_kind(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q))
  ensures tokof(q, off, k).Type == kindof(tokof(q, off, k).ItemType, tokof(q, off, k).Val)
// tokens are reported in the order of the text
lemma tok_order(q string, off mathint, j mathint, k mathint)
  props C31
  requires 0 <= j && j < k && k < ntok(q) && 0 <= off
  induction len(q)
  use unfold(ntok(q))
  use unfold(tokof(q, off, j))
  use unfold(tokof(q, off, k))
  use lexitem(q, j)
  use lexitem(q, k)
  use lexlast(q)
  use tok_in(q, off, j)
  use tok_in(q[lexlast(q).Pos:], off + lexlast(q).Pos, k - lexend(q))
  use tok_order(q[lexlast(q).Pos:], off + lexlast(q).Pos, j - lexend(q), k - lexend(q))
  ensures tokof(q, off, j).EndPos <= tokof(q, off, k).StartPos

func (ws Tokens) Print()
  props C31
func extractWords(query) (r)
  props C31
  requires len(query) <= 1000000000000
  ensures freshornil(r)
  ensures len(r) == ntok(query)
  ensures forall k int {r[k]} :: 0 <= k && k < ntok(query) ==> r[k] == tokof(query, 0, k)
func (ws Tokens) Vals() (r)
  props C31
  ensures len(r) == len(ws) && (forall k int {r[k]} :: 0 <= k && k < len(ws) ==> r[k] == ws[k].Val)
  loop 1
    invariant len(v) == len(ws) && (forall k int {v[k]} :: 0 <= k && k < $i ==> v[k] == ws[k].Val)
func (ws Tokens) Types() (r)
  props C31
  ensures len(r) == len(ws) && (forall k int {r[k]} :: 0 <= k && k < len(ws) ==> r[k] == ws[k].Type)
  loop 1
    invariant len(v) == len(ws) && (forall k int {v[k]} :: 0 <= k && k < $i ==> v[k] == ws[k].Type)
