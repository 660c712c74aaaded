package github.com/gdamore/tcell

// ---- C27: key events (tcell's own code) ----
transparent github.com/gdamore/tcell.EventKey
func (ev *EventKey) Key() (k)
  props C27
  requires ev != nil
  ensures k == ev.key
func (ev *EventKey) Rune() (r)
  props C27
  requires ev != nil
  ensures r == ev.ch
func (ev *EventKey) Modifiers() (m)
  props C27
  requires ev != nil
  ensures m == ev.mod
// a typed control character is the special key of that code
func NewEventKey(k, ch, mod) (r)
  props C27
  ensures r != nil && fresh(r) && r.ch == ch
  ensures k == KeyRune && (ch < 32 || ch == 127) ? (0 <= ch ==> r.key == ch) : r.key == k && r.mod == mod

package sigs.k8s.io/instrumentation-tools/promq/term
import tcell github.com/gdamore/tcell
import prompt github.com/c-bata/go-prompt
import utf8 unicode/utf8
import syscall syscall
transparent github.com/c-bata/go-prompt.ASCIICode

extern func utf8.EncodeRune(p, r) (n)
  trusted "utf8: writes the encoding of the character, as the conversion of a character to a string does"
  requires len(p) >= len(runestr(r))
  modifies elems(p)
  ensures n == len(runestr(r)) && (forall i int {p[i]} :: 0 <= i && i < n ==> p[i] == runestr(r)[i])

// what a special key is for the prompt
pred picked(ctrl bool, shift bool, plain prompt.Key, c prompt.Key, s prompt.Key) prompt.Key := ctrl ? c : (shift ? s : plain)
pred modkey(k tcell.Key, ctrl bool, shift bool) prompt.Key := k == tcell.KeyLeft ? picked(ctrl, shift, prompt.Left, prompt.ControlLeft, prompt.ShiftLeft) : (k == tcell.KeyRight ? picked(ctrl, shift, prompt.Right, prompt.ControlRight, prompt.ShiftRight) : (k == tcell.KeyUp ? picked(ctrl, shift, prompt.Up, prompt.ControlUp, prompt.ShiftUp) : (k == tcell.KeyDown ? picked(ctrl, shift, prompt.Down, prompt.ControlDown, prompt.ShiftDown) : picked(ctrl, shift, prompt.Delete, prompt.ControlDelete, prompt.ShiftDelete))))
pred navkey(k tcell.Key) prompt.Key := k == tcell.KeyHome ? prompt.Home : (k == tcell.KeyEnd ? prompt.End : (k == tcell.KeyPgUp ? prompt.PageUp : (k == tcell.KeyPgDn ? prompt.PageDown : (k == tcell.KeyBacktab ? prompt.BackTab : (k == tcell.KeyInsert ? prompt.Insert : prompt.NotDefined)))))
pred ctlkey(k tcell.Key) prompt.Key := k == 0 ? prompt.ControlSpace : (k == 8 || k == 127 ? prompt.Backspace : (k == 9 ? prompt.Tab : (k <= 26 ? prompt.ControlA + (k - 1) : (k == 27 ? prompt.Escape : (k == 28 ? prompt.ControlBackslash : (k == 29 ? prompt.ControlSquareClose : (k == 30 ? prompt.ControlCircumflex : (k == 31 ? prompt.ControlUnderscore : prompt.NotDefined))))))))
pred promptkey(k tcell.Key, m tcell.ModMask) prompt.Key := 0 <= k && k <= 127 ? ctlkey(k) : (tcell.KeyF1 <= k && k <= tcell.KeyF24 ? prompt.F1 + (k - tcell.KeyF1) : (k == tcell.KeyLeft || k == tcell.KeyRight || k == tcell.KeyUp || k == tcell.KeyDown || k == tcell.KeyDelete ? modkey(k, bitand(m, 2) != 0, bitand(m, 1) != 0) : navkey(k)))

// the prompt's table of sequences
pred tableok() bool := forall i int {prompt.ASCIISequences[i]} :: 0 <= i && i < len(prompt.ASCIISequences) ==> prompt.ASCIISequences[i] != nil && len(prompt.ASCIISequences[i].ASCIICode) > 0
pred notin(k prompt.Key, n int) bool := forall j int {prompt.ASCIISequences[j]} :: 0 <= j && j < n ==> prompt.ASCIISequences[j].Key != k
// b is the sequence of prompt key k, nil if it has none
pred seqof(b []byte, k prompt.Key) bool := b == nil ? notin(k, len(prompt.ASCIISequences)) : (exists i int {prompt.ASCIISequences[i]} :: 0 <= i && i < len(prompt.ASCIISequences) && prompt.ASCIISequences[i].Key == k && b == prompt.ASCIISequences[i].ASCIICode && notin(k, i))

func nonRuneKeyToBytes(evt) (b)
  props C27
  requires evt != nil && evt.key != tcell.KeyRune && tableok()
  ensures seqof(b, promptkey(evt.key, evt.mod))
  ensures b != nil ==> len(b) > 0
  loop 1
    invariant notin(key, $i)

// ---- the queue of keys ----
pred keyok(e *tcell.EventKey) bool := e != nil && (e.key == tcell.KeyRune ==> 0 <= e.ch)
channel keys *tcell.EventKey :: keyok(v)

func (p *screenParser) AddKey(evt)
  props C27
  requires p != nil && evt != nil && keyok(evt)
  modifies trace keys_send
  ensures ncalls(keys_send) == old(ncalls(keys_send)) + 1 && callarg(keys_send, 0, old(ncalls(keys_send))) == p.evts && callarg(keys_send, 1, old(ncalls(keys_send))) == evt

// the view hands every key it is given to its parser
func (v *PromptView) HandleKey(evt)
  props C27
  requires v != nil && v.reader != nil && evt != nil && keyok(evt)
  modifies trace keys_send
  ensures ncalls(keys_send) == old(ncalls(keys_send)) + 1 && callarg(keys_send, 0, old(ncalls(keys_send))) == v.reader.evts && callarg(keys_send, 1, old(ncalls(keys_send))) == evt

recpred strpos(s string, j mathint) mathint := j <= 0 ? 0 : strpos(s, j - 1) + runew(s, strpos(s, j - 1))
pred typed(e *tcell.EventKey, r int32) bool := e != nil && e.ch == r && (r < 32 || r == 127 ? e.key == r : e.key == tcell.KeyRune)
func (p *screenParser) AddString(str)
  props C27
  requires p != nil
  modifies trace keys_send
  define o0 = old(ncalls(keys_send))
  define n = (ncalls(keys_send) - o0)
  ensures n >= 0 && strpos(str, n) == len(str)
  ensures forall i mathint {callarg(keys_send, 1, i)} :: o0 <= i && i < ncalls(keys_send) ==> callarg(keys_send, 0, i) == p.evts && strpos(str, i - o0) < len(str) && typed(callarg(keys_send, 1, i), runeat(str, strpos(str, i - o0)))
  use unfold(strpos(str, 0))
  loop 1
    use unfold(strpos(str, n))
    use unfold(strpos(str, n + 1))
    invariant n >= 0 && $pos == strpos(str, n) && 0 <= $pos && $pos <= len(str)
    invariant forall i mathint {callarg(keys_send, 1, i)} :: o0 <= i && i < ncalls(keys_send) ==> callarg(keys_send, 0, i) == p.evts && strpos(str, i - o0) < len(str) && typed(callarg(keys_send, 1, i), runeat(str, strpos(str, i - o0)))
    decreases len(str) - $pos

// the typed text of n keys received from number lo on
recpred ktext(H arr[int]seq[tcell.EventKey], a seq[*tcell.EventKey], lo mathint, n mathint) string := n <= 0 ? "" : ktext(H, a, lo, n - 1) + runestr(H[base(a[lo + n - 1])][pi(a[lo + n - 1])].ch)
lemma ktext_frame(H arr[int]seq[tcell.EventKey], a seq[*tcell.EventKey], b seq[*tcell.EventKey], lo mathint, n mathint)
  requires forall i mathint {a[i]} :: lo <= i && i < lo + n ==> a[i] == b[i]
  induction n
  use unfold(ktext(H, a, lo, n))
  use unfold(ktext(H, b, lo, n))
  ensures ktext(H, a, lo, n) == ktext(H, b, lo, n)
pred holds2(b []byte, t string) bool := len(b) == len(t) && (forall i int {b[i]} :: 0 <= i && i < len(b) ==> b[i] == t[i])

func (p *screenParser) Read() (b, err)
  props C27
  requires p != nil && tableok() && (p.leftOvers == nil || len(p.leftOvers) > 0)
  modifies p.leftOvers
  modifies trace keys_recv
  define o0 = old(ncalls(keys_recv))
  define n = (ncalls(keys_recv) - o0)
  define K = callargs(keys_recv, 1)
  define special = (ncalls(keys_recv) > o0 && callarg(keys_recv, 1, ncalls(keys_recv) - 1).key != tcell.KeyRune)
  define text = ktext(heapof(tcell.EventKey), callargs(keys_recv, 1), o0, special ? n - 1 : n)
  // what was left over is delivered first, alone
  ensures old(p.leftOvers) != nil ==> b == old(p.leftOvers) && err == nil && p.leftOvers == nil && n == 0
  // otherwise typed characters up to the first special key or until nothing is pending
  ensures old(p.leftOvers) == nil ==> n >= 0 && (forall i mathint {callarg(keys_recv, 1, i)} :: o0 <= i && i < ncalls(keys_recv) - (special ? 1 : 0) ==> callarg(keys_recv, 1, i).key == tcell.KeyRune)
  ensures old(p.leftOvers) == nil && len(text) > 0 ==> holds2(b, text) && err == nil
  // a special key waits for the next read, or is the only thing delivered
  ensures old(p.leftOvers) == nil && len(text) > 0 && special ==> seqof(p.leftOvers, promptkey(K[ncalls(keys_recv) - 1].key, K[ncalls(keys_recv) - 1].mod))
  ensures old(p.leftOvers) == nil && len(text) == 0 && special ==> seqof(b, promptkey(K[ncalls(keys_recv) - 1].key, K[ncalls(keys_recv) - 1].mod)) && p.leftOvers == nil
  ensures old(p.leftOvers) == nil && !special ==> p.leftOvers == nil
  ensures p.leftOvers == nil || len(p.leftOvers) > 0
  // nothing to deliver
  ensures err == nil <==> len(b) > 0
  ensures err != nil ==> err == syscall.EWOULDBLOCK && b == nil
  ensures old(p.leftOvers) == nil && n == 0 ==> err != nil
  use unfold(ktext(heapof(tcell.EventKey), callargs(keys_recv, 1), o0, 0))
  loop 1
    use ktext_frame(heapof(tcell.EventKey), it(callargs(keys_recv, 1)), callargs(keys_recv, 1), o0, it(n))
    use unfold(ktext(heapof(tcell.EventKey), callargs(keys_recv, 1), o0, n))
    useexit ktext_frame(heapof(tcell.EventKey), it(callargs(keys_recv, 1)), callargs(keys_recv, 1), o0, it(n))
    invariant n >= 0 && p.leftOvers == nil && freshornil(res)
    invariant forall i mathint {callarg(keys_recv, 1, i)} :: o0 <= i && i < ncalls(keys_recv) ==> keyok(callarg(keys_recv, 1, i)) && callarg(keys_recv, 1, i).key == tcell.KeyRune
    invariant holds2(res, ktext(heapof(tcell.EventKey), callargs(keys_recv, 1), o0, n))
