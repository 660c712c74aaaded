package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels
import textparse github.com/prometheus/prometheus/pkg/textparse
import io io
import time time

// ---- C11 ----
// what a text consists of: entries, then either the end or a syntax error
function tid(a seq[uint8], n mathint) mathint
function ecount(t mathint) mathint
function ekind(t mathint, i mathint) textparse.Entry
function efail(t mathint) bool
function ehasts(t mathint, i mathint) bool
function ets(t mathint, i mathint) int64
function evalue(t mathint, i mathint) float64
function elabels(t mathint, i mathint) mathint
// what a parser reads, and how many entries it has delivered
function ptext(p textparse.Parser) mathint
ghost textparse.Parser.pnext mathint

extern func textparse.NewPromParser(b) (r)
  trusted "dependency: a parser at the start of the text"
  modifies ghost textparse.Parser.pnext
  ensures r != nil && ptext(r) == tid(elems(b), len(b)) && r.pnext == 0 && ecount(ptext(r)) >= 0
extern func (p textparse.Parser) Next() (et, err)
  trusted "dependency: delivers the entries of the text in order, then the end or a syntax error"
  modifies p.pnext
  ensures io.EOF != nil
  ensures old(p.pnext) < ecount(ptext(p)) ==> err == nil && et == ekind(ptext(p), old(p.pnext)) && p.pnext == old(p.pnext) + 1
  ensures old(p.pnext) >= ecount(ptext(p)) ==> p.pnext == old(p.pnext) && err != nil && (err == io.EOF <==> !efail(ptext(p)))
extern func (p textparse.Parser) Series() (b, ts, v)
  trusted "dependency: time stamp, if given, and value of the last sample line"
  requires p.pnext > 0 && ekind(ptext(p), p.pnext-1) == textparse.EntrySeries
  ensures ts != nil <==> ehasts(ptext(p), p.pnext-1)
  ensures ts != nil ==> allocated(ts) && *ts == ets(ptext(p), p.pnext-1)
  ensures v == evalue(ptext(p), p.pnext-1)
extern func (p textparse.Parser) Metric(l) (r)
  trusted "dependency: the labels of the last sample line, added to an empty list"
  requires p.pnext > 0 && ekind(ptext(p), p.pnext-1) == textparse.EntrySeries
  requires l != nil && len(*l) == 0
  modifies *l
  ensures lset(*l) == elabels(ptext(p), p.pnext-1)

// a label set under construction
ghost labels.Builder.bnames set[string]
ghost labels.Builder.bvals arr[string]string
extern func labels.NewBuilder(base) (r)
  trusted "dependency: a builder of label sets; an empty value means no label"
  ensures r != nil && fresh(r)
  ensures forall n string {n in r.bnames} :: (n in r.bnames) <==> lhas(lset(base), n) && lget(lset(base), n) != ""
  ensures forall n string {r.bvals[n]} :: (n in r.bnames) ==> r.bvals[n] == lget(lset(base), n)
extern func (b *labels.Builder) Set(n, v) (r)
  trusted "dependency: sets a label; an empty value removes it"
  modifies b.bnames, b.bvals
  ensures r == b
  ensures forall m string {m in b.bnames} :: (m in b.bnames) <==> (m == n ? v != "" : old(m in b.bnames))
  ensures forall m string {b.bvals[m]} :: b.bvals[m] == (m == n ? v : old(b.bvals[m]))
extern func (b *labels.Builder) Labels() (r)
  trusted "dependency: the label set built"
  ensures forall n string {lhas(lset(r), n)} :: lhas(lset(r), n) <==> (n in b.bnames)
  ensures forall n string {lget(lset(r), n)} :: (n in b.bnames) ==> lget(lset(r), n) == b.bvals[n]

function tnanos(t time.Time) int64
extern func (t time.Time) UnixNano() (r)
  trusted "standard library: nanoseconds since the epoch"
  ensures r == tnanos(t)
func PromTimestamp(normalTime) (r)
  props C11
  ensures r == tnanos(normalTime) / 1000000

// the sample lines among the first k entries
recpred nser(t mathint, k mathint) mathint := k <= 0 ? 0 : nser(t, k-1) + (ekind(t, k-1) == textparse.EntrySeries ? 1 : 0)
// label set r is that of L overlaid with the additional ones
pred overlaid(r mathint, L mathint, ls map[string]string) bool := forall n string {lhas(r, n)} :: (lhas(r, n) <==> ((n in ls) ? ls[n] != "" : lhas(L, n) && lget(L, n) != "")) && (lhas(r, n) ==> lget(r, n) == ((n in ls) ? ls[n] : lget(L, n)))

func ParseTextDataWithAdditionalLabels(data, nowish, ls) (r, err)
  props C11
  define t = tid(elems(data), len(data))
  modifies ghost textparse.Parser.pnext
  ensures err != nil <==> efail(t)
  ensures err != nil ==> r == nil
  ensures err == nil ==> len(r) == nser(t, ecount(t))
  ensures err == nil ==> forall e mathint {ekind(t, e)} :: 0 <= e && e < ecount(t) && ekind(t, e) == textparse.EntrySeries ==> 0 <= nser(t, e) && nser(t, e) < len(r) && r[nser(t, e)].Value == evalue(t, e)
  ensures err == nil ==> forall e mathint {ekind(t, e)} :: 0 <= e && e < ecount(t) && ekind(t, e) == textparse.EntrySeries ==> r[nser(t, e)].Timestamp == (ehasts(t, e) ? ets(t, e) : tnanos(nowish) / 1000000)
  ensures err == nil ==> forall e mathint {ekind(t, e)} :: 0 <= e && e < ecount(t) && ekind(t, e) == textparse.EntrySeries ==> overlaid(lset(r[nser(t, e)].Labels), elabels(t, e), ls)
  use unfold(nser(tid(elems(data), len(data)), 0))
  loop 1
    use unfold(nser(t, p.pnext))
    invariant ptext(p) == t && 0 <= p.pnext && p.pnext <= ecount(t) && fresh(metrics)
    invariant len(metrics) == nser(t, p.pnext)
    invariant forall e mathint {ekind(t, e)} :: 0 <= e && e < p.pnext && ekind(t, e) == textparse.EntrySeries ==> 0 <= nser(t, e) && nser(t, e) < len(metrics) && metrics[nser(t, e)].Value == evalue(t, e)
    invariant forall e mathint {ekind(t, e)} :: 0 <= e && e < p.pnext && ekind(t, e) == textparse.EntrySeries ==> metrics[nser(t, e)].Timestamp == (ehasts(t, e) ? ets(t, e) : nowAbouts)
    invariant forall e mathint {ekind(t, e)} :: 0 <= e && e < p.pnext && ekind(t, e) == textparse.EntrySeries ==> overlaid(lset(metrics[nser(t, e)].Labels), elabels(t, e), ls)
  loop 2
    invariant forall n string {n in visited} :: (n in visited) ==> (n in ls)
    invariant forall n string {n in lb.bnames} :: (n in lb.bnames) <==> ((n in visited) ? ls[n] != "" : lhas(lset(res), n) && lget(lset(res), n) != "")
    invariant forall n string {lb.bvals[n]} :: (n in lb.bnames) ==> lb.bvals[n] == ((n in visited) ? ls[n] : lget(lset(res), n))

func ParseTextData(data, nowish) (r, err)
  props C11
  define t = tid(elems(data), len(data))
  modifies ghost textparse.Parser.pnext
  ensures err != nil <==> efail(t)
  ensures err != nil ==> r == nil
  ensures err == nil ==> len(r) == nser(t, ecount(t))
  ensures err == nil ==> forall e mathint {ekind(t, e)} :: 0 <= e && e < ecount(t) && ekind(t, e) == textparse.EntrySeries ==> 0 <= nser(t, e) && nser(t, e) < len(r) && r[nser(t, e)].Value == evalue(t, e)
  ensures err == nil ==> forall e mathint {ekind(t, e)} :: 0 <= e && e < ecount(t) && ekind(t, e) == textparse.EntrySeries ==> r[nser(t, e)].Timestamp == (ehasts(t, e) ? ets(t, e) : tnanos(nowish) / 1000000)
