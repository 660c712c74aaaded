package sigs.k8s.io/instrumentation-tools/promq/prom
import labels github.com/prometheus/prometheus/pkg/labels
import promql github.com/prometheus/prometheus/promql
import proto github.com/golang/protobuf/proto
import prettyjson github.com/hokaccha/go-prettyjson
import strings strings

// ---- C12 ----
extern func prettyjson.NewFormatter() (r)
  trusted "dependency: a new formatter"
  ensures r != nil && fresh(r)

func ToPrettyJson(result) (r, err)
  props C12
  requires result != nil
  ensures result.Err != nil ==> r == nil && err == result.Err
  ensures (r == nil) <==> (err != nil)

func ToPrettyColoredJson(result) (r, err)
  props C12
  requires result != nil
  ensures result.Err != nil ==> r == nil && err == result.Err
  ensures (r == nil) <==> (err != nil)

func ToYaml(result) (r, err)
  props C12
  requires result != nil
  ensures result.Err != nil ==> r == nil && err == result.Err
  ensures (r == nil) <==> (err != nil)

func ToPrettyFormat(res, outputType, colorized) (r, err)
  props C12
  requires res != nil
  ensures (r == nil) <==> (err != nil)
  ensures res.Err != nil && (outputType == "json" || outputType == "yaml" || outputType == "prometheus") ==> err == res.Err
  ensures res.Err != nil ==> err != nil
  ensures outputType != "json" && outputType != "yaml" && outputType != "prometheus" ==> err != nil
  ensures outputType == "prometheus" && res.Err == nil && is(res.Value, promql.Vector) ==> err == nil && *r == vtext(elems(res.Value.(promql.Vector)), len(res.Value.(promql.Vector)), heapof(labels.Label))

// a label set without the metric name, and the text of a sample with given labels
function lwithout(l mathint) mathint
function sampletext(l mathint, p promql.Point) string
extern func (ls labels.Labels) MatchLabels(on, names) (r)
  trusted "dependency: the labels with the given names"
  ensures on && len(names) == 1 ==> (len(r) > 0 <==> lhas(lset(ls), names[0])) && (len(r) > 0 ==> r[0].Value == lget(lset(ls), names[0]))
extern func (ls labels.Labels) WithoutLabels(names) (r)
  trusted "dependency: the labels without the metric name and without the given names"
  ensures len(names) == 1 && names[0] == labels.MetricName ==> lset(r) == lwithout(lset(ls))
extern func (s promql.Sample) String() (r)
  trusted "dependency: labels, value and time of the sample"
  ensures r == sampletext(lset(s.Metric), s.Point)
extern func (r *promql.Result) String() (s)
  trusted "dependency: text of any result"

recpred joined(a seq[string], n mathint, sep string) string := n <= 0 ? "" : (n == 1 ? a[0] : joined(a, n-1, sep) + sep + a[n-1])
extern func strings.Join(elems0, sep) (r)
  trusted "standard library: the strings with the separator between them"
  ensures r == joined(elems(elems0), len(elems0), sep)

// one line per sample: the metric name, then the rest
pred sline(l mathint, p promql.Point) string := (lhas(l, labels.MetricName) ? lget(l, labels.MetricName) : "") + sampletext(lwithout(l), p)
recpred vtext(v seq[promql.Sample], n mathint, H arr[int]seq[labels.Label]) string := n <= 0 ? "" : (n == 1 ? sline(lid(H[base(v[0].Metric)], len(v[0].Metric)), v[0].Point) : vtext(v, n-1, H) + "\n" + sline(lid(H[base(v[n-1].Metric)], len(v[n-1].Metric)), v[n-1].Point))
lemma join_vtext(a seq[string], v seq[promql.Sample], n mathint, H arr[int]seq[labels.Label])
  requires n >= 0
  requires forall i int {a[i]} {v[i]} :: 0 <= i && i < n ==> a[i] == sline(lid(H[base(v[i].Metric)], len(v[i].Metric)), v[i].Point)
  induction n
  use unfold(joined(a, n, "\n"))
  use unfold(vtext(v, n, H))
  use join_vtext(a, v, n-1, H)
  ensures joined(a, n, "\n") == vtext(v, n, H)

func ToPrometheusFormat(result) (r, err)
  props C12
  requires result != nil
  define v = result.Value.(promql.Vector)
  ensures result.Err != nil ==> r == nil && err == result.Err
  ensures (r == nil) <==> (err != nil)
  ensures result.Err == nil ==> err == nil
  ensures err == nil && is(result.Value, promql.Vector) ==> *r == vtext(elems(v), len(v), heapof(labels.Label))
  loop 2
    use join_vtext(elems(lines), elems(v), len(lines), old(heapof(labels.Label)))
    invariant len(lines) == $i && freshornil(lines)
    invariant forall i int {lines[i]} {v[i]} :: 0 <= i && i < $i ==> lines[i] == sline(lset(v[i].Metric), v[i].Point)
