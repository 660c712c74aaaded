package sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley
import proto github.com/golang/protobuf/proto
import sets sigs.k8s.io/instrumentation-tools/notstdlib/sets

extern func proto.String(v) (r)
  trusted "dependency: a new string cell with the given value"
  ensures r != nil && fresh(r) && *r == v

// the value behind an optional string
pred samestr(a *string, b *string) bool := (a == nil <==> b == nil) && (a != nil ==> *a == *b)

func Copy(c) (r)
  props C33
  ensures c == nil <==> r == nil
  ensures r != nil ==> fresh(r)
  ensures c != nil ==> samestr(r.metric, c.metric) && samestr(r.metricLabel, c.metricLabel)
  ensures c != nil ==> (forall v string {v in r.metricLabelValues} {v in c.metricLabelValues} :: (v in r.metricLabelValues) <==> (v in c.metricLabelValues)) && (r.metricLabelValues == nil <==> c.metricLabelValues == nil)
  // nothing is shared
  ensures c != nil ==> (r.metric != nil ==> fresh(r.metric)) && (r.metricLabel != nil ==> fresh(r.metricLabel)) && (r.metricLabelValues != nil ==> fresh(r.metricLabelValues))
  loop 1
    invariant ss != nil && fresh(ss)
    invariant forall v string {v in visited} :: (v in visited) ==> (v in c.metricLabelValues)
    invariant forall v string {v in ss} {v in visited} :: (v in ss) <==> (v in visited)

func (c *completionContext) BuildContext(tokenType, token)
  props C33
  requires c != nil && tokenType != nil && token != nil
  modifies c.metric, c.metricLabel, c.metricLabelValues
  ensures *tokenType == METRIC_ID ==> c.metric != nil && fresh(c.metric) && *c.metric == token.Val
  ensures *tokenType != METRIC_ID ==> c.metric == old(c.metric)
  ensures *tokenType == METRIC_LABEL_SUBTYPE ==> c.metricLabel != nil && fresh(c.metricLabel) && *c.metricLabel == token.Val
  ensures *tokenType != METRIC_LABEL_SUBTYPE ==> c.metricLabel == old(c.metricLabel)
  ensures *tokenType == STRING ==> c.metricLabelValues != nil && fresh(c.metricLabelValues) && (forall v string {v in c.metricLabelValues} {v in old(c.metricLabelValues)} :: (v in c.metricLabelValues) <==> (v == token.Val || old(v in c.metricLabelValues)))
  ensures *tokenType != STRING ==> c.metricLabelValues == old(c.metricLabelValues)

func (c *completionContext) AddObservedMetricLabelValue(labelVal)
  props C33
  requires c != nil
  modifies c.metricLabelValues
  ensures c.metricLabelValues != nil && fresh(c.metricLabelValues)
  ensures forall v string {v in c.metricLabelValues} {v in old(c.metricLabelValues)} :: (v in c.metricLabelValues) <==> (v == labelVal || old(v in c.metricLabelValues))

func (c *completionContext) HasMetric() (r)
  props C33
  requires c != nil
  ensures r <==> c.metric != nil
func (c *completionContext) GetMetric() (r)
  props C33
  requires c != nil && c.metric != nil
  ensures r == *c.metric
func (c *completionContext) HasMetricLabel() (r)
  props C33
  requires c != nil
  ensures r <==> c.metricLabel != nil
func (c *completionContext) GetMetricLabel() (r)
  props C33
  requires c != nil && c.metricLabel != nil
  ensures r == *c.metricLabel
func (c *completionContext) GetUsedMetricLabelValues() (r)
  props C33
  requires c != nil
  ensures r != nil && dom(r) == dom(c.metricLabelValues)
