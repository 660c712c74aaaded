package sigs.k8s.io/instrumentation-tools/promq/prom
import index github.com/prometheus/prometheus/tsdb/index
import labels github.com/prometheus/prometheus/pkg/labels

// ---- C08: iterating one series ----
pred sortedT(d []datapoint) bool := forall i int, j int {d[i], d[j]} :: 0 <= i && i < j && j < len(d) ==> d[i].timestamp <= d[j].timestamp

func (s *blockSeries) Next() (r)
  props C08
  requires s.block != nil && s.ind >= -1
  modifies s.ind
  ensures s.ind == old(s.ind) + 1
  ensures r <==> s.ind < len(s.block.data)

func (s *blockSeries) Seek(targetTime) (r)
  props C08
  requires s.block != nil && s.ind >= -1 && sortedT(s.block.data)
  modifies s.ind
  ensures s.ind >= 0 && s.ind >= old(s.ind)
  ensures r <==> s.ind < len(s.block.data)
  // the first sample at or after the time that is not before the current position
  ensures r ==> s.block.data[s.ind].timestamp >= targetTime
  ensures forall i int {s.block.data[i]} :: 0 <= i && old(s.ind) <= i && i < s.ind && i < len(s.block.data) ==> s.block.data[i].timestamp < targetTime

func (s *blockSeries) At() (t, v)
  props C08
  requires s.block != nil && 0 <= s.ind && s.ind < len(s.block.data)
  ensures t == s.block.data[s.ind].timestamp && v == s.block.data[s.ind].value

func (s *blockSeries) Err() (r)
  props C08
  ensures r == nil
func (s *blockSeries) Iterator() (r)
  props C08
  ensures is(r, *blockSeries) && r.(*blockSeries) == s
func (s *blockSeries) Labels() (r)
  props C08, C07
  requires s.block != nil
  ensures r == s.block.series

// ---- the iterator over references: position in what it delivers ----
extern func (p index.Postings) Next() (r)
  trusted "dependency: one step along its references"
  modifies p.ppos
  ensures p.ppos == old(p.ppos) + 1
  ensures r <==> p.ppos < plen(p)
extern func (p index.Postings) At() (r)
  trusted "dependency: the reference at its position"
  ensures 0 <= p.ppos && p.ppos < plen(p) ==> r == pseq(p)[p.ppos]
extern func (p index.Postings) Err() (r)
  trusted "dependency: in-memory lists do not fail"
  ensures r == nil

func (s *seriesSet) Next() (r)
  props C07
  requires s.postings != nil
  modifies s.postings.ppos
  ensures s.postings.ppos == old(s.postings.ppos) + 1
  ensures r <==> s.postings.ppos < plen(s.postings)
func (s *seriesSet) At() (r)
  props C07, C08
  requires s.postings != nil && s.storage != nil && 0 <= s.postings.ppos && s.postings.ppos < plen(s.postings)
  requires pseq(s.postings)[s.postings.ppos] in s.storage.data
  // a new iterator before the first sample of the series the reference stands for
  ensures is(r, *blockSeries) && fresh(r.(*blockSeries)) && r.(*blockSeries).ind == -1
  ensures r.(*blockSeries).block == s.storage.data[pseq(s.postings)[s.postings.ppos]]
func (s *seriesSet) Err() (r)
  props C07
  requires s.postings != nil
  ensures r == nil
func (q *memQuerier) newSeriesSet(postings) (r)
  props C07
  ensures r != nil && fresh(r) && r.postings == postings && r.storage == q.storage
