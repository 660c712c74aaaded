package sigs.k8s.io/instrumentation-tools/promq/term/plot
import math math

// ---- C16 ----
// a series delivers the same points whenever it is asked, and a point is a value
function npts(s Series) int
function ptat(s Series, i mathint) Point
function idof(s Series) SeriesId
function px(p Point) int64
function py(p Point) float64
extern func (s Series) Points() (r)
  trusted "interface method: the points of a series do not change while it is drawn"
  ensures len(r) == npts(s)
  ensures forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == ptat(s, i)
extern func (s Series) Id() (r)
  trusted "interface method: the id of a series does not change"
  ensures r == idof(s)
extern func (p Point) X() (r)
  trusted "interface method: a point is a value"
  ensures r == px(p)
extern func (p Point) Y() (r)
  trusted "interface method: a point is a value"
  ensures r == py(p)
extern func math.Inf(sign) (r)
  trusted "standard library"
  ensures sign >= 0 ==> r == finf()
  ensures sign < 0 ==> r == -finf()

// time-ordered points, none of them nil
pred wfseries(s Series) bool := s != nil && npts(s) >= 0
  && (forall j int {ptat(s, j)} :: 0 <= j && j < npts(s) ==> ptat(s, j) != nil)
  && (forall j int, k int {ptat(s, j), ptat(s, k)} :: 0 <= j && j <= k && k < npts(s) ==> px(ptat(s, j)) <= px(ptat(s, k)))

pred minok(x float64, y float64) bool := isnan(y) || x <= y
pred maxok(x float64, y float64) bool := isnan(y) || y <= x

func AutoAxes() (r)
  props C16
  ensures r.DomainMin == 9223372036854775807 && r.DomainMax == -9223372036854775808
  ensures forall v float64 {minok(r.RangeMin, v)} :: !isnan(v) ==> v <= r.RangeMin && r.RangeMax <= v

func (a PlatonicAxes) WithPreviousRange(oldAxes) (r)
  props C16
  ensures r.DomainMin == a.DomainMin && r.DomainMax == a.DomainMax
  ensures r.RangeMin == oldAxes.RangeMin && r.RangeMax == oldAxes.RangeMax

func DataToPlatonicGraph(seriesSet, baseAxes) (r)
  props C16
  opaque floats *
  requires forall i int {seriesSet[i]} :: 0 <= i && i < len(seriesSet) ==> wfseries(seriesSet[i])
  requires !isnan(baseAxes.RangeMin) && !isnan(baseAxes.RangeMax)
  ensures r != nil && fresh(r) && r.Series == seriesSet
  // every point is enclosed
  ensures forall i int, j int {ptat(seriesSet[i], j)} :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) ==> r.DomainMin <= px(ptat(seriesSet[i], j)) && px(ptat(seriesSet[i], j)) <= r.DomainMax
  ensures forall i int, j int {ptat(seriesSet[i], j)} :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) ==> minok(r.RangeMin, py(ptat(seriesSet[i], j))) && maxok(r.RangeMax, py(ptat(seriesSet[i], j)))
  // and so are the base axes
  ensures r.DomainMin <= baseAxes.DomainMin && baseAxes.DomainMax <= r.DomainMax
  ensures r.RangeMin <= baseAxes.RangeMin && baseAxes.RangeMax <= r.RangeMax
  // each bound is that of the base axes or of a point: there are no tighter axes
  ensures r.DomainMin == baseAxes.DomainMin || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && r.DomainMin == px(ptat(seriesSet[i], j)))
  ensures r.DomainMax == baseAxes.DomainMax || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && r.DomainMax == px(ptat(seriesSet[i], j)))
  ensures r.RangeMin == baseAxes.RangeMin || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && r.RangeMin == py(ptat(seriesSet[i], j)))
  ensures r.RangeMax == baseAxes.RangeMax || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && r.RangeMax == py(ptat(seriesSet[i], j)))
  loop 1
    invariant res.Series == seriesSet && !isnan(res.RangeMin) && !isnan(res.RangeMax)
    invariant forall i int, j int {ptat(seriesSet[i], j)} :: 0 <= i && i < $i && 0 <= j && j < npts(seriesSet[i]) ==> res.DomainMin <= px(ptat(seriesSet[i], j)) && px(ptat(seriesSet[i], j)) <= res.DomainMax
    invariant forall i int, j int {ptat(seriesSet[i], j)} :: 0 <= i && i < $i && 0 <= j && j < npts(seriesSet[i]) ==> minok(res.RangeMin, py(ptat(seriesSet[i], j))) && maxok(res.RangeMax, py(ptat(seriesSet[i], j)))
    invariant res.DomainMin <= baseAxes.DomainMin && baseAxes.DomainMax <= res.DomainMax
    invariant res.RangeMin <= baseAxes.RangeMin && baseAxes.RangeMax <= res.RangeMax
    invariant res.DomainMin == baseAxes.DomainMin || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && res.DomainMin == px(ptat(seriesSet[i], j)))
    invariant res.DomainMax == baseAxes.DomainMax || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && res.DomainMax == px(ptat(seriesSet[i], j)))
    invariant res.RangeMin == baseAxes.RangeMin || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && res.RangeMin == py(ptat(seriesSet[i], j)))
    invariant res.RangeMax == baseAxes.RangeMax || (exists i int, j int :: 0 <= i && i < len(seriesSet) && 0 <= j && j < npts(seriesSet[i]) && res.RangeMax == py(ptat(seriesSet[i], j)))
  loop 2
    invariant res.DomainMin == pre(res.DomainMin) && res.DomainMax == pre(res.DomainMax) && res.Series == seriesSet && !isnan(res.RangeMin) && !isnan(res.RangeMax)
    invariant res.RangeMin <= pre(res.RangeMin) && pre(res.RangeMax) <= res.RangeMax
    invariant forall j int {ptat(series, j)} :: 0 <= j && j < $i ==> minok(res.RangeMin, py(ptat(series, j))) && maxok(res.RangeMax, py(ptat(series, j)))
    invariant res.RangeMin == pre(res.RangeMin) || (exists j int :: 0 <= j && j < npts(series) && res.RangeMin == py(ptat(series, j)))
    invariant res.RangeMax == pre(res.RangeMax) || (exists j int :: 0 <= j && j < npts(series) && res.RangeMax == py(ptat(series, j)))
