package sigs.k8s.io/instrumentation-tools/promq/term/plot

// ---- C17: series to pixels ----
// the number of data points behind the first n pixels
recpred opsum(a seq[PixelPoint], n mathint) mathint := n <= 0 ? 0 : opsum(a, n - 1) + len(a[n-1].OriginalPoints)
lemma opsum_zero(a seq[PixelPoint], n mathint)
  auto
  trigger opsum(a, n)
  use unfold(opsum(a, n))
  ensures n <= 0 ==> opsum(a, n) == 0
lemma opsum_nonneg(a seq[PixelPoint], n mathint)
  induction n
  use unfold(opsum(a, n))
  use opsum_nonneg(a, n - 1)
  ensures opsum(a, n) >= 0
lemma opsum_same(a seq[PixelPoint], b seq[PixelPoint], n mathint)
  requires forall j int {b[j]} :: 0 <= j && j < n ==> len(a[j].OriginalPoints) == len(b[j].OriginalPoints)
  induction n
  use unfold(opsum(a, n))
  use unfold(opsum(b, n))
  use opsum_same(a, b, n - 1)
  ensures opsum(a, n) == opsum(b, n)
// the pixels the rows of data points lo, lo+1, ... add up to
recpred rsum(f RangeProjector, s Series, lo mathint, n mathint) mathint := n <= 0 ? 0 : rsum(f, s, lo, n - 1) + apply(f, py(ptat(s, lo + n - 1)))
recpred rowcap(m mathint, n mathint) mathint := m * n
lemma cap_step(m int, n int)
  requires m >= 0 && n >= 0
  use unfold(rowcap(m, n))
  use unfold(rowcap(m, n + 1))
  ensures rowcap(m, n) >= 0 && rowcap(m, n + 1) == rowcap(m, n) + m
lemma cap_one(m int)
  use unfold(rowcap(m, 1))
  ensures rowcap(m, 1) == m
lemma avg_bounds(a int, n int, m int)
  requires n >= 1 && m >= 0 && 0 <= a && a <= rowcap(m, n)
  use unfold(rowcap(m, n))
  ensures 0 <= a / n && a / n <= m

pred inaxes(a PlatonicAxes, p Point) bool := a.DomainMin <= px(p) && px(p) <= a.DomainMax && a.RangeMin <= py(p) && py(p) <= a.RangeMax
pred inscreen(p PixelPoint, size ScreenSize) bool := 0 <= p.Col && p.Col < size.Cols && 0 <= p.Row && p.Row < size.Rows && len(p.OriginalPoints) >= 1

func (g *PlatonicGraph) ToScreen(scale, size) (r)
  props C17
  purecb scale
  opaque floats *
  requires scale != nil && saneaxes(g.PlatonicAxes)
  requires scales(scale, g.PlatonicAxes)
  requires 1 <= size.Rows && size.Rows <= 1073741824 && 1 <= size.Cols && size.Cols <= 1073741824
  requires sane(scale, g.PlatonicAxes, size.Rows - 1)
  requires forall i int {g.Series[i]} :: 0 <= i && i < len(g.Series) ==> wfseries(g.Series[i])
  requires forall i int, j int {ptat(g.Series[i], j)} :: 0 <= i && i < len(g.Series) && 0 <= j && j < npts(g.Series[i]) ==> inaxes(g.PlatonicAxes, ptat(g.Series[i], j))
  // the series in order, with their ids
  ensures r != nil && fresh(r) && r.ScreenSize == size && len(r.Series) == len(g.Series)
  ensures forall i int {r.Series[i]} :: 0 <= i && i < len(g.Series) ==> r.Series[i].Id == idof(g.Series[i])
  // pixels on the screen, one per column, in order
  ensures forall i int, p int {r.Series[i].Points[p]} :: 0 <= i && i < len(g.Series) && 0 <= p && p < len(r.Series[i].Points) ==> inscreen(r.Series[i].Points[p], size)
  ensures forall i int, p int, q int {r.Series[i].Points[p], r.Series[i].Points[q]} :: 0 <= i && i < len(g.Series) && 0 <= p && p < q && q < len(r.Series[i].Points) ==> r.Series[i].Points[p].Col < r.Series[i].Points[q].Col
  // every data point behind exactly one pixel
  ensures forall i int {r.Series[i]} :: 0 <= i && i < len(g.Series) ==> opsum(elems(r.Series[i].Points), len(r.Series[i].Points)) == npts(g.Series[i])
  ensures forall i int, p int, k int {r.Series[i].Points[p].OriginalPoints[k]} :: 0 <= i && i < len(g.Series) && 0 <= p && p < len(r.Series[i].Points) && 0 <= k && k < len(r.Series[i].Points[p].OriginalPoints) ==> r.Series[i].Points[p].OriginalPoints[k] == ptat(g.Series[i], opsum(elems(r.Series[i].Points), p) + k)
  loop 1
    use forall a seq[PixelPoint], b seq[PixelPoint], n mathint {opsum(a, n), opsum(b, n)} :: opsum_same(a, b, n)
    invariant fresh(outSeries) && len(outSeries) == len(g.Series)
    invariant forall i int {outSeries[i]} :: 0 <= i && i < $i ==> outSeries[i].Id == idof(g.Series[i]) && freshornil(outSeries[i].Points) && allocated(outSeries[i].Points)
    invariant forall i int, p int {outSeries[i].Points[p]} :: 0 <= i && i < $i && 0 <= p && p < len(outSeries[i].Points) ==> inscreen(outSeries[i].Points[p], size) && fresh(outSeries[i].Points[p].OriginalPoints) && allocated(outSeries[i].Points[p].OriginalPoints)
    invariant forall i int, p int, q int {outSeries[i].Points[p], outSeries[i].Points[q]} :: 0 <= i && i < $i && 0 <= p && p < q && q < len(outSeries[i].Points) ==> outSeries[i].Points[p].Col < outSeries[i].Points[q].Col
    invariant forall i int {outSeries[i]} :: 0 <= i && i < $i ==> opsum(elems(outSeries[i].Points), len(outSeries[i].Points)) == npts(g.Series[i])
    invariant forall i int, p int, k int {outSeries[i].Points[p].OriginalPoints[k]} :: 0 <= i && i < $i && 0 <= p && p < len(outSeries[i].Points) && 0 <= k && k < len(outSeries[i].Points[p].OriginalPoints) ==> outSeries[i].Points[p].OriginalPoints[k] == ptat(g.Series[i], opsum(elems(outSeries[i].Points), p) + k)
  loop 2
    use unfold(opsum(elems(pts), len(pts)))
    use cap_one(size.Rows - 1)
    use cap_step(size.Rows - 1, len(lastPt.OriginalPoints))
    use avg_bounds(lastPt.Row, len(lastPt.OriginalPoints), size.Rows - 1)
    use forall n mathint {opsum(elems(pts), n)} :: opsum_same(it(elems(pts)), elems(pts), n)
    invariant kept(ScreenSeries) && kept(PixelPoint) && kept(Point) && newer(pts) && allocated(pts) && freshornil(pts)
    invariant forall p int {pts[p]} :: 0 <= p && p < len(pts) ==> newer(pts[p].OriginalPoints) && fresh(pts[p].OriginalPoints) && allocated(pts[p].OriginalPoints)
    invariant forall p int, q int {pts[p], pts[q]} :: 0 <= p && p < q && q < len(pts) ==> base(pts[p].OriginalPoints) != base(pts[q].OriginalPoints) && pts[p].Col < pts[q].Col
    invariant lastPt == nil ? len(pts) == 0 : len(pts) > 0 && base(lastPt) == base(pts) && pi(lastPt) == len(pts) - 1
    invariant forall p int {pts[p]} :: 0 <= p && p < len(pts) - 1 ==> inscreen(pts[p], size)
    invariant lastPt != nil ==> 0 <= lastPt.Col && lastPt.Col < size.Cols && len(lastPt.OriginalPoints) >= 1 && 0 <= lastPt.Row && lastPt.Row <= rowcap(size.Rows - 1, len(lastPt.OriginalPoints))
    invariant lastPt != nil ==> $i > 0 && lastPt.Col == apply(domain, px(ptat(inSeries, $i - 1)))
    invariant opsum(elems(pts), len(pts)) == $i
    invariant forall p int, k int {pts[p].OriginalPoints[k]} :: 0 <= p && p < len(pts) && 0 <= k && k < len(pts[p].OriginalPoints) ==> pts[p].OriginalPoints[k] == ptat(inSeries, opsum(elems(pts), p) + k)
