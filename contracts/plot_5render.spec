package sigs.k8s.io/instrumentation-tools/promq/term/plot
import math math

// ---- C19 ----
extern func math.Abs(x) (r)
  trusted "standard library"
  ensures r == fabs(x)

pred cellof(m SubCellMapper, size ScreenSize, p PixelPoint) int := apply(m, p.Row, p.Col, size)
// a mapper keeps pixels of the screen inside the picture
pred wfmapper(m SubCellMapper, size ScreenSize) bool := forall row Row, col Column {apply(m, row, col, size)} :: 0 <= row && row < size.Rows && 0 <= col && col < size.Cols ==> 0 <= apply(m, row, col, size) && apply(m, row, col, size) < size.Rows * size.Cols
pred pinscreen(p PixelPoint, size ScreenSize) bool := 0 <= p.Row && p.Row < size.Rows && 0 <= p.Col && p.Col < size.Cols
pred isid(g *ScreenGraph, x SeriesId) bool := exists i int :: 0 <= i && i < len(g.Series) && g.Series[i].Id == x
pred haspoint(g *ScreenGraph, m SubCellMapper, x SeriesId, ind int) bool := exists i int, p int :: 0 <= i && i < len(g.Series) && g.Series[i].Id == x && 0 <= p && p < len(g.Series[i].Points) && cellof(m, g.ScreenSize, g.Series[i].Points[p]) == ind

// one step of a line: after n steps of slope s and k moves sideways, the error
// term is n*s-k up to rounding
pred err_ok(e float64, s float64, n int, k int) bool := fisfin(e) && absr(fr(e) - (to_real(n) * fr(s) - to_real(k))) <= to_real(n) / 1125899906842624.0 && 0.0 - 0.5 - to_real(n) / 1125899906842624.0 <= fr(e) && fr(e) <= 0.5 + to_real(n) / 1125899906842624.0
lemma step_bounds(e float64, s float64, n int, k int)
  requires 0 <= n && n <= 1073741824 && 0 <= k && fisfin(s) && 0.0 <= fr(s) && fr(s) <= 1.0 && err_ok(e, s, n, k)
  define t = to_real(n + 1) / 1125899906842624.0
  use rnd(fr(e) + fr(s))
  use rnd(fr(fadd(e, s)) + (0.0 - 1.0))
  ensures fisfin(fadd(e, s)) && fisfin(fsub(fadd(e, s), ffin(1.0)))
  ensures fr(fadd(e, s)) < 0.5 ==> err_ok(fadd(e, s), s, n + 1, k)
  ensures fr(fadd(e, s)) >= 0.5 ==> absr(fr(fadd(e, s)) - (to_real(n + 1) * fr(s) - to_real(k))) <= t && err_ok(fsub(fadd(e, s), ffin(1.0)), s, n + 1, k + 1)
recpred slope(a int, b int) float64 := fdiv(i2f(a), i2f(b))
lemma quot_unit(a real, b real)
  requires 1.0 <= b && 0.0 <= a && a <= b
  ensures 0.0 <= a / b && a / b <= 1.0
lemma quot_neg(a real, b real)
  requires 1.0 <= b && a <= 0.0 && 0.0 - a <= b
  ensures 0.0 - 1.0 <= a / b && a / b <= 0.0
lemma int_exact(a int)
  requires 0 - 1073741824 <= a && a <= 1073741824
  use rnd(to_real(a))
  ensures fisfin(i2f(a)) && fr(i2f(a)) == to_real(a)
lemma real_quot(x float64, y float64)
  requires fisfin(x) && fisfin(y) && fr(y) >= 1.0
  ensures fdiv(x, y) == rnd(fr(x) / fr(y))
lemma int_quot(a int, b int)
  requires 0 - 1073741824 <= a && a <= 1073741824 && 1 <= b && b <= 1073741824
  opaque floats *
  use unfold(slope(a, b))
  use int_exact(a)
  use int_exact(b)
  use real_quot(i2f(a), i2f(b))
  ensures slope(a, b) == rnd(to_real(a) / to_real(b))
lemma rnd_pos(q real)
  requires 0.0 <= q && q <= 1.0
  use rnd(q)
  use fle(rnd(q), rnd(1.0))
  use rnd(1.0)
  ensures fisfin(rnd(q)) && 0.0 <= fr(rnd(q)) && fr(rnd(q)) <= 1.0 && absr(fr(rnd(q)) - q) <= 1.0 / 4503599627370496.0
// the slope of an ascending line
lemma slope_bounds(a int, b int)
  requires 0 <= a && a <= b && 1 <= b && b <= 1073741824
  opaque floats *
  use int_quot(a, b)
  use quot_unit(to_real(a), to_real(b))
  use rnd_pos(to_real(a) / to_real(b))
  ensures fisfin(slope(a, b)) && 0.0 <= fr(slope(a, b)) && fr(slope(a, b)) <= 1.0
  ensures absr(fr(slope(a, b)) - to_real(a) / to_real(b)) <= 1.0 / 4503599627370496.0
lemma rnd_neg(q real)
  requires 0.0 - 1.0 <= q && q <= 0.0
  use rnd(q)
  use fle(rnd(0.0 - 1.0), rnd(q))
  use rnd(0.0 - 1.0)
  ensures fisfin(rnd(q)) && 0.0 - 1.0 <= fr(rnd(q)) && fr(rnd(q)) <= 0.0
lemma slope_neg(a int, b int)
  requires a <= 0 && 0 - a <= b && 1 <= b && b <= 1073741824
  opaque floats *
  use int_quot(a, b)
  use quot_neg(to_real(a), to_real(b))
  use rnd_neg(to_real(a) / to_real(b))
  ensures fisfin(slope(a, b)) && 0.0 - 1.0 <= fr(slope(a, b)) && fr(slope(a, b)) <= 0.0
lemma below_quot(n real, s real, a real, b real)
  requires 1.0 <= b && b <= 1073741824.0 && 0.0 <= a && a <= b && 0.0 <= n && n <= b && s <= a / b + 1.0 / 4503599627370496.0
  ensures n * s <= a + 0.01
// a line does not climb past its end
lemma step_up(e float64, a int, b int, n int, k int)
  requires 0 <= a && a <= b && 1 <= b && b <= 1073741824 && 0 <= n && n < b && 0 <= k && err_ok(e, slope(a, b), n, k)
  define s = slope(a, b)
  use slope_bounds(a, b)
  use step_bounds(e, s, n, k)
  use below_quot(to_real(n + 1), fr(s), to_real(a), to_real(b))
  ensures fr(fadd(e, s)) >= 0.5 ==> k + 1 <= a
lemma flat_step(e float64, s float64, n int)
  requires fisfin(e) && fisfin(s) && fr(e) <= 0.0 && 0.0 - 1.0 <= fr(s) && fr(s) <= 0.0 && 0 <= n && n <= 1073741824 && 0.0 - to_real(n) <= fr(e)
  use rnd(fr(e) + fr(s))
  use rnd(0.0 - to_real(n + 1))
  use fle(rnd(0.0 - to_real(n + 1)), rnd(fr(e) + fr(s)))
  use rnd(0.0)
  ensures !(fadd(e, s) >= ffin(0.5)) && fisfin(fadd(e, s)) && fr(fadd(e, s)) <= 0.0 && 0.0 - to_real(n + 1) <= fr(fadd(e, s))
lemma pos_quot(a real, b real)
  requires 1.0 <= a && a <= b && b <= 1073741824.0
  ensures a / b >= 1.0 / 1073741824.0
lemma greater(x float64, y float64)
  requires fisfin(x) && fisfin(y)
  ensures (x > y) == (fr(x) > fr(y))
lemma fge_gt(x float64, y float64)
  requires fisfin(x) && fisfin(y)
  ensures (x >= y) == (fr(x) >= fr(y))
lemma zero()
  ensures fisfin(ffin(0.0)) && fr(ffin(0.0)) == 0.0 && fisfin(ffin(0.5)) && fr(ffin(0.5)) == 0.5
lemma slope_sign(a int, b int)
  requires (a >= 0 ? a <= b : 0 - a <= b) && 1 <= b && b <= 1073741824
  opaque floats *
  use slope_bounds(a, b)
  use slope_neg(a, b)
  use pos_quot(to_real(a), to_real(b))
  use greater(slope(a, b), ffin(0.0))
  use zero()
  ensures fisfin(slope(a, b)) && (slope(a, b) > ffin(0.0)) == (a >= 1)
lemma steep(a int, b int)
  requires 0 - 1073741824 <= a && a <= 1073741824 && 0 - 1073741824 <= b && b <= 1073741824
  use int_exact(a)
  use int_exact(b)
  ensures (fabs(i2f(a)) > fabs(i2f(b))) == ((a >= 0 ? a : 0 - a) > (b >= 0 ? b : 0 - b))

// a line of slope a/b after n of its b steps, k pixels up
pred line(e float64, s float64, n int, k int, a int, b int) bool := b < 0 ? n == 0 && k == 0 : 0 <= n && n <= b + 1 && (n <= b ==> 0 <= k && k <= (a > 0 ? a : 0)) && (b > 0 ==> (a > 0 ? 0 <= k && err_ok(e, s, n, k) : k == 0 && fisfin(e) && fr(e) <= 0.0 && 0.0 - to_real(n) <= fr(e)))
lemma line_start(s float64, a int, b int)
  use zero()
  ensures line(ffin(0.0), s, 0, 0, a, b)
lemma line_up(e float64, a int, b int, n int, k int)
  requires 1 <= a && a <= b && b <= 1073741824 && 0 <= n && n <= b && line(e, slope(a, b), n, k, a, b)
  define s = slope(a, b)
  opaque floats *
  use zero()
  use slope_bounds(a, b)
  use step_bounds(e, s, n, k)
  use step_up(e, a, b, n, k)
  use greater(fadd(e, s), ffin(0.5))
  use fge_gt(fadd(e, s), ffin(0.5))
  ensures fadd(e, s) >= ffin(0.5) ==> line(fsub(fadd(e, s), ffin(1.0)), s, n + 1, k + 1, a, b)
  ensures !(fadd(e, s) >= ffin(0.5)) ==> line(fadd(e, s), s, n + 1, k, a, b)
lemma line_flat(e float64, a int, b int, n int)
  requires a <= 0 && 0 - a <= b && 1 <= b && b <= 1073741824 && 0 <= n && n <= b && line(e, slope(a, b), n, 0, a, b)
  define s = slope(a, b)
  opaque floats *
  use slope_neg(a, b)
  use flat_step(e, s, n)
  ensures !(fadd(e, s) >= ffin(0.5)) && line(fadd(e, s), s, n + 1, 0, a, b)
// one more pixel of a line
lemma line_step(e float64, s float64, a int, b int, n int, k int)
  requires s == slope(a, b) && (a >= 0 ? a <= b : 0 - a <= b) && b <= 1073741824 && 0 <= n && n <= b && line(e, s, n, k, a, b)
  opaque floats *
  use line_up(e, a, b, n, k)
  use line_flat(e, a, b, n)
  ensures fadd(e, s) >= ffin(0.5) && (b == 0 || a > 0) ==> line(fsub(fadd(e, s), ffin(1.0)), s, n + 1, k + 1, a, b)
  ensures fadd(e, s) >= ffin(0.5) && b > 0 ==> a > 0
  ensures !(fadd(e, s) >= ffin(0.5)) ==> line(fadd(e, s), s, n + 1, k, a, b)

lemma cell_count(a int, b int)
  requires 0 <= a && a <= 1048576 && 0 <= b && b <= 1048576
  ensures 0 <= a * b && a * b <= 1099511627776
pred markspoint(res *RenderedGraph, s *ScreenGraph, m SubCellMapper, i int, p int) bool := res.Cells[cellof(m, s.ScreenSize, s.Series[i].Points[p])].IsPoint

func (g *RenderedGraph) setCell(row, col, isPoint, series)
  inline

func (s *ScreenGraph) Render(subCellMapper) (res)
  props C19
  purecb subCellMapper SubCellMapper
  opaque floats *
  requires s != nil && subCellMapper != nil && 0 <= s.Rows && s.Rows <= 1048576 && 0 <= s.Cols && s.Cols <= 1048576
  use cell_count(s.Rows, s.Cols)
  requires wfmapper(subCellMapper, s.ScreenSize)
  requires forall i int {s.Series[i]} :: 0 <= i && i < len(s.Series) ==> s.Series[i].Id != NoSeries
  requires forall i int, p int {s.Series[i].Points[p]} :: 0 <= i && i < len(s.Series) && 0 <= p && p < len(s.Series[i].Points) ==> pinscreen(s.Series[i].Points[p], s.ScreenSize)
  ensures res != nil && fresh(res) && res.ScreenSize == s.ScreenSize && res.SubCellMapper == subCellMapper && len(res.Cells) == s.Rows * s.Cols && fresh(res.Cells)
  // every point is marked, by a series with a point there
  ensures forall i int, p int {s.Series[i].Points[p]} :: 0 <= i && i < len(s.Series) && 0 <= p && p < len(s.Series[i].Points) ==> 0 <= cellof(subCellMapper, s.ScreenSize, s.Series[i].Points[p]) && cellof(subCellMapper, s.ScreenSize, s.Series[i].Points[p]) < len(res.Cells) && markspoint(res, s, subCellMapper, i, p)
  ensures forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].IsPoint ==> res.Cells[c].Series != NoSeries && haspoint(s, subCellMapper, res.Cells[c].Series, c)
  // every mark belongs to a series
  ensures forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].Series != NoSeries ==> isid(s, res.Cells[c].Series)
  ensures forall c int, k int {res.Cells[c].MoreSeries[k]} :: 0 <= c && c < len(res.Cells) && 0 <= k && k < len(res.Cells[c].MoreSeries) ==> isid(s, res.Cells[c].MoreSeries[k])
  define good = (len(res.Cells) == s.Rows * s.Cols && res.ScreenSize == s.ScreenSize && res.SubCellMapper == subCellMapper && fresh(res) && fresh(res.Cells))
  define named = (forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].Series != NoSeries ==> isid(s, res.Cells[c].Series))
  define atpoint = (forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].IsPoint ==> res.Cells[c].Series != NoSeries && haspoint(s, subCellMapper, res.Cells[c].Series, c))
  define others = (forall c int, k int {res.Cells[c].MoreSeries[k]} :: 0 <= c && c < len(res.Cells) && 0 <= k && k < len(res.Cells[c].MoreSeries) ==> isid(s, res.Cells[c].MoreSeries[k]))
  define own = (forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) ==> freshornil(res.Cells[c].MoreSeries) && allocated(res.Cells[c].MoreSeries))
  define apart = (forall c int, d int {res.Cells[c], res.Cells[d]} :: 0 <= c && c < d && d < len(res.Cells) && base(res.Cells[c].MoreSeries) != 0 ==> base(res.Cells[c].MoreSeries) != base(res.Cells[d].MoreSeries))
  define points = (forall i int, p int {s.Series[i].Points[p]} :: 0 <= i && i < len(s.Series) && 0 <= p && p < len(s.Series[i].Points) ==> markspoint(res, s, subCellMapper, i, p))
  loop 1
    invariant forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].Series != NoSeries ==> res.Cells[c].IsPoint
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant forall i int, p int {s.Series[i].Points[p]} :: 0 <= i && i < $i && 0 <= p && p < len(s.Series[i].Points) ==> markspoint(res, s, subCellMapper, i, p)
  loop 2
    invariant forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && res.Cells[c].Series != NoSeries ==> res.Cells[c].IsPoint
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant forall c int {res.Cells[c]} :: 0 <= c && c < len(res.Cells) && pre(res.Cells[c].IsPoint) ==> res.Cells[c].IsPoint
    invariant forall p int {series.Points[p]} :: 0 <= p && p < $i ==> res.Cells[cellof(subCellMapper, s.ScreenSize, series.Points[p])].IsPoint
  loop 3
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant points
  loop 4
    invariant isid(s, series.Id)
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant points
    invariant 1 <= i && i <= len(series.Points) && lastPt == series.Points[i - 1]
    use slope_sign(series.Points[i].Row - lastPt.Row, series.Points[i].Col - lastPt.Col)
    use slope_sign(series.Points[i].Col - lastPt.Col, series.Points[i].Row - lastPt.Row)
    use steep(series.Points[i].Col - lastPt.Col, series.Points[i].Row - lastPt.Row)
    use unfold(slope(series.Points[i].Row - lastPt.Row, series.Points[i].Col - lastPt.Col))
    use unfold(slope(series.Points[i].Col - lastPt.Col, series.Points[i].Row - lastPt.Row))
    use line_start(slope(series.Points[i].Row - lastPt.Row, series.Points[i].Col - lastPt.Col), series.Points[i].Row - lastPt.Row, series.Points[i].Col - lastPt.Col)
    use line_start(slope(series.Points[i].Col - lastPt.Col, series.Points[i].Row - lastPt.Row), series.Points[i].Col - lastPt.Col, series.Points[i].Row - lastPt.Row)
    decreases len(series.Points) - i
  loop 5
    invariant isid(s, series.Id)
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant points
    invariant pt.Col - lastPt.Col >= 0 ==> (riseInc == 1 || riseInc == 0 - 1) && (riseInc == 1) == (pt.Row - lastPt.Row >= 1)
    invariant line(slopeErr, slope, col - lastPt.Col, riseInc == 1 ? row - lastPt.Row : lastPt.Row - row, pt.Row - lastPt.Row, pt.Col - lastPt.Col)
    use line_step(slopeErr, slope, pt.Row - lastPt.Row, pt.Col - lastPt.Col, col - lastPt.Col, riseInc == 1 ? row - lastPt.Row : lastPt.Row - row)
    decreases pt.Col - col + 1
  loop 6
    invariant isid(s, series.Id)
    invariant good
    invariant named
    invariant atpoint
    invariant others
    invariant own
    invariant apart
    invariant points
    invariant pt.Row - lastPt.Row >= 1 ==> (runInc == 1 || runInc == 0 - 1) && (runInc == 1) == (pt.Col - lastPt.Col >= 1)
    invariant line(slopeErr, slope, row - lastPt.Row, runInc == 1 ? col - lastPt.Col : lastPt.Col - col, pt.Col - lastPt.Col, pt.Row - lastPt.Row)
    use line_step(slopeErr, slope, pt.Col - lastPt.Col, pt.Row - lastPt.Row, row - lastPt.Row, runInc == 1 ? col - lastPt.Col : lastPt.Col - col)
    decreases pt.Row - row + 1
