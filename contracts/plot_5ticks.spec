package sigs.k8s.io/instrumentation-tools/promq/term/plot

// ---- C21 ----
// a float64 is its own rounding
pred isf64(x float64) bool := fisfin(x) ==> rnd(fr(x)) == x
function rounded(x real) bool
axiom rnd_twice(x real)
  trigger rounded(x)
  ensures isf64(rnd(x))
lemma spread_nonneg(a float64, b float64)
  requires fisfin(a) && fisfin(b) && a <= b && fisfin(fsub(b, a))
  use rnd(fr(b) + (0.0 - fr(a)))
  use rounded(fr(b) + (0.0 - fr(a)))
  ensures fr(fsub(b, a)) >= 0.0 && isf64(fsub(b, a))
lemma real_down(x real, n real)
  requires x >= 0.0 && n >= 1.0
  ensures 0.0 <= x / n && x / n <= x
lemma div_down(x float64, n float64)
  requires fisfin(x) && fr(x) >= 0.0 && fisfin(n) && fr(n) >= 1.0 && isf64(x)
  use real_down(fr(x), fr(n))
  use rnd(fr(x) / fr(n))
  use fle(rnd(fr(x) / fr(n)), rnd(fr(x)))
  ensures fisfin(fdiv(x, n)) && fr(fdiv(x, n)) >= 0.0
// the distance of value ticks
lemma tick_step(a float64, b float64, n float64)
  requires fisfin(a) && fisfin(b) && a <= b && fisfin(fsub(b, a)) && fisfin(n) && fr(n) >= 1.0
  opaque floats *
  use spread_nonneg(a, b)
  use div_down(fsub(b, a), n)
  ensures fisfin(fdiv(fsub(b, a), n)) && fr(fdiv(fsub(b, a), n)) >= 0.0
lemma real_prod(x real, n real)
  requires x >= 0.0 && n >= 0.0
  ensures x * n >= 0.0
// the value of a tick
lemma tick_at(a float64, inc float64, i int)
  requires fisfin(a) && isf64(a) && fisfin(inc) && fr(inc) >= 0.0 && 0 <= i && i <= 1073741824
  use rnd(to_real(i))
  use real_prod(fr(inc), to_real(i))
  use rnd(fr(inc) * to_real(i))
  use rnd(fr(a) + fr(fmul(inc, i2f(i))))
  use fle(rnd(fr(a)), rnd(fr(a) + fr(fmul(inc, i2f(i)))))
  ensures !isnan(fadd(a, fmul(inc, i2f(i)))) && a <= fadd(a, fmul(inc, i2f(i)))
lemma first_tick(a float64, inc float64)
  requires fisfin(a) && isf64(a) && fisfin(inc)
  use rnd(0.0)
  ensures fadd(a, fmul(inc, i2f(0))) == a
lemma abs_finite(x float64)
  ensures fisfin(x) ==> fisfin(fabs(x)) && fr(fabs(x)) >= 0.0
lemma one()
  ensures fisfin(ffin(1.0)) && fr(ffin(1.0)) == 1.0
lemma some_base(n int)
  requires 0 <= n && n <= 1073741824
  use rnd(to_real(n))
  ensures fisfin(i2f(n)) && fr(i2f(n)) == to_real(n) && f2i(i2f(n)) == n && (i2f(n) == ffin(0.0)) == (n == 0)

func (l Labeling) labels(domTicks, rngTicks, lineSize) (r)
  props C21
  purecb DomainLabeler RangeLabeler
  requires l.DomainLabeler != nil && l.RangeLabeler != nil && 0 <= lineSize
  ensures len(r.domLbls) == len(domTicks) && len(r.rngLbls) == len(rngTicks) && fresh(r.domLbls) && fresh(r.rngLbls)
  ensures forall i int {r.domLbls[i]} :: 0 <= i && i < len(domTicks) ==> r.domLbls[i] == apply(l.DomainLabeler, domTicks[i]) && len(r.domLbls[i]) + lineSize <= r.marginRows
  ensures forall i int {r.rngLbls[i]} :: 0 <= i && i < len(rngTicks) ==> r.rngLbls[i] == apply(l.RangeLabeler, rngTicks[i]) && len(r.rngLbls[i]) + lineSize <= r.marginCols
  ensures lineSize <= r.marginRows && lineSize <= r.marginCols
  loop 1
    invariant len(res.domLbls) == len(domTicks) && len(res.rngLbls) == len(rngTicks) && fresh(res.domLbls) && fresh(res.rngLbls) && base(res.domLbls) != base(res.rngLbls)
    invariant res.marginRows >= 0 && res.marginCols >= 0
    invariant forall i int {res.domLbls[i]} :: 0 <= i && i < $i ==> res.domLbls[i] == apply(l.DomainLabeler, domTicks[i]) && len(res.domLbls[i]) <= res.marginRows
  loop 2
    invariant len(res.domLbls) == len(domTicks) && len(res.rngLbls) == len(rngTicks) && fresh(res.domLbls) && fresh(res.rngLbls) && base(res.domLbls) != base(res.rngLbls)
    invariant res.marginRows >= 0 && res.marginCols >= 0
    invariant forall i int {res.domLbls[i]} :: 0 <= i && i < len(domTicks) ==> res.domLbls[i] == apply(l.DomainLabeler, domTicks[i]) && len(res.domLbls[i]) <= res.marginRows
    invariant forall i int {res.rngLbls[i]} :: 0 <= i && i < $i ==> res.rngLbls[i] == apply(l.RangeLabeler, rngTicks[i]) && len(res.rngLbls[i]) <= res.marginCols
lemma div_up(d int, b int)
  requires 1 <= b && 0 <= d
  ensures 0 <= d / b && (d / b) * b <= d
lemma mul_up(x int, k int, b int)
  requires 0 <= x && 0 <= k && k <= b
  ensures 0 <= x * k && x * k <= x * b
lemma mul_lt(x int, j int, k int)
  requires 1 <= x && 0 <= j && j < k
  ensures x * j < x * k
lemma mul_zero(x int)
  ensures x * 0 == 0
lemma tick_times(inc int, k int, b int, d int)
  requires 1 <= b && 0 <= k && k <= b && 0 <= d && inc == d / b
  use div_up(d, b)
  use mul_up(inc, k, b)
  ensures 0 <= inc * k && inc * k <= d

func EvenlySpacedTicks(graph, outerSize, scale, labels) (r)
  props C21
  purecb RangeScale
  opaque floats *
  requires graph != nil && saneaxes(graph.PlatonicAxes) && isf64(graph.RangeMin) && isf64(graph.RangeMax) && fisfin(fsub(graph.RangeMax, graph.RangeMin))
  requires forall i int {graph.Series[i]} :: 0 <= i && i < len(graph.Series) ==> wfseries(graph.Series[i])
  requires 0 <= outerSize.Rows && outerSize.Rows <= 1073741824 && 0 <= outerSize.Cols && outerSize.Cols <= 1073741824
  requires scale.RangeDensity >= 1 && scale.DomainDensity >= 1 && scale.RangeScale != nil
  requires labels.DomainLabeler != nil && labels.RangeLabeler != nil && 0 <= labels.LineSize
  requires scales(scale.RangeScale, graph.PlatonicAxes)
  requires forall s int {sane(scale.RangeScale, graph.PlatonicAxes, s)} :: s <= outerSize.Rows ==> sane(scale.RangeScale, graph.PlatonicAxes, s)
  define fits = (r.InnerGraphSize.Rows >= 1 && r.InnerGraphSize.Cols >= 1)
  define q = (outerSize.Cols / scale.RangeDensity)
  use some_base(q)
  use some_base(1)
  use one()
  use tick_step(graph.RangeMin, graph.RangeMax, i2f(q))
  use tick_step(graph.RangeMin, graph.RangeMax, ffin(1.0))
  use abs_finite(graph.RangeMax)
  ensures r != nil && fresh(r) && r.LineSize == labels.LineSize
  // the inner area and the margins make up the outer area
  ensures 0 <= r.InnerGraphSize.Rows && r.InnerGraphSize.Rows <= outerSize.Rows && 0 <= r.InnerGraphSize.Cols && r.InnerGraphSize.Cols <= outerSize.Cols
  ensures r.LineSize <= r.MarginRows && r.LineSize <= r.MarginCols
  ensures r.MarginRows <= outerSize.Rows && r.MarginCols <= outerSize.Cols ? r.InnerGraphSize.Rows + r.MarginRows == outerSize.Rows && r.InnerGraphSize.Cols + r.MarginCols == outerSize.Cols : r.InnerGraphSize.Rows == 0 && r.InnerGraphSize.Cols == 0
  // ticks on the axes
  ensures forall i int {r.DomainTicks[i]} :: 0 <= i && i < len(r.DomainTicks) ==> graph.DomainMin <= r.DomainTicks[i].Value && r.DomainTicks[i].Value <= graph.DomainMax
  ensures forall i int {r.RangeTicks[i]} :: 0 <= i && i < len(r.RangeTicks) ==> graph.RangeMin <= r.RangeTicks[i].Value && r.RangeTicks[i].Value <= graph.RangeMax
  ensures len(r.DomainTicks) >= 1 && r.DomainTicks[0].Value == graph.DomainMin && len(r.RangeTicks) >= 1 && r.RangeTicks[0].Value == graph.RangeMin
  // positions in the inner area
  ensures fits ==> (forall i int {r.DomainTicks[i]} :: 0 <= i && i < len(r.DomainTicks) ==> 0 <= r.DomainTicks[i].Col && r.DomainTicks[i].Col < r.InnerGraphSize.Cols)
  ensures fits ==> (forall i int {r.RangeTicks[i]} :: 0 <= i && i < len(r.RangeTicks) ==> 0 <= r.RangeTicks[i].Row && r.RangeTicks[i].Row < r.InnerGraphSize.Rows)
  // in order
  ensures forall i int, j int {r.DomainTicks[i], r.DomainTicks[j]} :: 0 <= i && i < j && j < len(r.DomainTicks) ==> r.DomainTicks[i].Value < r.DomainTicks[j].Value
  ensures fits ==> (forall i int, j int {r.DomainTicks[i], r.DomainTicks[j]} :: 0 <= i && i < j && j < len(r.DomainTicks) ==> r.DomainTicks[i].Col < r.DomainTicks[j].Col)
  ensures forall i int, j int {r.RangeTicks[i], r.RangeTicks[j]} :: 0 <= i && i < j && j < len(r.RangeTicks) ==> r.RangeTicks[i].Value < r.RangeTicks[j].Value
  ensures fits ==> (forall i int, j int {r.RangeTicks[i], r.RangeTicks[j]} :: 0 <= i && i < j && j < len(r.RangeTicks) ==> r.RangeTicks[i].Row >= r.RangeTicks[j].Row)
  // with the labels of their values, which fit in the margins
  ensures forall i int {r.DomainTicks[i]} :: 0 <= i && i < len(r.DomainTicks) ==> r.DomainTicks[i].Label == apply(labels.DomainLabeler, r.DomainTicks[i].Value) && labelfits(r.DomainTicks[i].Label, r.LineSize, r.MarginRows)
  ensures forall i int {r.RangeTicks[i]} :: 0 <= i && i < len(r.RangeTicks) ==> r.RangeTicks[i].Label == apply(labels.RangeLabeler, r.RangeTicks[i].Value) && labelfits(r.RangeTicks[i].Label, r.LineSize, r.MarginCols)
  loop 1
    invariant numTicks == -9223372036854775808 || numTicks >= 0
  loop 2
    use mul_zero(platDomInc)
    use tick_times(platDomInc, $i, domTicksBase, graph.DomainMax - graph.DomainMin)
    use forall j int {platDomTicks[j]} :: mul_lt(platDomInc, j, $i)
    invariant len(platDomTicks) >= 1 && fresh(platDomTicks) && len(platDomTicks) <= domTicksBase && 1 <= domTicksBase && platDomInc == (graph.DomainMax - graph.DomainMin) / domTicksBase && (platDomInc == 0 ==> len(platDomTicks) == 1) && platDomInc >= 0
    invariant forall j int {platDomTicks[j]} :: 0 <= j && j < $i ==> platDomTicks[j] == graph.DomainMin + platDomInc * j && graph.DomainMin <= platDomTicks[j] && platDomTicks[j] <= graph.DomainMax
    invariant forall j int, k int {platDomTicks[j], platDomTicks[k]} :: 0 <= j && j < k && k < $i ==> platDomTicks[j] < platDomTicks[k]
    invariant $i > 0 ==> platDomTicks[0] == graph.DomainMin
  loop 3
    use tick_at(graph.RangeMin, platRngInc, i)
    use first_tick(graph.RangeMin, platRngInc)
    invariant 0 <= i && i <= 1073741825 && freshornil(platRngTicks) && allocated(platRngTicks) && fisfin(platRngInc) && fr(platRngInc) >= 0.0 && 1 <= f2i(rngTicksBase) && f2i(rngTicksBase) <= 1073741824
    invariant i == 0 ==> len(platRngTicks) == 0
    invariant i > 0 ==> len(platRngTicks) >= 1 && platRngTicks[0] == graph.RangeMin
    invariant forall k int {platRngTicks[k]} :: 0 <= k && k < len(platRngTicks) ==> graph.RangeMin <= platRngTicks[k] && platRngTicks[k] <= graph.RangeMax
    invariant forall j int, k int {platRngTicks[j], platRngTicks[k]} :: 0 <= j && j < k && k < len(platRngTicks) ==> platRngTicks[j] < platRngTicks[k]
    decreases 1073741826 - i
  loop 4
    invariant len(platDomTicks) >= 1 && platDomTicks[0] == graph.DomainMin
    invariant forall j int {platDomTicks[j]} :: 0 <= j && j < len(platDomTicks) ==> graph.DomainMin <= platDomTicks[j] && platDomTicks[j] <= graph.DomainMax
    invariant forall j int, k int {platDomTicks[j], platDomTicks[k]} :: 0 <= j && j < k && k < len(platDomTicks) ==> platDomTicks[j] < platDomTicks[k]
    invariant allocated(ticks.DomainTicks) && freshornil(ticks.DomainTicks) && base(ticks.DomainTicks) != base(platDomTicks)
    invariant lastTick == nil ? len(ticks.DomainTicks) == 0 && $i == 0 : $i > 0 && len(ticks.DomainTicks) > 0 && base(lastTick) == base(ticks.DomainTicks) && pi(lastTick) == len(ticks.DomainTicks) - 1
    invariant $i > 0 ==> lastTick != nil && lastTick.Col == apply(domain, platDomTicks[$i - 1])
    invariant $i > 0 ==> lastTick.Value <= platDomTicks[$i - 1]
    invariant $i > 0 ==> ticks.DomainTicks[0].Value == graph.DomainMin
    invariant forall k int {ticks.DomainTicks[k]} :: 0 <= k && k < len(ticks.DomainTicks) ==> graph.DomainMin <= ticks.DomainTicks[k].Value && ticks.DomainTicks[k].Value <= graph.DomainMax && ticks.DomainTicks[k].Col == apply(domain, ticks.DomainTicks[k].Value) && ticks.DomainTicks[k].Label == apply(labels.DomainLabeler, ticks.DomainTicks[k].Value) && labelfits(ticks.DomainTicks[k].Label, labels.LineSize, labelInfo.marginRows)
    invariant forall j int, k int {ticks.DomainTicks[j], ticks.DomainTicks[k]} :: 0 <= j && j < k && k < len(ticks.DomainTicks) ==> ticks.DomainTicks[j].Value < ticks.DomainTicks[k].Value && (innerSize.Cols >= 1 ==> ticks.DomainTicks[j].Col < ticks.DomainTicks[k].Col)
  loop 5
    invariant len(platRngTicks) >= 1 && platRngTicks[0] == graph.RangeMin
    invariant forall j int {platRngTicks[j]} :: 0 <= j && j < len(platRngTicks) ==> graph.RangeMin <= platRngTicks[j] && platRngTicks[j] <= graph.RangeMax
    invariant forall j int, k int {platRngTicks[j], platRngTicks[k]} :: 0 <= j && j < k && k < len(platRngTicks) ==> platRngTicks[j] < platRngTicks[k]
    invariant allocated(ticks.RangeTicks) && freshornil(ticks.RangeTicks)
    invariant lastTick == nil ? len(ticks.RangeTicks) == 0 && $i == 0 : $i > 0 && len(ticks.RangeTicks) > 0 && base(lastTick) == base(ticks.RangeTicks) && pi(lastTick) == len(ticks.RangeTicks) - 1
    invariant $i > 0 ==> lastTick != nil && lastTick.Value <= platRngTicks[$i - 1]
    invariant $i > 0 ==> ticks.RangeTicks[0].Value == graph.RangeMin
    invariant forall k int {ticks.RangeTicks[k]} :: 0 <= k && k < len(ticks.RangeTicks) ==> graph.RangeMin <= ticks.RangeTicks[k].Value && ticks.RangeTicks[k].Value <= graph.RangeMax && ticks.RangeTicks[k].Row == innerSize.Rows - apply(rng, ticks.RangeTicks[k].Value) - 1 && ticks.RangeTicks[k].Label == apply(labels.RangeLabeler, ticks.RangeTicks[k].Value) && labelfits(ticks.RangeTicks[k].Label, labels.LineSize, labelInfo.marginCols)
    invariant forall j int, k int {ticks.RangeTicks[j], ticks.RangeTicks[k]} :: 0 <= j && j < k && k < len(ticks.RangeTicks) ==> ticks.RangeTicks[j].Value < ticks.RangeTicks[k].Value
