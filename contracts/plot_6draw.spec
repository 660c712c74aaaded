package sigs.k8s.io/instrumentation-tools/promq/term/plot

// ---- C22 ----
// what the ticks of a graph satisfy: they lie on the axes, and their labels in the margins
pred labelfits(l string, line int, margin int) bool := len(l) + line <= margin
pred wfticks(t *ScreenTicks) bool := t.LineSize >= 1 && t.LineSize <= t.MarginRows && t.LineSize <= t.MarginCols && 0 <= t.InnerGraphSize.Rows && 0 <= t.InnerGraphSize.Cols
pred domfits(t *ScreenTicks) bool := forall i int {t.DomainTicks[i]} :: 0 <= i && i < len(t.DomainTicks) ==> 0 <= t.DomainTicks[i].Col && t.DomainTicks[i].Col < t.InnerGraphSize.Cols && labelfits(t.DomainTicks[i].Label, t.LineSize, t.MarginRows)
pred rngfits(t *ScreenTicks) bool := forall i int {t.RangeTicks[i]} :: 0 <= i && i < len(t.RangeTicks) ==> 0 <= t.RangeTicks[i].Row && t.RangeTicks[i].Row < t.InnerGraphSize.Rows && labelfits(t.RangeTicks[i].Label, t.LineSize, t.MarginCols)
pred inouter(t *ScreenTicks, row int, col int) bool := 0 <= row && row < t.InnerGraphSize.Rows + t.MarginRows && 0 <= col && col < t.InnerGraphSize.Cols + t.MarginCols

func DrawAxes(ticks, output)
  props C22
  purecb
  requires ticks != nil && output != nil
  requires wfticks(ticks)
  requires domfits(ticks)
  requires rngfits(ticks)
  requires ticks.InnerGraphSize.Rows > 0 && ticks.InnerGraphSize.Cols > 0
  modifies trace output
  define o0 = old(ncalls(output))
  define R = ticks.InnerGraphSize.Rows
  define C = ticks.InnerGraphSize.Cols
  // nothing outside the outer area
  ensures forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> inouter(ticks, callarg(output, 0, i), callarg(output, 1, i))
  // the lines cover the inner height and width and meet in one corner
  ensures ncalls(output) > o0 + R + C
  ensures forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
  ensures forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < o0 + R + C ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
  ensures let l := ncalls(output) - 1 :: callarg(output, 0, l) == R && callarg(output, 1, l) == ticks.MarginCols - 1 && callarg(output, 3, l) == AxisCornerKind
  ensures forall i mathint {callarg(output, 3, i)} :: o0 + R + C <= i && i < ncalls(output) - 1 ==> callarg(output, 3, i) == DomainTickKind || callarg(output, 3, i) == RangeTickKind || callarg(output, 3, i) == LabelKind
  loop 1
    invariant 0 <= row && row <= R && ncalls(output) == o0 + row
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
  loop 2
    invariant 0 <= graphCol && graphCol <= C && ncalls(output) == o0 + R + graphCol
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
    invariant forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < ncalls(output) ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
  loop 3
    invariant ncalls(output) >= pre(ncalls(output)) && pre(ncalls(output)) == o0 + R + C
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> inouter(ticks, callarg(output, 0, i), callarg(output, 1, i))
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
    invariant forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < o0 + R + C ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
    invariant forall i mathint {callarg(output, 3, i)} :: o0 + R + C <= i && i < ncalls(output) ==> callarg(output, 3, i) == RangeTickKind || callarg(output, 3, i) == LabelKind
  loop 4
    invariant ncalls(output) >= pre(ncalls(output)) && pre(ncalls(output)) > o0 + R + C
    invariant ticks.MarginCols - 1 - len(tick.Label) <= lblPos && lblPos <= ticks.MarginCols - 1 - len(tick.Label) + $pos
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> inouter(ticks, callarg(output, 0, i), callarg(output, 1, i))
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
    invariant forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < o0 + R + C ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
    invariant forall i mathint {callarg(output, 3, i)} :: o0 + R + C <= i && i < ncalls(output) ==> callarg(output, 3, i) == RangeTickKind || callarg(output, 3, i) == LabelKind
  loop 5
    invariant ncalls(output) >= pre(ncalls(output)) && pre(ncalls(output)) >= o0 + R + C
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> inouter(ticks, callarg(output, 0, i), callarg(output, 1, i))
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
    invariant forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < o0 + R + C ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
    invariant forall i mathint {callarg(output, 3, i)} :: o0 + R + C <= i && i < ncalls(output) ==> callarg(output, 3, i) == DomainTickKind || callarg(output, 3, i) == RangeTickKind || callarg(output, 3, i) == LabelKind
  loop 6
    invariant ncalls(output) >= pre(ncalls(output)) && pre(ncalls(output)) > o0 + R + C
    invariant R + ticks.LineSize <= lblPos && lblPos <= R + ticks.LineSize + $pos
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> inouter(ticks, callarg(output, 0, i), callarg(output, 1, i))
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < o0 + R ==> callarg(output, 0, i) == i - o0 && callarg(output, 1, i) == ticks.MarginCols - 1 && callarg(output, 3, i) == YAxisKind
    invariant forall i mathint {callarg(output, 0, i)} :: o0 + R <= i && i < o0 + R + C ==> callarg(output, 0, i) == R && callarg(output, 1, i) == ticks.MarginCols + i - o0 - R && callarg(output, 3, i) == XAxisKind
    invariant forall i mathint {callarg(output, 3, i)} :: o0 + R + C <= i && i < ncalls(output) ==> callarg(output, 3, i) == DomainTickKind || callarg(output, 3, i) == RangeTickKind || callarg(output, 3, i) == LabelKind
