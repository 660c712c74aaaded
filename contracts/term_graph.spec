package sigs.k8s.io/instrumentation-tools/promq/term
import plot sigs.k8s.io/instrumentation-tools/promq/term/plot

// ---- C22: the graph widget ----
// values spread out enough to be told apart by float64 arithmetic
recpred grain(a plot.PlatonicAxes, s int) bool := fisfin(fsub(a.RangeMax, a.RangeMin)) && (fr(fsub(a.RangeMax, a.RangeMin)) > 0.0 && s > 0 ==> fisfin(rnd(to_real(s) / fr(fsub(a.RangeMax, a.RangeMin)))) && minnorm() <= to_real(s) / fr(fsub(a.RangeMax, a.RangeMin)))
lemma linear_sane(f plot.RangeScale, a plot.PlatonicAxes, s int)
  auto
  trigger sane(f, a, s)
  opaque floats *
  requires forall x float64 {apply(f, x)} :: apply(f, x) == x
  requires grain(a, s)
  use unfold(grain(a, s))
  use unfold(sane(f, a, s))
  ensures sane(f, a, s)
pred wfgraph(g *plot.PlatonicGraph) bool := saneaxes(g.PlatonicAxes) && isf64(g.RangeMin) && isf64(g.RangeMax) && fisfin(fsub(g.RangeMax, g.RangeMin))
  && (forall s int {grain(g.PlatonicAxes, s)} :: s <= 1048576 ==> grain(g.PlatonicAxes, s))
pred graphdata(g *plot.PlatonicGraph) bool := (forall i int {g.Series[i]} :: 0 <= i && i < len(g.Series) ==> wfseries(g.Series[i]) && idof(g.Series[i]) != plot.NoSeries)
  && (forall i int, j int {ptat(g.Series[i], j)} :: 0 <= i && i < len(g.Series) && 0 <= j && j < npts(g.Series[i]) ==> inaxes(g.PlatonicAxes, ptat(g.Series[i], j)))

func (g *GraphView) FlushTo(screen)
  props C22
  opaque floats *
  requires g != nil && screen != nil && (g.Graph != nil ==> wfgraph(g.Graph) && graphdata(g.Graph))
  requires 0 <= g.pos.Rows && g.pos.Rows <= 262144 && 0 <= g.pos.Cols && g.pos.Cols <= 262144
  requires g.DomainLabeler != nil && g.RangeLabeler != nil && 0 <= g.DomainTickSpacing && 0 <= g.RangeTickSpacing
  modifies trace SetContent
  modifies trace output
  ensures g.Graph == nil || g.pos.Rows == 0 || g.pos.Cols == 0 ==> ncalls(SetContent) == old(ncalls(SetContent))
  oncall SetContent inbox(g.pos, a1, a2)
