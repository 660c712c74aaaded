package sigs.k8s.io/instrumentation-tools/promq/term/plot
import math math

// ---- C17 ----
extern func math.Round(x) (r)
  trusted "standard library: the nearest integer, halves away from zero"
  ensures r == fround(x)

// the smallest normal number, and the relative error of rounding normal numbers
function minnorm() real
function relerr(x real) bool
axiom minnorm_pos()
  ensures 0.0 < minnorm() && minnorm() < 0.000000000000000000000000000001
axiom rnd_rel(x real)
  trigger relerr(x)
  requires minnorm() <= x
  ensures fisfin(rnd(x)) ==> x - x / 9007199254740992.0 <= fr(rnd(x)) && fr(rnd(x)) <= x + x / 9007199254740992.0

pred saneaxes(a PlatonicAxes) bool := a.DomainMin <= a.DomainMax && a.DomainMax - a.DomainMin <= 9223372036854775807 && fisfin(a.RangeMin) && fisfin(a.RangeMax) && a.RangeMin <= a.RangeMax
// an increasing scale, finite on the axes
pred scales(f RangeScale, a PlatonicAxes) bool := fisfin(apply(f, a.RangeMin)) && fisfin(apply(f, a.RangeMax))
  && (forall y float64, z float64 {apply(f, y), apply(f, z)} :: a.RangeMin <= y && y <= z && z <= a.RangeMax ==> apply(f, y) <= apply(f, z))
// the scaled spread neither overflows nor is vanishingly small
pred spread(f RangeScale, a PlatonicAxes) float64 := apply(f, a.RangeMax) - apply(f, a.RangeMin)
pred sanespread(f RangeScale, a PlatonicAxes, s int) bool := fisfin(spread(f, a)) && (fr(spread(f, a)) > 0.0 && s > 0 ==> fisfin(rnd(to_real(s) / fr(spread(f, a)))) && minnorm() <= to_real(s) / fr(spread(f, a)))

recpred sane(f RangeScale, a PlatonicAxes, s int) bool := sanespread(f, a, s)

// scaling a distance d <= m by s/m, in floating point
lemma scaled_real(s real, m real, f real)
  requires 0.0 <= s && s <= 1073741824.0 && m > 0.0 && 0.0 <= f && f <= s / m + (s / m) / 9007199254740992.0
  ensures 0.0 <= m * f && m * f <= s + s / 9007199254740992.0
lemma mul_le(a real, b real, c real)
  requires 0.0 <= a && a <= b && 0.0 <= c
  ensures 0.0 <= a * c && a * c <= b * c
lemma factor_bounds(s int, m float64)
  requires 0 <= s && s <= 1073741824 && fisfin(m) && fr(m) > 0.0
  requires s > 0 ==> fisfin(rnd(to_real(s) / fr(m))) && minnorm() <= to_real(s) / fr(m)
  use relerr(to_real(s) / fr(m))
  use rnd(to_real(s))
  use rnd(to_real(s) / fr(m))
  ensures fisfin(fdiv(i2f(s), m)) && 0.0 <= fr(fdiv(i2f(s), m)) && fr(fdiv(i2f(s), m)) <= to_real(s) / fr(m) + (to_real(s) / fr(m)) / 9007199254740992.0
lemma full_bounds(s int, m float64, f float64)
  requires 0 <= s && s <= 1073741824 && fisfin(m) && fr(m) > 0.0 && fisfin(f) && 0.0 <= fr(f) && fr(f) <= to_real(s) / fr(m) + (to_real(s) / fr(m)) / 9007199254740992.0
  use scaled_real(to_real(s), fr(m), fr(f))
  use rnd(fr(m) * fr(f))
  ensures fisfin(fmul(m, f)) && fr(fmul(m, f)) < to_real(s) + 0.5
lemma mul_mono(a float64, b float64, f float64)
  requires fisfin(a) && fisfin(b) && fisfin(f) && 0.0 <= fr(a) && fr(a) <= fr(b) && 0.0 <= fr(f) && fisfin(fmul(b, f))
  use mul_le(fr(a), fr(b), fr(f))
  use fle(rnd(fr(a) * fr(f)), rnd(fr(b) * fr(f)))
  ensures fisfin(fmul(a, f)) && 0.0 <= fr(fmul(a, f)) && fr(fmul(a, f)) <= fr(fmul(b, f))
lemma round_mono(a float64, b float64, s int)
  requires fisfin(a) && fisfin(b) && 0.0 <= fr(a) && fr(a) <= fr(b) && fr(b) < to_real(s) + 0.5 && 0 <= s && s <= 1073741824
  ensures 0 <= f2i(fround(a)) && f2i(fround(a)) <= f2i(fround(b)) && f2i(fround(b)) <= s
// distances 0 <= a <= b <= m become 0 <= pixel of a <= pixel of b <= s
lemma pixels(a float64, b float64, m float64, s int)
  opaque floats *
  requires 0 <= s && s <= 1073741824 && fisfin(m) && fr(m) > 0.0
  requires s > 0 ==> fisfin(rnd(to_real(s) / fr(m))) && minnorm() <= to_real(s) / fr(m)
  requires fisfin(a) && fisfin(b) && 0.0 <= fr(a) && fr(a) <= fr(b) && fr(b) <= fr(m)
  use factor_bounds(s, m)
  use full_bounds(s, m, fdiv(i2f(s), m))
  use mul_mono(b, m, fdiv(i2f(s), m))
  use mul_mono(a, b, fdiv(i2f(s), m))
  use round_mono(fmul(a, fdiv(i2f(s), m)), fmul(b, fdiv(i2f(s), m)), s)
  ensures 0 <= f2i(fround(fmul(a, fdiv(i2f(s), m)))) && f2i(fround(fmul(a, fdiv(i2f(s), m)))) <= f2i(fround(fmul(b, fdiv(i2f(s), m)))) && f2i(fround(fmul(b, fdiv(i2f(s), m)))) <= s
lemma i2f_mono(a int, b int)
  requires 0 <= a && a <= b && b <= 9223372036854775807
  use rnd(to_real(a))
  use rnd(to_real(b))
  use rnd(1.0)
  use rnd(0.0)
  use fle(rnd(to_real(a)), rnd(to_real(b)))
  use fle(rnd(1.0), rnd(to_real(b)))
  ensures fisfin(i2f(a)) && fisfin(i2f(b)) && 0.0 <= fr(i2f(a)) && fr(i2f(a)) <= fr(i2f(b)) && fr(i2f(b)) <= 18446744073709551616.0
  ensures a >= 1 ==> fr(i2f(a)) >= 1.0
lemma quot_le(s real, m real)
  requires 1.0 <= s && s <= 1073741824.0 && 1.0 <= m && m <= 18446744073709551616.0
  ensures 0.00000000000000000001 <= s / m && s / m <= 1073741824.0
lemma quot_fin(s int, m real)
  requires 0 <= s && s <= 1073741824 && 1.0 <= m && m <= 18446744073709551616.0
  use quot_le(to_real(s), m)
  use rnd(to_real(s) / m)
  ensures s > 0 ==> fisfin(rnd(to_real(s) / m)) && minnorm() <= to_real(s) / m
lemma times(x int, y int, diff int, s int)
  requires 0 <= s && s <= 1073741824 && 1 <= diff && diff <= 9223372036854775807 && 0 <= x && x <= y && y <= diff
  opaque floats *
  use i2f_mono(x, y)
  use i2f_mono(y, diff)
  use i2f_mono(diff, diff)
  use quot_fin(s, fr(i2f(diff)))
  use pixels(i2f(x), i2f(y), i2f(diff), s)
  ensures 0 <= f2i(fround(fmul(i2f(x), fdiv(i2f(s), i2f(diff))))) && f2i(fround(fmul(i2f(x), fdiv(i2f(s), i2f(diff))))) <= f2i(fround(fmul(i2f(y), fdiv(i2f(s), i2f(diff))))) && f2i(fround(fmul(i2f(y), fdiv(i2f(s), i2f(diff))))) <= s
// differences of increasing values
lemma sub_mono(a float64, b float64, c float64, d float64)
  requires fisfin(a) && fisfin(b) && fisfin(c) && fisfin(d) && a <= b && b <= c && c <= d && fisfin(fsub(d, a))
  use rnd(fr(b) - fr(a))
  use fle(rnd(fr(b) - fr(a)), rnd(fr(c) - fr(a)))
  use fle(rnd(fr(c) - fr(a)), rnd(fr(d) - fr(a)))
  use rnd(fr(b) + (0.0 - fr(a)))
  use rnd(fr(c) + (0.0 - fr(a)))
  use rnd(fr(d) + (0.0 - fr(a)))
  ensures fisfin(fsub(b, a)) && fisfin(fsub(c, a)) && 0.0 <= fr(fsub(b, a)) && fr(fsub(b, a)) <= fr(fsub(c, a)) && fr(fsub(c, a)) <= fr(fsub(d, a))
lemma unit(s int)
  requires 0 <= s && s <= 1073741824
  use rnd(to_real(s) / 1.0)
  ensures s > 0 ==> fisfin(rnd(to_real(s) / 1.0)) && minnorm() <= to_real(s) / 1.0

func (g PlatonicGraph) ScalePlatonicToScreen(scale, size) (domain, rng)
  props C17
  purecb scale
  opaque floats *
  requires scale != nil && saneaxes(g.PlatonicAxes)
  requires scales(scale, g.PlatonicAxes)
  requires 0 <= size.Rows && size.Rows <= 1073741824 && 0 <= size.Cols && size.Cols <= 1073741824
  requires sane(scale, g.PlatonicAxes, size.Rows - 1)
  use unfold(sane(scale, g.PlatonicAxes, size.Rows - 1))
  ensures domain != nil && rng != nil
  define dd = (g.DomainMax == g.DomainMin ? 1 : g.DomainMax - g.DomainMin)
  define rd = (fr(spread(scale, g.PlatonicAxes)) == 0.0 ? ffin(1.0) : spread(scale, g.PlatonicAxes))
  closure domain(x) c :: size.Cols >= 1 && g.DomainMin <= x && x <= g.DomainMax ==> 0 <= c && c < size.Cols
  use times(x - g.DomainMin, x - g.DomainMin, dd, size.Cols - 1)
  closure domain(x) c, domain(y) d :: size.Cols >= 1 && g.DomainMin <= x && x <= y && y <= g.DomainMax ==> c <= d
  use times(x - g.DomainMin, y - g.DomainMin, dd, size.Cols - 1)
  closure rng(x) c :: size.Rows >= 1 && g.RangeMin <= x && x <= g.RangeMax ==> 0 <= c && c < size.Rows
  use apply(scale, x)
  use sub_mono(apply(scale, g.RangeMin), apply(scale, x), apply(scale, x), apply(scale, g.RangeMax))
  use unit(size.Rows - 1)
  use pixels(apply(scale, x) - apply(scale, g.RangeMin), apply(scale, x) - apply(scale, g.RangeMin), rd, size.Rows - 1)
  closure rng(x) c, rng(y) d :: size.Rows >= 1 && g.RangeMin <= x && x <= y && y <= g.RangeMax ==> c <= d
  use sub_mono(apply(scale, g.RangeMin), apply(scale, x), apply(scale, y), apply(scale, g.RangeMax))
  use unit(size.Rows - 1)
  use pixels(apply(scale, x) - apply(scale, g.RangeMin), apply(scale, y) - apply(scale, g.RangeMin), rd, size.Rows - 1)
