package sigs.k8s.io/instrumentation-tools/promq/term

// a child pane: what it does with its box is its own business, the box it is
// given is recorded
extern func (r Resizable) SetBox(box)
  traced setbox
  trusted "interface method: assumed not to change the split view"

pred dockSize(want int, total int, pct int) int := min(max(min(want, total - 1), 0), (pct > 0 ? (total * pct) / 100 : max(min(want, total - 1), 0)))
pred mkbox(c int, r int, w int, h int) PositionBox := mk(PositionBox, c, r, w, h)

// the two panes for every dock side, relative to the assigned box
pred dockedWant(v *SplitView, b PositionBox) PositionBox :=
  let dr := dockSize(v.DockSize, b.Rows, v.DockMaxPercent) ::
  let dc := dockSize(v.DockSize, b.Cols, v.DockMaxPercent) ::
  (v.Dock == 0 ? mkbox(b.StartCol, b.StartRow + b.Rows - dr, b.Cols, dr) :
  (v.Dock == 1 ? mkbox(b.StartCol, b.StartRow, b.Cols, dr) :
  (v.Dock == 2 ? mkbox(b.StartCol, b.StartRow, dc, b.Rows) :
                 mkbox(b.StartCol + b.Cols - dc, b.StartRow, dc, b.Rows))))
pred flexedWant(v *SplitView, b PositionBox) PositionBox :=
  let dr := dockSize(v.DockSize, b.Rows, v.DockMaxPercent) ::
  let dc := dockSize(v.DockSize, b.Cols, v.DockMaxPercent) ::
  (v.Dock == 0 ? mkbox(b.StartCol, b.StartRow, b.Cols, b.Rows - dr) :
  (v.Dock == 1 ? mkbox(b.StartCol, b.StartRow + dr, b.Cols, b.Rows - dr) :
  (v.Dock == 2 ? mkbox(b.StartCol + dc, b.StartRow, b.Cols - dc, b.Rows) :
                 mkbox(b.StartCol, b.StartRow, b.Cols - dc, b.Rows))))

// the percentage as computed in floating point is the exact quotient rounded down
lemma rnd_floor(y real, q int)
  requires 0 <= q && q <= 10000000000
  requires to_real(q) <= y && y <= to_real(q) + 0.99
  use rnd(y)
  use rnd(to_real(q))
  use fle(rnd(to_real(q)), rnd(y))
  use fr(rnd(to_real(q)))
  ensures fisfin(rnd(y)) && to_real(q) <= fr(rnd(y)) && fr(rnd(y)) < to_real(q) + 1.0
lemma hundredth(x int)
  requires 0 <= x && x <= 1000000000000
  use rnd_floor(to_real(x) / 100.0, x / 100)
  ensures f2i(fdiv(i2f(x), ffin(100.0))) == x / 100
lemma pct_floor(n int, p int)
  requires 1 <= n && n <= 1000000 && 1 <= p && p <= 1000000
  use hundredth(n * p)
  ensures f2i(fdiv(fmul(i2f(n), i2f(p)), ffin(100.0))) == (n * p) / 100

func (v *SplitView) SetBox(box)
  props C23
  requires v.Docked != nil && v.Flexed != nil
  requires 0 <= v.Dock && v.Dock <= 3
  requires 1 <= box.Cols && box.Cols <= 1000000 && 1 <= box.Rows && box.Rows <= 1000000
  requires v.DockMaxPercent <= 1000000
  modifies trace setbox
  opaque floats *
  use pct_floor(box.Rows, v.DockMaxPercent)
  use pct_floor(box.Cols, v.DockMaxPercent)
  ensures ncalls(setbox) == old(ncalls(setbox)) + 2
  ensures let n := old(ncalls(setbox)) ::
    (callarg(setbox, 0, n) == v.Docked && callarg(setbox, 1, n) == dockedWant(v, box) && callarg(setbox, 0, n + 1) == v.Flexed && callarg(setbox, 1, n + 1) == flexedWant(v, box))
    || (callarg(setbox, 0, n + 1) == v.Docked && callarg(setbox, 1, n + 1) == dockedWant(v, box) && callarg(setbox, 0, n) == v.Flexed && callarg(setbox, 1, n) == flexedWant(v, box))

// the boxes above tile the assigned box: stated and proved as a lemma
pred inbox(b PositionBox, c int, r int) bool := b.StartCol <= c && c < b.StartCol + b.Cols && b.StartRow <= r && r < b.StartRow + b.Rows
lemma split_tiles(v *SplitView, b PositionBox, c int, r int)
  props C23
  requires 0 <= v.Dock && v.Dock <= 3 && b.Cols >= 1 && b.Rows >= 1
  ensures inbox(b, c, r) <==> (inbox(dockedWant(v, b), c, r) || inbox(flexedWant(v, b), c, r))
  ensures !(inbox(dockedWant(v, b), c, r) && inbox(flexedWant(v, b), c, r))
  ensures dockedWant(v, b).Cols >= 0 && dockedWant(v, b).Rows >= 0 && flexedWant(v, b).Cols >= 1 && flexedWant(v, b).Rows >= 1
