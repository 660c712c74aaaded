package github.com/gdamore/tcell
import runewidth github.com/mattn/go-runewidth
transparent github.com/gdamore/tcell.CellBuffer
transparent github.com/gdamore/tcell.cell

// ---- the cells of a text area (the code of the dependency, verified too) ----
function runewid(r mathint) mathint
axiom space_width(r mathint)
  trigger runewid(r)
  ensures 0 <= runewid(r) && runewid(r) <= 2 && (r == 32 ==> runewid(r) == 1) && (r == 0 ==> runewid(r) == 0)
extern func runewidth.RuneWidth(r) (w)
  trusted "the display width of a character is a function of it, 0 to 2 columns; 1 for a blank, 0 for the zero character"
  ensures w == runewid(r)

// position in row-major order, and number of positions
recpred cidx(w int, x int, y int) int := y * w + x
recpred carea(w int, h int) int := w * h
pred inbox2(w int, h int, x int, y int) bool := 0 <= x && x < w && 0 <= y && y < h
lemma idx_range(w int, h int, x int, y int)
  requires inbox2(w, h, x, y)
  use unfold(cidx(w, x, y))
  use unfold(carea(w, h))
  ensures 0 <= cidx(w, x, y) && cidx(w, x, y) < carea(w, h)
lemma idx_inj(w int, x int, y int, x2 int, y2 int)
  requires 0 <= x && x < w && 0 <= x2 && x2 < w && cidx(w, x, y) == cidx(w, x2, y2)
  use unfold(cidx(w, x, y))
  use unfold(cidx(w, x2, y2))
  ensures x == x2 && y == y2

pred okcell(c cell) bool := c.width == runewid(c.currMain)
pred wfbuf(b CellBuffer) bool := 0 <= b.w && 0 <= b.h && len(b.cells) == carea(b.w, b.h)
  && (forall i int {b.cells[i]} :: 0 <= i && i < len(b.cells) ==> okcell(b.cells[i]))
pred inbuf(b CellBuffer, x int, y int) bool := 0 <= x && x < b.w && 0 <= y && y < b.h
pred cellat(b CellBuffer, x int, y int) cell := b.cells[cidx(b.w, x, y)]
// what is shown for a character
pred cellrune(m rune) rune := runewid(m) == 0 || m < 32 ? 32 : m
pred sametext(a []rune, b []rune) bool := len(a) == len(b) && (forall k int {a[k]} {b[k]} :: 0 <= k && k < len(a) ==> a[k] == b[k])
pred cellhas(c cell, m rune, comb []rune, sty Style) bool := cellrune(c.currMain) == cellrune(m) && c.currStyle == sty && sametext(c.currComb, comb)
pred cellnew(c cell) bool := c.lastMain == 0 || c.lastMain != c.currMain || c.lastStyle != c.currStyle || !sametext(c.lastComb, c.currComb)

func (cb *CellBuffer) SetContent(x, y, mainc, combc, style)
  requires cb != nil && wfbuf(*cb)
  modifies elems(cb.cells)
  use unfold(cidx(cb.w, x, y))
  use idx_range(cb.w, cb.h, x, y)
  use forall x2 int, y2 int {cidx(cb.w, x2, y2)} :: idx_inj(cb.w, x, y, x2, y2)
  ensures wfbuf(*cb)
  ensures inbuf(*cb, x, y) ==> cellhas(cellat(*cb, x, y), mainc, combc, style)
  ensures forall x2 int, y2 int {cidx(cb.w, x2, y2)} :: inbuf(*cb, x2, y2) && !(x2 == x && y2 == y) ==> cellat(*cb, x2, y2) == old(cellat(*cb, x2, y2))

func (cb *CellBuffer) GetContent(x, y) (mainc, combc, style, width)
  requires cb != nil && wfbuf(*cb)
  use unfold(cidx(cb.w, x, y))
  use idx_range(cb.w, cb.h, x, y)
  ensures inbuf(*cb, x, y) ==> mainc == cellrune(cellat(*cb, x, y).currMain) && combc == cellat(*cb, x, y).currComb && style == cellat(*cb, x, y).currStyle

func (cb *CellBuffer) Dirty(x, y) (r)
  requires cb != nil && wfbuf(*cb)
  use unfold(cidx(cb.w, x, y))
  use idx_range(cb.w, cb.h, x, y)
  ensures r <==> (inbuf(*cb, x, y) && cellnew(cellat(*cb, x, y)))
  loop 1
    invariant forall k int {c.lastComb[k]} {c.currComb[k]} :: 0 <= k && k < $i ==> c.lastComb[k] == c.currComb[k]

func (cb *CellBuffer) Resize(w, h)
  requires cb != nil && wfbuf(*cb) && 0 <= w && w <= 1048576 && 0 <= h && h <= 1048576
  modifies *cb
  use unfold(carea(w, h))
  use forall x2 int, y2 int {cidx(w, x2, y2)} :: idx_range(w, h, x2, y2)
  ensures wfbuf(*cb) && cb.w == w && cb.h == h
  loop 1
    invariant 0 <= y && len(newc) == carea(w, h)
    invariant forall i int {newc[i]} :: 0 <= i && i < len(newc) ==> okcell(newc[i])
    invariant forall i int {cb.cells[i]} :: 0 <= i && i < len(cb.cells) ==> okcell(cb.cells[i])
  loop 2
    use idx_range(w, h, x, y)
    use idx_range(cb.w, cb.h, x, y)
    use unfold(cidx(w, x, y))
    use unfold(cidx(cb.w, x, y))
    invariant 0 <= x && len(newc) == carea(w, h)
    invariant forall i int {newc[i]} :: 0 <= i && i < len(newc) ==> okcell(newc[i])
    invariant forall i int {cb.cells[i]} :: 0 <= i && i < len(cb.cells) ==> okcell(cb.cells[i])

func (cb *CellBuffer) Fill(r, style)
  requires cb != nil && wfbuf(*cb) && r == 32
  modifies elems(cb.cells)
  ensures wfbuf(*cb)
  ensures forall i int {cb.cells[i]} :: 0 <= i && i < len(cb.cells) ==> cb.cells[i].currMain == 32 && len(cb.cells[i].currComb) == 0 && cb.cells[i].currStyle == style
  loop 1
      invariant forall i int {cb.cells[i]} :: 0 <= i && i < len(cb.cells) ==> okcell(cb.cells[i])
    invariant forall i int {cb.cells[i]} :: 0 <= i && i < $i ==> cb.cells[i].currMain == 32 && len(cb.cells[i].currComb) == 0 && cb.cells[i].currStyle == style
