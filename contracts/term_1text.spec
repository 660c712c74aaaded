package sigs.k8s.io/instrumentation-tools/promq/term
import tcell github.com/gdamore/tcell

// ---- C24, C25, C26: text areas ----
extern func unicode.IsControl(r) (b)
  trusted "unicode: whether a character is a control character, a fact about it"

extern func (s tcell.Screen) SetContent(x, y, mainc, combc, style)
  traced SetContent
  trusted "tcell: writes one cell; which one is checked at every call"
extern func (s tcell.Style) Foreground(c) (r)
  trusted "tcell: a style is a value"

// a text area: the buffer has its size, the cursor is in it (its column may be one past the last)
pred wfarea(t textWrapper) bool := 0 <= t.rows && t.rows <= 1048576 && 0 <= t.cols && t.cols <= 1048576 && t.buf.w == t.cols && t.buf.h == t.rows && wfbuf(t.buf)
pred cursorin(t textWrapper) bool := 0 <= t.cursorRow && (t.rows >= 1 ? t.cursorRow < t.rows : t.cursorRow == 0) && 0 <= t.cursorCol && t.cursorCol <= t.cols
pred wftext(t textWrapper) bool := wfarea(t) && cursorin(t)
pred incell(t textWrapper, x int, y int) bool := 0 <= x && x < t.cols && 0 <= y && y < t.rows
pred blankcell(c tcell.cell) bool := cellrune(c.currMain) == 32 && len(c.currComb) == 0 && c.currStyle == tcell.StyleDefault
pred samecell(a tcell.cell, b tcell.cell) bool := cellhas(a, cellrune(b.currMain), b.currComb, b.currStyle)

func (t *textWrapper) Resize(cols, rows)
  props C24
  requires t != nil && wftext(*t) && 0 <= cols && cols <= 1048576 && 0 <= rows && rows <= 1048576
  modifies *t
  ensures wftext(*t) && t.rows == rows && t.cols == cols

func (t *textWrapper) Reset()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies *t
  modifies elems(t.buf.cells)
  ensures wftext(*t) && t.rows == old(t.rows) && t.cols == old(t.cols) && t.cursorRow == 0 && t.cursorCol == 0
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> blankcell(cellat(t.buf, x, y))
  use forall x int, y int {cidx(t.cols, x, y)} :: idx_range(t.cols, t.rows, x, y)

func (t *textWrapper) clearLinePart(row, startCol, endCol, dir)
  props C24, C25
  requires t != nil && wfarea(*t)
  requires dir == 1 && startCol <= endCol || dir == -1 && endCol <= startCol
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == row && (dir == 1 ? startCol <= x && x < endCol : endCol < x && x <= startCol) ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  loop 1
    invariant dir == 1 ? startCol <= c && c <= endCol : endCol <= c && c <= startCol
    invariant wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == row && (dir == 1 ? startCol <= x && x < c : c < x && x <= startCol) ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
    decreases dir * (endCol - c)

func (t *textWrapper) ScrollDown()
  props C24, C25
  requires t != nil && wftext(*t) && t.rows >= 1 && t.cols >= 1
  modifies t.cursorRow
  modifies elems(t.buf.cells)
  ensures wftext(*t) && t.cursorCol == old(t.cursorCol)
  ensures old(t.cursorRow) < t.rows - 1 ? t.cursorRow == old(t.cursorRow) + 1 : t.cursorRow == t.rows - 1
  ensures old(t.cursorRow) < t.rows - 1 ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  ensures old(t.cursorRow) == t.rows - 1 ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == t.rows - 1 ? blankcell(cellat(t.buf, x, y)) : samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y + 1)))))
  loop 1
    invariant 1 <= r && r <= t.rows && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y < r - 1 ? samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y + 1))) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  loop 2
    invariant 0 <= c && c <= t.cols && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y < r - 1 || y == r - 1 && x < c ? samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y + 1))) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))

func (t *textWrapper) ScrollUp()
  props C24, C25
  requires t != nil && wftext(*t) && t.rows >= 1 && t.cols >= 1
  modifies t.cursorRow
  modifies elems(t.buf.cells)
  ensures wftext(*t) && t.cursorCol == old(t.cursorCol)
  ensures old(t.cursorRow) > 0 ? t.cursorRow == old(t.cursorRow) - 1 : t.cursorRow == 0
  ensures old(t.cursorRow) > 0 ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  ensures old(t.cursorRow) == 0 ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == 0 ? blankcell(cellat(t.buf, x, y)) : samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y - 1)))))
  loop 1
    invariant -1 <= r && r <= t.rows - 2 && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y > r + 1 ? samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y - 1))) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  loop 2
    invariant 0 <= c && c <= t.cols && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y > r + 1 || y == r + 1 && x < c ? samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y - 1))) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))

func (t *textWrapper) CursorDown(n)
  props C24
  requires t != nil && wftext(*t) && t.rows >= 1 && 0 <= n
  modifies t.cursorRow
  ensures t.cursorRow == (old(t.cursorRow) + n < t.rows ? old(t.cursorRow) + n : t.rows - 1)
func (t *textWrapper) CursorUp(n)
  props C24
  requires t != nil && wftext(*t) && 0 <= n
  modifies t.cursorRow
  ensures t.cursorRow == (old(t.cursorRow) - n >= 0 ? old(t.cursorRow) - n : 0)
func (t *textWrapper) CursorForward(n)
  props C24
  requires t != nil && wftext(*t) && t.cols >= 1 && 0 <= n
  modifies t.cursorCol
  ensures t.cursorCol == (old(t.cursorCol) + n < t.cols ? old(t.cursorCol) + n : t.cols - 1)
func (t *textWrapper) CursorBackward(n)
  props C24
  requires t != nil && wftext(*t) && 0 <= n
  modifies t.cursorCol
  ensures t.cursorCol == (old(t.cursorCol) - n >= 0 ? old(t.cursorCol) - n : 0)
func (t *textWrapper) CursorPosition() (col, row)
  props C24
  requires t != nil
  ensures col == t.cursorCol && row == t.cursorRow
func (t *textWrapper) CursorGoTo(row, col)
  props C24
  requires t != nil
  modifies t.cursorRow
  modifies t.cursorCol
  ensures t.cursorRow == row && t.cursorCol == col

func (t *textWrapper) Erase()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> blankcell(cellat(t.buf, x, y))
  loop 1
    invariant 0 <= r && r <= t.rows && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) && y < r ==> blankcell(cellat(t.buf, x, y))
func (t *textWrapper) EraseUp()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y < t.cursorRow || y == t.cursorRow && x <= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  loop 1
    invariant -1 <= r && r < t.cursorRow && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y < t.cursorRow && y > r || y == t.cursorRow && x <= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
func (t *textWrapper) EraseDown()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y > t.cursorRow || y == t.cursorRow && x >= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
  loop 1
    invariant t.cursorRow < r && (r <= t.rows || r == t.cursorRow + 1) && wfarea(*t)
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y > t.cursorRow && y < r || y == t.cursorRow && x >= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
func (t *textWrapper) EraseStartOfLine()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == t.cursorRow && x <= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
func (t *textWrapper) EraseEndOfLine()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == t.cursorRow && x >= t.cursorCol ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))
func (t *textWrapper) EraseLine()
  props C24, C25
  requires t != nil && wftext(*t)
  modifies elems(t.buf.cells)
  ensures wfarea(*t)
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == t.cursorRow ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y)))

func (t *textWrapper) Newline()
  props C24, C25
  requires t != nil && wftext(*t) && t.rows >= 1 && t.cols >= 1
  modifies t.cursorRow
  modifies t.cursorCol
  modifies elems(t.buf.cells)
  define r0 = old(t.cursorRow)
  define c0 = old(t.cursorCol)
  define last = (old(t.cursorRow) == t.rows - 1)
  ensures wftext(*t) && t.cursorCol == 0 && t.cursorRow == (last ? t.rows - 1 : r0 + 1)
  ensures !last ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == r0 && x >= c0 ? blankcell(cellat(t.buf, x, y)) : cellat(t.buf, x, y) == old(cellat(t.buf, x, y))))
  ensures last ==> (forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) ==> (y == t.rows - 1 || y == t.rows - 2 && x >= c0 ? blankcell(cellat(t.buf, x, y)) : samecell(cellat(t.buf, x, y), old(cellat(t.buf, x, y + 1)))))

func (t *textWrapper) writeNextCell(width, runes, sty)
  props C24
  requires t != nil && wftext(*t) && t.rows >= 1 && t.cols >= 1
  requires 1 <= width && width <= 2 && len(runes) >= 1
  modifies t.cursorRow
  modifies t.cursorCol
  modifies elems(t.buf.cells)
  oncall SetContent incell(*t, a1, a2)
  ensures wftext(*t)
  // on this line if it fits, on the next otherwise
  ensures t.cols - old(t.cursorCol) >= width ==> t.cursorRow == old(t.cursorRow) && t.cursorCol == old(t.cursorCol) + width
  ensures t.cols - old(t.cursorCol) < width ==> t.cursorRow == (old(t.cursorRow) == t.rows - 1 ? t.rows - 1 : old(t.cursorRow) + 1) && t.cursorCol == (width <= t.cols ? width : t.cols)

func (t *textWrapper) WriteString(str, sty)
  props C24
  requires t != nil && wftext(*t) && t.rows >= 1 && t.cols >= 1
  modifies t.cursorRow
  modifies t.cursorCol
  modifies elems(t.buf.cells)
  ensures wftext(*t)
  loop 1
    invariant wftext(*t) && freshornil(charsBuffer)
    invariant 0 <= mainWidth && mainWidth <= 2
    invariant len(charsBuffer) > 0 ==> mainWidth >= 1

pred flushed(t textWrapper, x int, y int, m rune, comb []rune, sty tcell.Style) bool := incell(t, x, y) && m == cellrune(cellat(t.buf, x, y).currMain) && comb == cellat(t.buf, x, y).currComb && sty == cellat(t.buf, x, y).currStyle
func (t *textWrapper) FlushTo(screen, startCol, startRow)
  props C26
  requires t != nil && wftext(*t) && screen != nil
  modifies trace SetContent
  define o0 = old(ncalls(SetContent))
  // every call writes a cell of the area with its content
  // every changed cell is written
  ensures ncalls(SetContent) >= o0
  ensures forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> flushed(*t, callarg(SetContent, 1, i) - startCol, callarg(SetContent, 2, i) - startRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
  ensures forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) && cellnew(cellat(t.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == startCol + x && callarg(SetContent, 2, i) == startRow + y)
  loop 1
    invariant 0 <= row && row <= t.rows && ncalls(SetContent) >= o0
    invariant forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> flushed(*t, callarg(SetContent, 1, i) - startCol, callarg(SetContent, 2, i) - startRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) && y < row && cellnew(cellat(t.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == startCol + x && callarg(SetContent, 2, i) == startRow + y)
  loop 2
    invariant 0 <= col && col <= t.cols && ncalls(SetContent) >= o0
    invariant forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> flushed(*t, callarg(SetContent, 1, i) - startCol, callarg(SetContent, 2, i) - startRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
    invariant forall x int, y int {cidx(t.cols, x, y)} :: incell(*t, x, y) && (y < row || y == row && x < col) && cellnew(cellat(t.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == startCol + x && callarg(SetContent, 2, i) == startRow + y)
