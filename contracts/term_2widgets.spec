package sigs.k8s.io/instrumentation-tools/promq/term
import tcell github.com/gdamore/tcell
import prompt github.com/c-bata/go-prompt

// ---- C24, C26: the widgets around text areas ----
guard cellWriter.text by textMu
extern func (s screenIsh) ShowCursor(x, y)
  traced ShowCursor
  trusted "the screen: moves its cursor, touches no text"
extern func (s screenIsh) HideCursor()
  trusted "the screen: hides its cursor, touches no text"
extern func (s screenIsh) RequestRepaint()
  trusted "the screen: asks for a redraw, touches no text"

// nobody in this thread holds the lock, the text is in order
pred wfwriter(w *cellWriter) bool := w.textMu == 0 && wftext(w.text)
func (w *cellWriter) SetBox(box)
  props C24, C26
  requires w != nil && wfwriter(w) && 0 <= box.Rows && box.Rows <= 1048576 && 0 <= box.Cols && box.Cols <= 1048576
  modifies *w
  ensures wfwriter(w) && w.text.rows == box.Rows && w.text.cols == box.Cols && w.startCol == box.StartCol && w.startRow == box.StartRow

func (t *cellWriter) Resize(cols, rows)
  props C24, C26
  requires t != nil && wfwriter(t) && 0 <= cols && cols <= 1048576 && 0 <= rows && rows <= 1048576
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.rows == rows && t.text.cols == cols

func (t *cellWriter) Reset()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (true ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == 0 && t.text.cursorCol == 0

func (t *cellWriter) Newline()
  props C24, C25, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures t.text.cursorCol == 0 && t.text.cursorRow == (old(t.text.cursorRow) == t.text.rows - 1 ? t.text.rows - 1 : old(t.text.cursorRow) + 1)
  ensures old(t.text.cursorRow) < t.text.rows - 1 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == old(t.text.cursorRow) && x >= old(t.text.cursorCol) ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y))))
  ensures old(t.text.cursorRow) == t.text.rows - 1 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == t.text.rows - 1 || y == t.text.rows - 2 && x >= old(t.text.cursorCol) ? blankcell(cellat(t.text.buf, x, y)) : samecell(cellat(t.text.buf, x, y), old(cellat(t.text.buf, x, y + 1)))))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) WriteString(str, sty)
  props C24, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) FlushTo(screen, startCol, startRow)
  props C26
  requires t != nil && wfwriter(t) && screen != nil
  modifies t.textMu
  modifies trace SetContent
  define o0 = old(ncalls(SetContent))
  ensures wfwriter(t)
  ensures forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> flushed(t.text, callarg(SetContent, 1, i) - startCol, callarg(SetContent, 2, i) - startRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) && cellnew(cellat(t.text.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == startCol + x && callarg(SetContent, 2, i) == startRow + y)

func (t *cellWriter) ScrollDown()
  props C24, C25, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures old(t.text.cursorRow) < t.text.rows - 1 ? t.text.cursorRow == old(t.text.cursorRow) + 1 : t.text.cursorRow == t.text.rows - 1
  ensures t.text.cursorCol == old(t.text.cursorCol)
  ensures old(t.text.cursorRow) < t.text.rows - 1 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y))))
  ensures old(t.text.cursorRow) == t.text.rows - 1 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == t.text.rows - 1 ? blankcell(cellat(t.text.buf, x, y)) : samecell(cellat(t.text.buf, x, y), old(cellat(t.text.buf, x, y + 1)))))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) ScrollUp()
  props C24, C25, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures old(t.text.cursorRow) > 0 ? t.text.cursorRow == old(t.text.cursorRow) - 1 : t.text.cursorRow == 0
  ensures t.text.cursorCol == old(t.text.cursorCol)
  ensures old(t.text.cursorRow) > 0 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y))))
  ensures old(t.text.cursorRow) == 0 ==> (forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == 0 ? blankcell(cellat(t.text.buf, x, y)) : samecell(cellat(t.text.buf, x, y), old(cellat(t.text.buf, x, y - 1)))))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) Erase()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (true ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) EraseUp()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y < t.text.cursorRow || y == t.text.cursorRow && x <= t.text.cursorCol ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)

func (t *cellWriter) EraseDown()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y > t.text.cursorRow || y == t.text.cursorRow && x >= t.text.cursorCol ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)

func (t *cellWriter) EraseStartOfLine()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == t.text.cursorRow && x <= t.text.cursorCol ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)

func (t *cellWriter) EraseEndOfLine()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == t.text.cursorRow && x >= t.text.cursorCol ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)

func (t *cellWriter) EraseLine()
  props C24, C25, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  modifies t.text
  modifies elems(t.text.buf.cells)
  ensures wfwriter(t)
  ensures forall x int, y int {cidx(t.text.cols, x, y)} :: incell(t.text, x, y) ==> (y == t.text.cursorRow ? blankcell(cellat(t.text.buf, x, y)) : cellat(t.text.buf, x, y) == old(cellat(t.text.buf, x, y)))
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == old(t.text.cursorRow) && t.text.cursorCol == old(t.text.cursorCol)

func (t *cellWriter) CursorForward(n)
  props C24, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1 && 0 <= n
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.cursorCol == (old(t.text.cursorCol) + n < t.text.cols ? old(t.text.cursorCol) + n : t.text.cols - 1) && t.text.cursorRow == old(t.text.cursorRow)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) CursorBackward(n)
  props C24, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1 && 0 <= n
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.cursorCol == (old(t.text.cursorCol) - n >= 0 ? old(t.text.cursorCol) - n : 0) && t.text.cursorRow == old(t.text.cursorRow)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) CursorDown(n)
  props C24, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1 && 0 <= n
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.cursorRow == (old(t.text.cursorRow) + n < t.text.rows ? old(t.text.cursorRow) + n : t.text.rows - 1) && t.text.cursorCol == old(t.text.cursorCol)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) CursorUp(n)
  props C24, C26
  requires t != nil && wfwriter(t) && t.text.rows >= 1 && t.text.cols >= 1 && 0 <= n
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.cursorRow == (old(t.text.cursorRow) - n >= 0 ? old(t.text.cursorRow) - n : 0) && t.text.cursorCol == old(t.text.cursorCol)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols)

func (t *cellWriter) CursorPosition() (col, row)
  props C24, C26
  requires t != nil && wfwriter(t)
  modifies t.textMu
  ensures wfwriter(t)
  ensures col == t.text.cursorCol && row == t.text.cursorRow

func (t *cellWriter) CursorGoTo(row, col)
  props C24, C26
  requires t != nil && wfwriter(t) && 0 <= row && row < t.text.rows && 0 <= col && col <= t.text.cols
  modifies t.textMu
  modifies t.text
  ensures wfwriter(t)
  ensures t.text.rows == old(t.text.rows) && t.text.cols == old(t.text.cols) && t.text.cursorRow == row && t.text.cursorCol == col

func (w *cellWriter) WriteRaw(data)
  props C24, C25, C26
  requires w != nil && wfwriter(w) && w.text.rows >= 1 && w.text.cols >= 1 && len(data) == 1 && data[0] == 10
  modifies w.textMu
  modifies w.text
  modifies elems(w.text.buf.cells)
  ensures wfwriter(w)
  ensures w.text.cursorCol == 0 && w.text.cursorRow == (old(w.text.cursorRow) == w.text.rows - 1 ? w.text.rows - 1 : old(w.text.cursorRow) + 1)
  ensures old(w.text.cursorRow) < w.text.rows - 1 ==> (forall x int, y int {cidx(w.text.cols, x, y)} :: incell(w.text, x, y) ==> (y == old(w.text.cursorRow) && x >= old(w.text.cursorCol) ? blankcell(cellat(w.text.buf, x, y)) : cellat(w.text.buf, x, y) == old(cellat(w.text.buf, x, y))))
  ensures old(w.text.cursorRow) == w.text.rows - 1 ==> (forall x int, y int {cidx(w.text.cols, x, y)} :: incell(w.text, x, y) ==> (y == w.text.rows - 1 || y == w.text.rows - 2 && x >= old(w.text.cursorCol) ? blankcell(cellat(w.text.buf, x, y)) : samecell(cellat(w.text.buf, x, y), old(cellat(w.text.buf, x, y + 1)))))

func (w *cellWriter) WriteStr(data)
  props C24, C26
  requires w != nil && wfwriter(w) && w.text.rows >= 1 && w.text.cols >= 1
  modifies w.textMu
  modifies w.text
  modifies elems(w.text.buf.cells)
  ensures wfwriter(w)

func (w *cellWriter) EraseScreen()
  props C24, C25, C26
  requires w != nil && wfwriter(w)
  modifies w.textMu
  modifies w.text
  modifies elems(w.text.buf.cells)
  ensures wfwriter(w)
  ensures forall x int, y int {cidx(w.text.cols, x, y)} :: incell(w.text, x, y) ==> (true ? blankcell(cellat(w.text.buf, x, y)) : cellat(w.text.buf, x, y) == old(cellat(w.text.buf, x, y)))

func (w *cellWriter) ShowCursor()
  props C24, C26
  requires w != nil && wfwriter(w) && w.screen != nil
  modifies w.textMu
  modifies trace ShowCursor
  ensures wfwriter(w)
  ensures ncalls(ShowCursor) == old(ncalls(ShowCursor)) + 1 && callarg(ShowCursor, 1, old(ncalls(ShowCursor))) == w.startCol + w.text.cursorCol && callarg(ShowCursor, 2, old(ncalls(ShowCursor))) == w.startRow + w.text.cursorRow


// ---- text boxes ----
pred wftextbox(t *TextBox) bool := wftext(t.wrapper) && 0 <= t.pos.Rows && t.pos.Rows <= 1048576 && 0 <= t.pos.Cols && t.pos.Cols <= 1048576 && t.wrapper.rows == t.pos.Rows && t.wrapper.cols == t.pos.Cols
func (t *TextBox) SetBox(box)
  props C24, C26
  requires t != nil && wftextbox(t) && 0 <= box.Rows && box.Rows <= 1048576 && 0 <= box.Cols && box.Cols <= 1048576
  modifies *t
  ensures wftextbox(t) && t.pos == box
func (t *TextBox) WriteString(str, sty)
  props C24
  requires t != nil && wftextbox(t)
  modifies t.contents
  modifies elems(t.contents)
  ensures len(t.contents) == old(len(t.contents)) + 1
func (t *TextBox) FlushTo(screen)
  props C24, C26
  requires t != nil && wftextbox(t) && screen != nil
  modifies t.wrapper
  modifies elems(t.wrapper.buf.cells)
  modifies trace SetContent
  define o0 = old(ncalls(SetContent))
  ensures wftextbox(t)
  ensures t.pos.Rows == 0 || t.pos.Cols == 0 ==> ncalls(SetContent) == o0
  ensures forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> inbox(t.pos, callarg(SetContent, 1, i), callarg(SetContent, 2, i)) && flushed(t.wrapper, callarg(SetContent, 1, i) - t.pos.StartCol, callarg(SetContent, 2, i) - t.pos.StartRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
  ensures t.pos.Rows > 0 && t.pos.Cols > 0 ==> (forall x int, y int {cidx(t.wrapper.cols, x, y)} :: incell(t.wrapper, x, y) && cellnew(cellat(t.wrapper.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == t.pos.StartCol + x && callarg(SetContent, 2, i) == t.pos.StartRow + y))
  loop 1
    invariant wftext(t.wrapper) && t.wrapper.rows == t.pos.Rows && t.wrapper.cols == t.pos.Cols
    invariant t.wrapper.buf.cells == pre(t.wrapper.buf.cells)

// ---- the prompt ----
func (v *PromptView) FlushTo(screen)
  props C26
  requires v != nil && v.writer != nil && wfwriter(v.writer) && screen != nil
  requires v.writer.text.rows == v.pos.Rows && v.writer.text.cols == v.pos.Cols
  modifies v.writer.textMu
  modifies trace SetContent
  define o0 = old(ncalls(SetContent))
  ensures wfwriter(v.writer)
  ensures forall i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) ==> inbox(v.pos, callarg(SetContent, 1, i), callarg(SetContent, 2, i)) && flushed(v.writer.text, callarg(SetContent, 1, i) - v.pos.StartCol, callarg(SetContent, 2, i) - v.pos.StartRow, callarg(SetContent, 3, i), callarg(SetContent, 4, i), callarg(SetContent, 5, i))
  ensures forall x int, y int {cidx(v.writer.text.cols, x, y)} :: incell(v.writer.text, x, y) && cellnew(cellat(v.writer.text.buf, x, y)) ==> (exists i mathint {callarg(SetContent, 1, i)} :: o0 <= i && i < ncalls(SetContent) && callarg(SetContent, 1, i) == v.pos.StartCol + x && callarg(SetContent, 2, i) == v.pos.StartRow + y)
func (p *screenParser) Resize(size)
  props C26
  requires p != nil && p.mu == 0
  modifies p.size
  modifies p.mu
  ensures p.mu == 0 && p.size == size
func (v *PromptView) SetBox(box)
  props C24, C26
  requires v != nil && (v.writer != nil ==> wfwriter(v.writer)) && (v.reader != nil ==> v.reader.mu == 0)
  requires 0 <= box.Rows && box.Rows <= 1048576 && 0 <= box.Cols && box.Cols <= 1048576
  modifies *v
  modifies *v.writer
  modifies *v.reader
  ensures v.pos == box && v.writer == old(v.writer) && v.reader == old(v.reader)
  ensures v.writer != nil ==> wfwriter(v.writer)
  ensures v.writer != nil && v.reader != nil ==> v.writer.text.rows == box.Rows && v.writer.text.cols == box.Cols
