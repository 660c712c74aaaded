package sigs.k8s.io/instrumentation-tools/promq/term/plot

// ---- C18 ----
// a screen made of whole character cells, two dots wide and four high
pred wholecells(size ScreenSize) bool := 0 <= size.Rows && size.Rows <= 1073741824 && 0 <= size.Cols && size.Cols <= 1073741824 && size.Rows % 4 == 0 && size.Cols % 2 == 0
pred onscreen(row int, col int, size ScreenSize) bool := 0 <= row && row < size.Rows && 0 <= col && col < size.Cols
// the character cell covering a pixel (rows of cells from the top, rows of
// pixels from the bottom), and the dot of the pixel in it
pred cellrow(row int, size ScreenSize) int := (size.Rows - 1 - row) / 4
pred cellno(row int, col int, size ScreenSize) int := cellrow(row, size) * (size.Cols / 2) + col / 2
pred dotno(row int, col int, size ScreenSize) int := (col % 2) * 4 + (size.Rows - 1 - row) % 4

func BrailleCellMapper(row, col, size) (r)
  props C18
  requires wholecells(size) && onscreen(row, col, size)
  use cell_range(row, col, size)
  ensures r == cellno(row, col, size) * 8 + dotno(row, col, size)
  ensures r / 8 == cellno(row, col, size) && r % 8 == dotno(row, col, size)
  ensures 0 <= r && r < size.Rows * size.Cols

lemma prod_below(a int, n int, b int, m int)
  requires 0 <= a && a < n && 0 <= b && b < m
  ensures 0 <= a * m && a * m + b < n * m
lemma cell_range(row int, col int, size ScreenSize)
  requires wholecells(size) && onscreen(row, col, size)
  use prod_below(cellrow(row, size), size.Rows / 4, col / 2, size.Cols / 2)
  ensures 0 <= cellno(row, col, size) && cellno(row, col, size) < (size.Rows / 4) * (size.Cols / 2)
  ensures (size.Rows / 4) * (size.Cols / 2) * 8 == size.Rows * size.Cols
  ensures 0 <= dotno(row, col, size) && dotno(row, col, size) < 8

// no two pixels share a dot
lemma row_major(a int, b int, c int, d int, m int)
  requires 0 <= b && b < m && 0 <= d && d < m && a * m + b == c * m + d
  ensures a == c && b == d
lemma pixels_distinct(row int, col int, row2 int, col2 int, size ScreenSize)
  props C18
  requires wholecells(size) && onscreen(row, col, size) && onscreen(row2, col2, size)
  use cell_range(row, col, size)
  use cell_range(row2, col2, size)
  requires cellno(row, col, size) * 8 + dotno(row, col, size) == cellno(row2, col2, size) * 8 + dotno(row2, col2, size)
  use row_major(cellrow(row, size), col / 2, cellrow(row2, size), col2 / 2, size.Cols / 2)
  ensures row == row2 && col == col2

func BrailleCellScreenSize(termSize) (r)
  props C18
  requires 0 <= termSize.Rows && termSize.Rows <= 268435456 && 0 <= termSize.Cols && termSize.Cols <= 268435456
  ensures r.Rows == 4 * termSize.Rows && r.Cols == 2 * termSize.Cols
  ensures wholecells(r)

// ---- C20 ----
recpred dot(a mathint, w mathint) bool := div(a, w) % 2 == 1
pred power(b int) bool := b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128
// what | does to the bits of a byte (checked for all pairs of bytes by the harness)
axiom bitor_bits(a int, b int)
  trigger bitor(a, b)
  requires 0 <= a && a < 256 && 0 <= b && b < 256
  ensures 0 <= bitor(a, b) && bitor(a, b) < 256 && (bitor(a, b) == 0 <==> (a == 0 && b == 0))
  ensures dot(bitor(a, b), 1) <==> (dot(a, 1) || dot(b, 1))
  ensures dot(bitor(a, b), 2) <==> (dot(a, 2) || dot(b, 2))
  ensures dot(bitor(a, b), 4) <==> (dot(a, 4) || dot(b, 4))
  ensures dot(bitor(a, b), 8) <==> (dot(a, 8) || dot(b, 8))
  ensures dot(bitor(a, b), 16) <==> (dot(a, 16) || dot(b, 16))
  ensures dot(bitor(a, b), 32) <==> (dot(a, 32) || dot(b, 32))
  ensures dot(bitor(a, b), 64) <==> (dot(a, 64) || dot(b, 64))
  ensures dot(bitor(a, b), 128) <==> (dot(a, 128) || dot(b, 128))
lemma power_bits(b int)
  requires power(b)
  use unfold(dot(b, 1))
  use unfold(dot(b, 2))
  use unfold(dot(b, 4))
  use unfold(dot(b, 8))
  use unfold(dot(b, 16))
  use unfold(dot(b, 32))
  use unfold(dot(b, 64))
  use unfold(dot(b, 128))
  ensures dot(b, 1) <==> b == 1
  ensures dot(b, 2) <==> b == 2
  ensures dot(b, 4) <==> b == 4
  ensures dot(b, 8) <==> b == 8
  ensures dot(b, 16) <==> b == 16
  ensures dot(b, 32) <==> b == 32
  ensures dot(b, 64) <==> b == 64
  ensures dot(b, 128) <==> b == 128
lemma no_bits(b int)
  requires b == 0
  use unfold(dot(b, 1))
  use unfold(dot(b, 2))
  use unfold(dot(b, 4))
  use unfold(dot(b, 8))
  use unfold(dot(b, 16))
  use unfold(dot(b, 32))
  use unfold(dot(b, 64))
  use unfold(dot(b, 128))
  ensures !dot(b, 1)
  ensures !dot(b, 2)
  ensures !dot(b, 4)
  ensures !dot(b, 8)
  ensures !dot(b, 16)
  ensures !dot(b, 32)
  ensures !dot(b, 64)
  ensures !dot(b, 128)

pred marked(g *RenderedGraph, i int) bool := g.Cells[i].Series != 0
// b has exactly the dots of the marked ones among the first n positions of the
// cell starting at s: positions run down the left column, then the right one,
// the bits of the braille block are 0 1 2 6 and 3 4 5 7
pred dots(b int, g *RenderedGraph, s int, n int) bool := 0 <= b && b < 256
  && (dot(b, 1) <==> (0 < n && marked(g, s))) && (dot(b, 2) <==> (1 < n && marked(g, s+1)))
  && (dot(b, 4) <==> (2 < n && marked(g, s+2))) && (dot(b, 64) <==> (3 < n && marked(g, s+3)))
  && (dot(b, 8) <==> (4 < n && marked(g, s+4))) && (dot(b, 16) <==> (5 < n && marked(g, s+5)))
  && (dot(b, 32) <==> (6 < n && marked(g, s+6))) && (dot(b, 128) <==> (7 < n && marked(g, s+7)))
pred nomarks(g *RenderedGraph, s int) bool := forall j int {g.Cells[j]} :: s <= j && j < s + 8 ==> !marked(g, j)

lemma row_below(r mathint, c mathint, n mathint, w mathint)
  requires 0 <= c && c < w && r * w + c < n * w
  ensures r < n
func DrawBraille(graph, output)
  props C20
  purecb
  requires graph != nil && output != nil && wholecells(graph.ScreenSize)
  requires len(graph.Cells) == graph.Rows * graph.Cols
  modifies trace output
  define o0 = old(ncalls(output))
  define w = graph.Cols / 2
  use no_bits(0)
  use forall i mathint {callarg(output, 0, i)} :: row_below(callarg(output, 0, i), callarg(output, 1, i), graph.Rows / 4, w)
  // every cell once, in row order
  ensures ncalls(output) == o0 + (graph.Rows / 4) * w
  ensures forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> callarg(output, 0, i) * w + callarg(output, 1, i) == i - o0 && 0 <= callarg(output, 0, i) && 0 <= callarg(output, 1, i) && callarg(output, 1, i) < w
  ensures forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> callarg(output, 0, i) < graph.Rows / 4
  // a blank if there are no marks, exactly the marked dots otherwise
  ensures forall i mathint {callarg(output, 2, i)} :: o0 <= i && i < ncalls(output) ==> (nomarks(graph, 8 * (i - o0)) ? callarg(output, 2, i) == 32 : dots(callarg(output, 2, i) - 10240, graph, 8 * (i - o0), 8))
  // coloured by a series with a mark in the cell
  ensures forall i mathint {callarg(output, 3, i)} :: o0 <= i && i < ncalls(output) ==> (nomarks(graph, 8 * (i - o0)) ? callarg(output, 3, i) == 0 : exists j int :: 8 * (i - o0) <= j && j < 8 * (i - o0) + 8 && marked(graph, j) && callarg(output, 3, i) == graph.Cells[j].Series)
  loop 1
    define k = ncalls(output) - o0
    invariant chunkStart == 8 * k && 0 <= k && k <= (graph.Rows / 4) * w
    invariant k == 0 ? currRow == -1 && currCol == 0 : currRow * w + currCol == k - 1 && 0 <= currRow && 0 <= currCol && currCol < w
    invariant forall i mathint {callarg(output, 0, i)} :: o0 <= i && i < ncalls(output) ==> callarg(output, 0, i) * w + callarg(output, 1, i) == i - o0 && 0 <= callarg(output, 0, i) && 0 <= callarg(output, 1, i) && callarg(output, 1, i) < w
    invariant forall i mathint {callarg(output, 2, i)} :: o0 <= i && i < ncalls(output) ==> (nomarks(graph, 8 * (i - o0)) ? callarg(output, 2, i) == 32 : dots(callarg(output, 2, i) - 10240, graph, 8 * (i - o0), 8))
    invariant forall i mathint {callarg(output, 3, i)} :: o0 <= i && i < ncalls(output) ==> (nomarks(graph, 8 * (i - o0)) ? callarg(output, 3, i) == 0 : exists j int :: 8 * (i - o0) <= j && j < 8 * (i - o0) + 8 && marked(graph, j) && callarg(output, 3, i) == graph.Cells[j].Series)
  loop 2
    use no_bits(0)
    use power_bits(1)
    use power_bits(2)
    use power_bits(4)
    use power_bits(8)
    use power_bits(16)
    use power_bits(32)
    use power_bits(64)
    use power_bits(128)
    invariant 0 <= cellInd && cellInd <= 8
    invariant targetBits == 0 <==> (forall j int {graph.Cells[j]} :: chunkStart <= j && j < chunkStart + cellInd ==> !marked(graph, j))
    invariant dots(targetBits, graph, chunkStart, cellInd)
    invariant targetBits != 0 ==> exists j int :: chunkStart <= j && j < chunkStart + cellInd && marked(graph, j) && targetId == graph.Cells[j].Series
