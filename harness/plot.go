package plot

import (
	"fmt"
	"math"
	"math/bits"
	"testing"
)

type vpt struct {
	x int64
	y float64
}

func (p vpt) X() int64   { return p.x }
func (p vpt) Y() float64 { return p.y }

type vser struct {
	id  SeriesId
	pts []Point
}

func (s vser) Title() string   { return "t" }
func (s vser) Id() SeriesId    { return s.id }
func (s vser) Points() []Point { return s.pts }

func vdescSeries(ss SeriesSet) string {
	out := ""
	for _, s := range ss {
		out += fmt.Sprintf("{id %d:", s.Id())
		for _, p := range s.Points() {
			out += fmt.Sprintf(" (%d,%v)", p.X(), p.Y())
		}
		out += "}"
	}
	return out
}

// vsize: a value scale for one case
func (r *vrun) val(kind int) float64 {
	switch kind {
	case 0:
		return float64(r.rnd.Intn(11) - 5)
	case 1:
		return r.rnd.NormFloat64()
	case 2:
		return r.rnd.NormFloat64() * 1e12
	case 3:
		return 1e16 + float64(r.rnd.Intn(4))*2
	case 4:
		return -7.5
	case 5:
		return float64(r.rnd.Intn(3)) * 1e-300
	case 6:
		return -1e9 - float64(r.rnd.Intn(100))
	case 8:
		return r.rnd.NormFloat64() * 1e100
	default:
		return float64(r.rnd.Intn(2))
	}
}

func (r *vrun) series(special bool) SeriesSet {
	n := r.rnd.Intn(5)
	var ss SeriesSet
	for i := 0; i < n; i++ {
		var pts []Point
		kind := r.rnd.Intn(9)
		base := []int64{0, 0, -50, 1600000000000, 1 << 40}[r.rnd.Intn(5)]
		step := []int{1, 2, 3, 50, 60000}[r.rnd.Intn(5)]
		x := base + int64(r.rnd.Intn(5))
		for j := r.rnd.Intn(4) * r.rnd.Intn(8); j > 0; j-- {
			y := r.val(kind)
			if special {
				switch r.rnd.Intn(8) {
				case 0:
					y = math.NaN()
				case 1:
					y = math.Inf(1)
				case 2:
					y = math.Inf(-1)
				}
			}
			pts = append(pts, vpt{x, y})
			x += 1 + int64(r.rnd.Intn(step))
		}
		ss = append(ss, vser{SeriesId(1 + r.rnd.Intn(65535)), pts})
	}
	return ss
}

func TestVerif_C16(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 60000); i++ {
		ss := r.series(i%3 == 0)
		base := AutoAxes()
		unset := true
		switch r.rnd.Intn(4) {
		case 0:
			base.DomainMin, base.DomainMax = int64(r.rnd.Intn(40)-60), int64(r.rnd.Intn(2000))
			unset = false
		case 1:
			base = base.WithPreviousRange(PlatonicAxes{1, 2, float64(r.rnd.Intn(9)) - 9, float64(r.rnd.Intn(9))})
			if base.DomainMin != math.MaxInt64 || base.DomainMax != math.MinInt64 || base.RangeMax < 0 || base.RangeMin > 0 {
				r.fail("WithPreviousRange gives %+v", base)
			}
			unset = false
		}
		desc := func() string { return fmt.Sprintf("base %+v series %s", base, vdescSeries(ss)) }
		var g *PlatonicGraph
		if !r.try(desc, func() { g = DataToPlatonicGraph(ss, base) }) {
			continue
		}
		want := base
		n := 0
		for _, s := range ss {
			for _, p := range s.Points() {
				if p.X() < want.DomainMin {
					want.DomainMin = p.X()
				}
				if p.X() > want.DomainMax {
					want.DomainMax = p.X()
				}
				if y := p.Y(); !math.IsNaN(y) {
					n++
					if y < want.RangeMin {
						want.RangeMin = y
					}
					if y > want.RangeMax {
						want.RangeMax = y
					}
				}
			}
		}
		r.ran(n > 1)
		if g.PlatonicAxes != want {
			r.fail("axes %+v want %+v (unset %v) on %s", g.PlatonicAxes, want, unset, desc())
		}
		if len(g.Series) != len(ss) {
			r.fail("series lost on %s", desc())
		}
		r.sample("%s -> %+v", desc(), g.PlatonicAxes)
	}
}

func vident(x float64) float64 { return x }

var vscales = []struct {
	name string
	f    RangeScale
}{{"identity", vident}, {"identity", vident}, {"double", func(x float64) float64 { return 2 * x }}, {"minus 7", func(x float64) float64 { return x - 7 }}, {"cube root", math.Cbrt}, {"asinh", math.Asinh}}

func (r *vrun) size() ScreenSize {
	m := []int{4, 12, 100, 400}[r.rnd.Intn(4)]
	return ScreenSize{Rows: Row(1 + r.rnd.Intn(m)), Cols: Column(1 + r.rnd.Intn(m))}
}

func TestVerif_C17(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 40000); i++ {
		ss := r.series(false)
		any := false
		for _, s := range ss {
			any = any || len(s.Points()) > 0
		}
		if !any {
			ss = append(ss, vser{3, []Point{vpt{5, 6}}})
		}
		g := DataToPlatonicGraph(ss, AutoAxes())
		if r.rnd.Intn(4) == 0 {
			g.DomainMin -= int64(r.rnd.Intn(9))
			g.DomainMax += int64(r.rnd.Intn(9))
			g.RangeMin -= float64(r.rnd.Intn(3))
			g.RangeMax += float64(r.rnd.Intn(3))
		}
		size := r.size()
		sc := vscales[r.rnd.Intn(len(vscales))]
		desc := func() string { return fmt.Sprintf("axes %+v size %+v scale %s series %s", g.PlatonicAxes, size, sc.name, vdescSeries(ss)) }
		var sg *ScreenGraph
		var dom func(int64) Column
		var rng func(float64) Row
		if !r.try(desc, func() {
			dom, rng = g.ScalePlatonicToScreen(sc.f, size)
			sg = g.ToScreen(sc.f, size)
		}) {
			continue
		}
		r.ran(any && len(ss) > 1)
		ys := []float64{g.RangeMin, g.RangeMax}
		xs := []int64{g.DomainMin, g.DomainMax}
		for _, s := range ss {
			for _, p := range s.Points() {
				ys = append(ys, p.Y())
				xs = append(xs, p.X())
			}
		}
		for _, y := range ys {
			if o := rng(y); o < 0 || o >= size.Rows {
				r.fail("value %v maps to row %d of %d on %s", y, o, size.Rows, desc())
			}
			for _, z := range ys[:2+(len(ys)-2)/3] {
				if y <= z && rng(y) > rng(z) {
					r.fail("value %v maps to row %d above row %d of the larger %v on %s", y, rng(y), rng(z), z, desc())
				}
			}
		}
		for _, x := range xs {
			if o := dom(x); o < 0 || o >= size.Cols {
				r.fail("time %v maps to column %d of %d on %s", x, o, size.Cols, desc())
			}
			for _, z := range xs[:2+(len(xs)-2)/3] {
				if x <= z && dom(x) > dom(z) {
					r.fail("time %v maps to column %d after column %d of the later %v on %s", x, dom(x), dom(z), z, desc())
				}
			}
		}
		if sg.ScreenSize != size || len(sg.Series) != len(ss) {
			r.fail("%d series for %d, size %+v on %s", len(sg.Series), len(ss), sg.ScreenSize, desc())
			continue
		}
		for k, s := range sg.Series {
			if s.Id != ss[k].Id() {
				r.fail("series %d has id %d want %d on %s", k, s.Id, ss[k].Id(), desc())
			}
			last := Column(-1)
			var all []Point
			for _, p := range s.Points {
				if p.Col <= last || p.Col >= size.Cols || p.Row < 0 || p.Row >= size.Rows {
					r.fail("pixel (row %d, column %d) after column %d in series %d on %s", p.Row, p.Col, last, k, desc())
				}
				last = p.Col
				if len(p.OriginalPoints) == 0 {
					r.fail("pixel without points in series %d on %s", k, desc())
				}
				lo, hi := size.Rows, Row(-1)
				for _, o := range p.OriginalPoints {
					all = append(all, o)
					if dom(o.X()) != p.Col {
						r.fail("point at %d in column %d, its column is %d on %s", o.X(), p.Col, dom(o.X()), desc())
					}
					if q := rng(o.Y()); q < lo {
						lo = q
					}
					if q := rng(o.Y()); q > hi {
						hi = q
					}
				}
				if p.Row < lo || p.Row > hi {
					r.fail("pixel row %d is not between the rows %d and %d of its points on %s", p.Row, lo, hi, desc())
				}
			}
			if len(all) != len(ss[k].Points()) {
				r.fail("%d of %d points represented in series %d on %s", len(all), len(ss[k].Points()), k, desc())
				continue
			}
			for j, p := range ss[k].Points() {
				if all[j] != p {
					r.fail("points of series %d reordered on %s", k, desc())
				}
			}
		}
		r.sample("%s", desc())
	}
}

func vdot(row Row, col Column, size ScreenSize) int {
	up := int(size.Rows-1) - int(row)
	cell := (up/4)*(int(size.Cols)/2) + int(col)/2
	return cell*8 + (int(col)%2)*4 + up%4
}

func TestVerif_C18(t *testing.T) {
	r := vstart(t)
	defer r.done()
	check := func(h, w int) {
		size := BrailleCellScreenSize(ScreenSize{Rows: Row(h), Cols: Column(w)})
		r.ran(h > 1 && w > 1)
		if int(size.Rows) != 4*h || int(size.Cols) != 2*w {
			r.fail("%dx%d characters give %+v pixels", w, h, size)
			return
		}
		seen := make([]bool, 8*h*w)
		for row := Row(0); row < size.Rows; row++ {
			for col := Column(0); col < size.Cols; col++ {
				d := BrailleCellMapper(row, col, size)
				if d < 0 || d >= len(seen) || seen[d] || d != vdot(row, col, size) {
					r.fail("pixel row %d column %d of %+v maps to %d (want %d, used before: %v)", row, col, size, d, vdot(row, col, size), d >= 0 && d < len(seen) && seen[d])
					return
				}
				seen[d] = true
			}
		}
		r.sample("%dx%d characters: %d pixels, all distinct", w, h, len(seen))
	}
	n := 22
	if vthorough() {
		n = 60
	}
	for h := 1; h <= n && r.fails < 5; h++ {
		for w := 1; w <= n && r.fails < 5; w++ {
			check(h, w)
		}
	}
	check(1, 200)
	check(200, 1)
}

func (r *vrun) screenGraph() *ScreenGraph {
	sg := &ScreenGraph{ScreenSize: BrailleCellScreenSize(ScreenSize{Rows: Row(1 + r.rnd.Intn(8)), Cols: Column(1 + r.rnd.Intn(12))})}
	for n := r.rnd.Intn(4); n > 0; n-- {
		s := ScreenSeries{Id: SeriesId(1 + r.rnd.Intn(5))}
		if r.rnd.Intn(2) == 0 {
			for c := Column(r.rnd.Intn(3)); c < sg.Cols; c += 1 + Column(r.rnd.Intn(5)) {
				s.Points = append(s.Points, PixelPoint{Row: Row(r.rnd.Intn(int(sg.Rows))), Col: c})
			}
		} else {
			for k := r.rnd.Intn(5); k > 0; k-- {
				s.Points = append(s.Points, PixelPoint{Row: Row(r.rnd.Intn(int(sg.Rows))), Col: Column(r.rnd.Intn(int(sg.Cols)))})
			}
		}
		sg.Series = append(sg.Series, s)
	}
	return sg
}

func vdescSG(sg *ScreenGraph) string {
	out := fmt.Sprintf("%d rows %d columns:", sg.Rows, sg.Cols)
	for _, s := range sg.Series {
		out += fmt.Sprintf(" {id %d:", s.Id)
		for _, p := range s.Points {
			out += fmt.Sprintf(" (r%d,c%d)", p.Row, p.Col)
		}
		out += "}"
	}
	return out
}

func TestVerif_C19(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 40000); i++ {
		sg := r.screenGraph()
		desc := func() string { return vdescSG(sg) }
		var rg *RenderedGraph
		marks := 0
		mapper := func(row Row, col Column, size ScreenSize) int {
			marks++
			if row < 0 || row >= sg.Rows || col < 0 || col >= sg.Cols || size != sg.ScreenSize {
				r.fail("mark at row %d column %d of %+v on %s", row, col, size, desc())
				return 0
			}
			return vdot(row, col, size)
		}
		if !r.timed(desc, func() { rg = sg.Render(mapper) }) {
			continue
		}
		pts := map[int][]SeriesId{}
		ids := map[SeriesId]bool{}
		n := 0
		for _, s := range sg.Series {
			for _, p := range s.Points {
				n++
				ids[s.Id] = true
				d := vdot(p.Row, p.Col, sg.ScreenSize)
				pts[d] = append(pts[d], s.Id)
			}
		}
		r.ran(marks > n)
		if rg.ScreenSize != sg.ScreenSize || len(rg.Cells) != int(sg.Rows)*int(sg.Cols) {
			r.fail("%d cells, size %+v on %s", len(rg.Cells), rg.ScreenSize, desc())
			continue
		}
		has := func(a []SeriesId, x SeriesId) bool {
			for _, y := range a {
				if x == y {
					return true
				}
			}
			return false
		}
		for d, c := range rg.Cells {
			if p := pts[d]; p != nil {
				if !c.IsPoint || !has(p, c.Series) {
					r.fail("dot %d is a point of %v but shows series %d (point: %v) on %s", d, p, c.Series, c.IsPoint, desc())
				}
				for _, id := range p {
					if id != c.Series && !has(c.MoreSeries, id) {
						r.fail("dot %d does not record the point of series %d on %s", d, id, desc())
					}
				}
			} else if c.IsPoint {
				r.fail("dot %d shown as a point of series %d on %s", d, c.Series, desc())
			}
			if c.Series != NoSeries && !ids[c.Series] {
				r.fail("dot %d shows series %d, which has no points, on %s", d, c.Series, desc())
			}
		}
		r.sample("%s", desc())
	}
}

func TestVerif_C20(t *testing.T) {
	r := vstart(t)
	defer r.done()
	bit := [8]uint{0, 1, 2, 6, 3, 4, 5, 7}
	for a := 0; a < 256; a++ { // what the contract assumes of |, for all pairs of bytes
		for b := 0; b < 256; b++ {
			c := a | b
			if c < 0 || c >= 256 || (c == 0) != (a == 0 && b == 0) {
				t.Fatal("assumption on | is wrong", a, b)
			}
			for w := 1; w <= 128; w *= 2 {
				if (c/w%2 == 1) != (a/w%2 == 1 || b/w%2 == 1) {
					t.Fatal("assumption on | is wrong", a, b)
				}
			}
		}
	}
	for i := 0; r.more(i, 40000); i++ {
		h, w := 1+r.rnd.Intn(6), 1+r.rnd.Intn(9)
		rg := &RenderedGraph{ScreenSize: BrailleCellScreenSize(ScreenSize{Rows: Row(h), Cols: Column(w)}), Cells: make([]Cell, 8*h*w), SubCellMapper: BrailleCellMapper}
		dens := 1 + r.rnd.Intn(12)
		marked := 0
		for k := range rg.Cells {
			if r.rnd.Intn(dens) == 0 {
				rg.Cells[k].Series = SeriesId(1 + r.rnd.Intn(9))
				rg.Cells[k].IsPoint = r.rnd.Intn(2) == 0
				for r.rnd.Intn(3) == 0 {
					rg.Cells[k].MoreSeries = append(rg.Cells[k].MoreSeries, SeriesId(1+r.rnd.Intn(9)))
				}
				marked++
			}
		}
		desc := func() string {
			out := fmt.Sprintf("%dx%d characters, series per dot:", w, h)
			for _, c := range rg.Cells {
				out += fmt.Sprintf(" %d", c.Series)
			}
			return out
		}
		next := 0
		ok := r.try(desc, func() {
			DrawBraille(rg, func(row Row, col Column, c rune, id SeriesId) {
				if int(row) != next/w || int(col) != next%w || next >= h*w {
					r.fail("cell %d drawn at row %d column %d on %s", next, row, col, desc())
					next++
					return
				}
				var want rune
				okID := false
				for k := 0; k < 8; k++ {
					if s := rg.Cells[8*next+k].Series; s != NoSeries {
						want |= 1 << bit[k]
						okID = okID || s == id
					}
				}
				if want == 0 {
					if (c != ' ' && c != 0x2800) || id != NoSeries {
						r.fail("empty cell %d drawn as %q of series %d on %s", next, c, id, desc())
					}
				} else if c != 0x2800+want || !okID {
					r.fail("cell %d drawn as %q (dots %08b, want %08b) series %d on %s", next, c, c-0x2800, want, id, desc())
				}
				next++
			})
		})
		if ok && next != h*w {
			r.fail("%d of %d cells drawn on %s", next, h*w, desc())
		}
		r.ran(marked > 0 && bits.OnesCount(uint(marked)) > 0)
		r.sample("%d of %d dots marked in %dx%d", marked, 8*h*w, w, h)
	}
}

func TestVerif_C21(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 30000); i++ {
		ss := r.series(false)
		any := false
		for _, s := range ss {
			any = any || len(s.Points()) > 0
		}
		if !any {
			ss = append(ss, vser{3, []Point{vpt{int64(r.rnd.Intn(9) - 4), float64(r.rnd.Intn(9) - 4)}}})
		}
		g := DataToPlatonicGraph(ss, AutoAxes())
		size := r.size()
		width := 1 + r.rnd.Intn(8)
		sc := TickScaling{RangeScale: vident, RangeDensity: 1 + r.rnd.Intn(12), DomainDensity: 1 + r.rnd.Intn(12)}
		lb := Labeling{LineSize: 1 + r.rnd.Intn(2),
			DomainLabeler: func(x int64) string { return fmt.Sprintf("%d", x%1000) },
			RangeLabeler:  func(y float64) string { return fmt.Sprintf("%*.1e", width, y) }}
		desc := func() string {
			return fmt.Sprintf("axes %+v size %+v densities %d %d line size %d label width %d series %s", g.PlatonicAxes, size, sc.DomainDensity, sc.RangeDensity, lb.LineSize, width, vdescSeries(ss))
		}
		var tk *ScreenTicks
		if !r.timed(desc, func() { tk = EvenlySpacedTicks(g, size, sc, lb) }) {
			if r.fails > 1 {
				return
			}
			continue
		}
		in := tk.InnerGraphSize
		fits := in.Rows > 0 && in.Cols > 0
		r.ran(fits)
		if in.Rows < 0 || in.Cols < 0 {
			r.fail("inner size %+v on %s", in, desc())
		}
		if tk.MarginCols < size.Cols && tk.MarginRows < size.Rows && (in.Rows+tk.MarginRows != size.Rows || in.Cols+tk.MarginCols != size.Cols) {
			r.fail("margins %d rows %d columns and inner size %+v on %s", tk.MarginRows, tk.MarginCols, in, desc())
		}
		if !fits {
			if tk.MarginCols < size.Cols && tk.MarginRows < size.Rows {
				r.fail("inner area empty although the margins fit on %s", desc())
			}
			continue
		}
		if len(tk.DomainTicks) == 0 || len(tk.RangeTicks) == 0 {
			r.fail("no ticks on %s", desc())
		}
		dom, rng := g.ScalePlatonicToScreen(vident, in)
		for k, d := range tk.DomainTicks {
			if d.Value < g.DomainMin || d.Value > g.DomainMax || d.Col < 0 || d.Col >= in.Cols || d.Col != dom(d.Value) || d.Label != lb.DomainLabeler(d.Value) || len(d.Label)+lb.LineSize > int(tk.MarginRows) {
				r.fail("time tick %+v outside (inner %+v margin %d) on %s", d, in, tk.MarginRows, desc())
			}
			if k > 0 && (d.Col <= tk.DomainTicks[k-1].Col || d.Value <= tk.DomainTicks[k-1].Value) {
				r.fail("time tick %+v after %+v on %s", d, tk.DomainTicks[k-1], desc())
			}
		}
		for k, d := range tk.RangeTicks {
			if d.Value < g.RangeMin || d.Value > g.RangeMax || d.Row < 0 || d.Row >= in.Rows || d.Row != in.Rows-1-rng(d.Value) || d.Label != lb.RangeLabeler(d.Value) || len(d.Label)+lb.LineSize > int(tk.MarginCols) {
				r.fail("value tick %+v outside (inner %+v margin %d) on %s", d, in, tk.MarginCols, desc())
			}
			if k > 0 && (d.Value <= tk.RangeTicks[k-1].Value || d.Row > tk.RangeTicks[k-1].Row) {
				r.fail("value tick %+v after %+v on %s", d, tk.RangeTicks[k-1], desc())
			}
		}
		if first := tk.RangeTicks[0]; first.Value != g.RangeMin {
			r.fail("first value tick %+v is not the minimum on %s", first, desc())
		}
		if first := tk.DomainTicks[0]; first.Value != g.DomainMin {
			r.fail("first time tick %+v is not the minimum on %s", first, desc())
		}
		if last := tk.DomainTicks[len(tk.DomainTicks)-1]; last.Col != dom(g.DomainMax) {
			r.fail("last time tick %+v is not at the maximum on %s", last, desc())
		}
		r.sample("%s -> %d time ticks %d value ticks", desc(), len(tk.DomainTicks), len(tk.RangeTicks))
	}
}
