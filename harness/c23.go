package term

import (
	"fmt"
	"testing"
)

type vbox struct{ boxes []PositionBox }

func (b *vbox) SetBox(p PositionBox) { b.boxes = append(b.boxes, p) }

func TestVerif_C23(t *testing.T) {
	r := vstart(t)
	defer r.done()
	check := func(dock DockPos, size, pct int, box PositionBox) {
		d, f := &vbox{}, &vbox{}
		v := &SplitView{Dock: dock, DockSize: size, DockMaxPercent: pct, Docked: d, Flexed: f}
		desc := func() string { return fmt.Sprintf("dock=%d size=%d maxpercent=%d box=%+v", dock, size, pct, box) }
		if !r.try(desc, func() { v.SetBox(box) }) {
			return
		}
		r.ran(size > 0)
		if len(d.boxes) != 1 || len(f.boxes) != 1 {
			r.fail("%s: panes resized %d and %d times", desc(), len(d.boxes), len(f.boxes))
			return
		}
		db, fb := d.boxes[0], f.boxes[0]
		horiz := dock == PosLeft || dock == PosRight
		total := box.Rows
		if horiz {
			total = box.Cols
		}
		want := size
		if want > total-1 {
			want = total - 1
		}
		if want < 0 {
			want = 0
		}
		if pct > 0 && want > total*pct/100 {
			want = total * pct / 100
		}
		wd, wf := box, box
		switch dock {
		case PosBelow:
			wd.StartRow, wd.Rows, wf.Rows = box.StartRow+total-want, want, total-want
		case PosAbove:
			wd.Rows, wf.StartRow, wf.Rows = want, box.StartRow+want, total-want
		case PosLeft:
			wd.Cols, wf.StartCol, wf.Cols = want, box.StartCol+want, total-want
		case PosRight:
			wd.StartCol, wd.Cols, wf.Cols = box.StartCol+total-want, want, total-want
		}
		if db != wd || fb != wf {
			r.fail("%s: docked %+v flexed %+v, want %+v and %+v", desc(), db, fb, wd, wf)
		}
		r.sample("%s -> docked %+v flexed %+v", desc(), db, fb)
	}
	for dock := PosBelow; dock <= PosRight; dock++ {
		for _, n := range []int{1, 2, 3, 4, 5, 7, 10, 20, 24, 33, 50, 79, 80, 99, 100, 101, 150} {
			for size := -2; size <= n+2; size++ {
				for _, pct := range []int{-1, 0, 1, 7, 10, 25, 29, 33, 50, 57, 58, 66, 75, 99, 100, 101, 150} {
					if r.fails > 4 {
						return
					}
					check(dock, size, pct, PositionBox{StartCol: 3, StartRow: 5, Cols: n, Rows: n + 1})
					check(dock, size, pct, PositionBox{StartCol: 0, StartRow: 0, Cols: n + 4, Rows: n})
				}
			}
		}
	}
	for i := 0; r.more(i, 100000); i++ {
		n := []int{5, 100, 1000, 1000000}[r.rnd.Intn(4)]
		check(DockPos(r.rnd.Intn(4)), r.rnd.Intn(2*n)-3, r.rnd.Intn(130)-5, PositionBox{StartCol: r.rnd.Intn(50), StartRow: r.rnd.Intn(50), Cols: 1 + r.rnd.Intn(n), Rows: 1 + r.rnd.Intn(n)})
	}
}
