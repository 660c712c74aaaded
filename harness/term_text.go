package term

import (
	"bytes"
	"fmt"
	"math"
	"sync"
	"syscall"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
)

type vcell struct {
	text string
	sty  tcell.Style
}

// vmodel is an independent model of the text area.
type vmodel struct {
	rows, cols int
	cells      map[[2]int]vcell // row, column
	row, col   int
}

var vblank = vcell{" ", tcell.StyleDefault}

func (m *vmodel) at(row, col int) vcell {
	if c, ok := m.cells[[2]int{row, col}]; ok {
		return c
	}
	return vblank
}
func (m *vmodel) set(row, col int, c vcell) {
	if row >= 0 && row < m.rows && col >= 0 && col < m.cols {
		m.cells[[2]int{row, col}] = c
	}
}
func (m *vmodel) blank(row, from, to int) {
	for c := from; c < to; c++ {
		m.set(row, c, vblank)
	}
}
func (m *vmodel) resize(cols, rows int) {
	n := map[[2]int]vcell{}
	for k, v := range m.cells {
		if k[0] < rows && k[1] < cols {
			n[k] = v
		}
	}
	m.cells, m.rows, m.cols = n, rows, cols
	if m.row >= rows {
		m.row = rows - 1
	}
	if m.row < 0 {
		m.row = 0
	}
	if m.col > cols {
		m.col = cols
	}
	if m.col < 0 {
		m.col = 0
	}
}
func (m *vmodel) shift(by int) {
	n := map[[2]int]vcell{}
	for k, v := range m.cells {
		k[0] += by
		if k[0] >= 0 && k[0] < m.rows {
			n[k] = v
		}
	}
	m.cells = n
}
func (m *vmodel) newline() {
	m.blank(m.row, m.col, m.cols)
	m.row++
	m.col = 0
	if m.row >= m.rows {
		m.row = m.rows - 1
		m.shift(-1)
	}
}
func (m *vmodel) put(text string, sty tcell.Style) {
	w := 0
	for _, rn := range text {
		if n := runewidth.RuneWidth(rn); n > 0 {
			w = n
			break
		}
	}
	if w > m.cols-m.col {
		m.newline()
	}
	m.set(m.row, m.col, vcell{text, sty})
	m.col += w
	if m.col > m.cols {
		m.col = m.cols
	}
}
func (m *vmodel) write(s string, sty tcell.Style) {
	cur := ""
	flush := func() {
		if cur != "" {
			m.put(cur, sty)
		}
		cur = ""
	}
	for _, rn := range s {
		if rn == '\n' {
			flush()
			m.newline()
		} else if unicode.IsControl(rn) {
		} else if runewidth.RuneWidth(rn) == 0 {
			if cur == "" {
				cur = " "
			}
			cur += string(rn)
		} else {
			flush()
			cur = string(rn)
		}
	}
	flush()
}

func vget(t *textWrapper, row, col int) vcell {
	m, comb, sty, _ := t.buf.GetContent(col, row)
	return vcell{string(m) + string(comb), sty}
}

// same compares the whole area and the cursor with the model.
func (m *vmodel) same(t *textWrapper) string {
	c, rw := t.CursorPosition()
	if rw != m.row || c != m.col {
		return fmt.Sprintf("cursor at row %d column %d, want row %d column %d", rw, c, m.row, m.col)
	}
	w, h := t.buf.Size()
	if t.rows != m.rows || t.cols != m.cols || w != m.cols || h != m.rows {
		return fmt.Sprintf("size %dx%d (buffer %dx%d), want %dx%d", t.cols, t.rows, w, h, m.cols, m.rows)
	}
	for i := 0; i < m.rows; i++ {
		for j := 0; j < m.cols; j++ {
			if g := vget(t, i, j); g != m.at(i, j) {
				return fmt.Sprintf("cell row %d column %d holds %q style %v, want %q style %v", i, j, g.text, g.sty, m.at(i, j).text, m.at(i, j).sty)
			}
		}
	}
	return ""
}

var vtexts = []string{"a", "hello world", "x\ny", "\n", "", "日本語", "e\u0301a", "\u0301", "ab\u0301\u0302日\u0301c", "tab\there", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "日日日日日日日日日日", "\n\n\n", "a\u200db", "é\xff\x00z", "日\n本", "\r\n"}

type vscreenish struct {
	mu       sync.Mutex
	col, row int
	shown    int
	repaints int
}

func (s *vscreenish) ShowCursor(c, r int) { s.mu.Lock(); s.col, s.row = c, r; s.shown++; s.mu.Unlock() }
func (s *vscreenish) HideCursor()         {}
func (s *vscreenish) RequestRepaint()     { s.mu.Lock(); s.repaints++; s.mu.Unlock() }

// step runs one random operation on both; the returned text names it.
func (r *vrun) step(m *vmodel, direct *textWrapper, w *cellWriter) (string, func(), func()) {
	type ops interface {
		Newline()
		WriteString(string, tcell.Style)
		ScrollDown()
		ScrollUp()
		Erase()
		EraseUp()
		EraseDown()
		EraseStartOfLine()
		EraseEndOfLine()
		EraseLine()
		CursorForward(int)
		CursorBackward(int)
		CursorGoTo(int, int)
		CursorDown(int)
		CursorUp(int)
		Reset()
		Resize(int, int)
	}
	var t ops = direct
	if w != nil {
		t = w
	}
	n := r.rnd.Intn(6)
	switch r.rnd.Intn(22) {
	case 0:
		return "newline", t.Newline, m.newline
	case 1, 2, 3, 4, 5, 6:
		s := vtexts[r.rnd.Intn(len(vtexts))]
		sty := tcell.StyleDefault.Foreground(tcell.Color(r.rnd.Intn(4)))
		return fmt.Sprintf("write %q style %v", s, sty), func() { t.WriteString(s, sty) }, func() { m.write(s, sty) }
	case 7:
		return "scroll down", t.ScrollDown, func() {
			if m.row < m.rows-1 {
				m.row++
			} else {
				m.shift(-1)
			}
		}
	case 8:
		return "scroll up", t.ScrollUp, func() {
			if m.row > 0 {
				m.row--
			} else {
				m.shift(1)
			}
		}
	case 9:
		return "erase", t.Erase, func() { m.cells = map[[2]int]vcell{} }
	case 10:
		return "erase up", t.EraseUp, func() {
			m.blank(m.row, 0, m.col+1)
			for i := 0; i < m.row; i++ {
				m.blank(i, 0, m.cols)
			}
		}
	case 11:
		return "erase down", t.EraseDown, func() {
			m.blank(m.row, m.col, m.cols)
			for i := m.row + 1; i < m.rows; i++ {
				m.blank(i, 0, m.cols)
			}
		}
	case 12:
		return "erase start of line", t.EraseStartOfLine, func() { m.blank(m.row, 0, m.col+1) }
	case 13:
		return "erase end of line", t.EraseEndOfLine, func() { m.blank(m.row, m.col, m.cols) }
	case 14:
		return "erase line", t.EraseLine, func() { m.blank(m.row, 0, m.cols) }
	case 15:
		return fmt.Sprintf("cursor forward %d", n), func() { t.CursorForward(n) }, func() {
			if m.col += n; m.col >= m.cols {
				m.col = m.cols - 1
			}
		}
	case 16:
		return fmt.Sprintf("cursor backward %d", n), func() { t.CursorBackward(n) }, func() {
			if m.col -= n; m.col < 0 {
				m.col = 0
			}
		}
	case 17:
		return fmt.Sprintf("cursor down %d", n), func() { t.CursorDown(n) }, func() {
			if m.row += n; m.row >= m.rows {
				m.row = m.rows - 1
			}
		}
	case 18:
		return fmt.Sprintf("cursor up %d", n), func() { t.CursorUp(n) }, func() {
			if m.row -= n; m.row < 0 {
				m.row = 0
			}
		}
	case 19:
		a, b := r.rnd.Intn(m.rows+1), r.rnd.Intn(m.cols+1)
		if a == m.rows || b == m.cols {
			a, b = 0, 0
		}
		return fmt.Sprintf("go to row %d column %d", a, b), func() { t.CursorGoTo(a, b) }, func() { m.row, m.col = a, b }
	case 20:
		if r.rnd.Intn(3) > 0 {
			return "erase line", t.EraseLine, func() { m.blank(m.row, 0, m.cols) }
		}
		return "reset", t.Reset, func() { m.cells = map[[2]int]vcell{}; m.row, m.col = 0, 0 }
	default:
		a, b := 1+r.rnd.Intn(9), 1+r.rnd.Intn(7)
		if r.rnd.Intn(3) == 0 {
			a, b = 1, 1+r.rnd.Intn(2)
		}
		if r.rnd.Intn(6) == 0 { // no room at all
			a, b = r.rnd.Intn(2)*3, r.rnd.Intn(2)*2
		}
		if w != nil && r.rnd.Intn(2) == 0 {
			return fmt.Sprintf("set box to %d columns %d rows", a, b), func() { w.SetBox(PositionBox{StartCol: 2, StartRow: 3, Cols: a, Rows: b}) }, func() { m.resize(a, b) }
		}
		return fmt.Sprintf("resize to %d columns %d rows", a, b), func() { t.Resize(a, b) }, func() { m.resize(a, b) }
	}
}

// vtext runs random histories against the model. Cursor and crashes are C24's,
// the cell contents C25's; a run stops at the first difference of its kind.
func vtext(t *testing.T, contents bool) {
	r := vstart(t)
	defer r.done()
	// what the proof assumes about character widths
	for c := rune(-2); c <= unicode.MaxRune+2; c++ {
		if n := runewidth.RuneWidth(c); n < 0 || n > 2 || (c == ' ' && n != 1) || (c == 0 && n != 0) {
			r.fail("assumed character width: %U is %d wide", c, n)
		}
	}
	for i := 0; r.more(i, 20000); i++ {
		cols, rows := 1+r.rnd.Intn(9), 1+r.rnd.Intn(6)
		direct := &textWrapper{}
		scr := &vscreenish{}
		var w *cellWriter
		tw := direct
		if i%2 == 0 {
			w = &cellWriter{screen: scr}
			tw = &w.text
			w.SetBox(PositionBox{Cols: cols, Rows: rows})
		} else {
			direct.Resize(cols, rows)
		}
		m := &vmodel{cells: map[[2]int]vcell{}}
		m.resize(cols, rows)
		m.row, m.col = 0, 0
		log := fmt.Sprintf("%d columns %d rows", cols, rows)
		n := 1 + r.rnd.Intn(25)
		for k := 0; k < n; k++ {
			name, do, model := r.step(m, direct, w)
			log += "; " + name
			if !r.try(func() string { return log }, do) {
				break
			}
			if c, rw := tw.CursorPosition(); tw.rows > 0 && tw.cols > 0 && (rw < 0 || rw >= tw.rows || c < 0 || c > tw.cols) {
				r.fail("cursor at row %d column %d of %d rows %d columns after %s", rw, c, tw.rows, tw.cols, log)
				break
			}
			model()
			if d := m.same(tw); d != "" {
				if contents {
					r.fail("%s after %s", d, log)
				}
				break
			}
			if w != nil {
				w.ShowCursor()
				if c, rw := tw.CursorPosition(); scr.col != w.startCol+c || scr.row != w.startRow+rw {
					r.fail("cursor shown at %d,%d after %s", scr.col, scr.row, log)
				}
			}
		}
		r.ran(n > 3)
		r.sample("%s", log)
	}
}

func TestVerif_C24(t *testing.T) { vtext(t, false) }
func TestVerif_C25(t *testing.T) { vtext(t, true) }

// vscreen records what is written to it.
type vscreen struct {
	tcell.Screen
	got  map[[2]int]vcell
	from [4]int // allowed columns and rows
	bad  string
	n    int
}

func (s *vscreen) SetContent(x, y int, m rune, comb []rune, sty tcell.Style) {
	s.n++
	if x < s.from[0] || x >= s.from[1] || y < s.from[2] || y >= s.from[3] {
		s.bad = fmt.Sprintf("wrote %q at column %d row %d, outside columns [%d,%d) rows [%d,%d)", m, x, y, s.from[0], s.from[1], s.from[2], s.from[3])
	}
	s.got[[2]int{y, x}] = vcell{string(m) + string(comb), sty}
}

func vnewscreen(box PositionBox) *vscreen {
	return &vscreen{got: map[[2]int]vcell{}, from: [4]int{box.StartCol, box.StartCol + box.Cols, box.StartRow, box.StartRow + box.Rows}}
}

func TestVerif_C26(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 8000); i++ {
		box := PositionBox{StartCol: r.rnd.Intn(5), StartRow: r.rnd.Intn(5), Cols: 1 + r.rnd.Intn(8), Rows: 1 + r.rnd.Intn(5)}
		log := fmt.Sprintf("box %+v", box)
		desc := func() string { return log }
		scr := vnewscreen(box)
		m := &vmodel{cells: map[[2]int]vcell{}}
		m.resize(box.Cols, box.Rows)
		m.row, m.col = 0, 0
		if i%3 == 0 { // text box
			tb := &TextBox{}
			tb.SetBox(box)
			for k := r.rnd.Intn(4); k > 0; k-- {
				s := vtexts[r.rnd.Intn(len(vtexts))]
				sty := tcell.StyleDefault.Foreground(tcell.Color(r.rnd.Intn(4)))
				tb.WriteString(s, sty)
				log += fmt.Sprintf("; write %q", s)
				m.write(s, sty)
			}
			m.blank(m.row, m.col, m.cols)
			for i := m.row + 1; i < m.rows; i++ {
				m.blank(i, 0, m.cols)
			}
			if !r.try(desc, func() { tb.FlushTo(scr) }) {
				continue
			}
		} else {
			var fl func()
			direct := &textWrapper{}
			var w *cellWriter
			if i%3 == 1 {
				direct.Resize(box.Cols, box.Rows)
				fl = func() { direct.FlushTo(scr, box.StartCol, box.StartRow) }
			} else {
				w = &cellWriter{screen: &vscreenish{}}
				w.SetBox(box)
				fl = func() { w.FlushTo(scr, box.StartCol, box.StartRow) }
			}
			ok := true
			for k := r.rnd.Intn(8); k > 0 && ok; k-- {
				name, do, model := r.step(m, direct, w)
				log += "; " + name
				ok = r.try(desc, do)
				model()
			}
			if !ok {
				continue
			}
			scr.from = [4]int{box.StartCol, box.StartCol + m.cols, box.StartRow, box.StartRow + m.rows}
			if !r.try(desc, fl) {
				continue
			}
			if w != nil {
				ok := make(chan bool)
				go func() { w.textMu.Lock(); w.textMu.Unlock(); close(ok) }()
				<-ok
			}
		}
		r.ran(scr.n > 1)
		if scr.bad != "" {
			r.fail("%s on %s", scr.bad, log)
		}
		for y := 0; y < m.rows; y++ {
			for x := 0; x < m.cols; x++ {
				if g, ok := scr.got[[2]int{box.StartRow + y, box.StartCol + x}]; !ok || g != m.at(y, x) {
					r.fail("screen cell row %d column %d of the box shows %q (written: %v), stored %q on %s", y, x, g.text, ok, m.at(y, x).text, log)
					y, x = m.rows, m.cols
				}
			}
		}
		r.sample("%s: %d cells written", log, scr.n)
	}
	// every text operation of the prompt's writer holds the lock: run them all
	// from several goroutines (this test is built with the race detector)
	w := &cellWriter{screen: &vscreenish{}}
	w.SetBox(PositionBox{Cols: 9, Rows: 4})
	var wg sync.WaitGroup
	seed := r.rnd.Int63()
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					r.fail("panic %v under concurrent use", p)
				}
			}()
			rr := &vrun{t: t, rnd: newRand(seed + int64(g)), end: r.end}
			m := &vmodel{cells: map[[2]int]vcell{}, rows: 1, cols: 1}
			for k := 0; k < 400; k++ {
				_, do, _ := rr.step(m, nil, w)
				do()
				if k%7 == 0 {
					w.FlushTo(vnewscreen(PositionBox{Cols: 99, Rows: 99}), 0, 0)
				}
				w.CursorPosition()
			}
		}(g)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-timeAfter(90):
		r.fail("the prompt's writer deadlocks under concurrent use")
	}
}

func vkeyBytes(k prompt.Key) []byte {
	for _, s := range prompt.ASCIISequences {
		if s.Key == k {
			return s.ASCIICode
		}
	}
	return nil
}

var vctrl = []prompt.Key{prompt.ControlA, prompt.ControlB, prompt.ControlC, prompt.ControlD, prompt.ControlE, prompt.ControlF, prompt.ControlG, prompt.Backspace, prompt.Tab, prompt.ControlJ, prompt.ControlK, prompt.ControlL, prompt.ControlM, prompt.ControlN, prompt.ControlO, prompt.ControlP, prompt.ControlQ, prompt.ControlR, prompt.ControlS, prompt.ControlT, prompt.ControlU, prompt.ControlV, prompt.ControlW, prompt.ControlX, prompt.ControlY, prompt.ControlZ}
var vfkeys = []prompt.Key{prompt.F1, prompt.F2, prompt.F3, prompt.F4, prompt.F5, prompt.F6, prompt.F7, prompt.F8, prompt.F9, prompt.F10, prompt.F11, prompt.F12, prompt.F13, prompt.F14, prompt.F15, prompt.F16, prompt.F17, prompt.F18, prompt.F19, prompt.F20, prompt.F21, prompt.F22, prompt.F23, prompt.F24}

// vwantKey: what a special key is for the prompt.
func vwantKey(k tcell.Key, mod tcell.ModMask) prompt.Key {
	ctrl, shift := mod&tcell.ModCtrl != 0, mod&tcell.ModShift != 0
	pick := func(plain, c, s prompt.Key) prompt.Key {
		if ctrl {
			return c
		}
		if shift {
			return s
		}
		return plain
	}
	switch {
	case k >= tcell.KeyCtrlA && k <= tcell.KeyCtrlZ:
		return vctrl[k-tcell.KeyCtrlA]
	case k >= tcell.KeyF1 && k <= tcell.KeyF24:
		return vfkeys[k-tcell.KeyF1]
	}
	switch k {
	case tcell.KeyCtrlSpace:
		return prompt.ControlSpace
	case tcell.KeyCtrlBackslash:
		return prompt.ControlBackslash
	case tcell.KeyCtrlRightSq:
		return prompt.ControlSquareClose
	case tcell.KeyEscape:
		return prompt.Escape
	case tcell.KeyCtrlCarat:
		return prompt.ControlCircumflex
	case tcell.KeyCtrlUnderscore:
		return prompt.ControlUnderscore
	case tcell.KeyHome:
		return prompt.Home
	case tcell.KeyEnd:
		return prompt.End
	case tcell.KeyPgUp:
		return prompt.PageUp
	case tcell.KeyPgDn:
		return prompt.PageDown
	case tcell.KeyBacktab:
		return prompt.BackTab
	case tcell.KeyInsert:
		return prompt.Insert
	case tcell.KeyBackspace2:
		return prompt.Backspace
	case tcell.KeyLeft:
		return pick(prompt.Left, prompt.ControlLeft, prompt.ShiftLeft)
	case tcell.KeyRight:
		return pick(prompt.Right, prompt.ControlRight, prompt.ShiftRight)
	case tcell.KeyUp:
		return pick(prompt.Up, prompt.ControlUp, prompt.ShiftUp)
	case tcell.KeyDown:
		return pick(prompt.Down, prompt.ControlDown, prompt.ShiftDown)
	case tcell.KeyDelete:
		return pick(prompt.Delete, prompt.ControlDelete, prompt.ShiftDelete)
	}
	return prompt.NotDefined
}

func TestVerif_C27(t *testing.T) {
	r := vstart(t)
	defer r.done()
	// what the contracts assume: the prompt's table, the encoding of characters
	for i, s := range prompt.ASCIISequences {
		if s == nil || len(s.ASCIICode) == 0 {
			r.fail("entry %d of the prompt's table of sequences is empty", i)
		}
	}
	for rn := rune(0); rn <= utf8.MaxRune+1; rn++ {
		var buf [utf8.UTFMax]byte
		if n := utf8.EncodeRune(buf[:], rn); string(buf[:n]) != string(rn) {
			r.fail("encoding of character %#x", rn)
		}
	}
	var keys []tcell.Key
	for k := tcell.Key(0); k < 32; k++ {
		keys = append(keys, k)
	}
	keys = append(keys, tcell.KeyDEL)
	for k := tcell.KeyUp; k <= tcell.KeyF64; k++ {
		keys = append(keys, k)
	}
	for _, k := range keys {
		for mod := tcell.ModMask(0); mod < 16; mod++ {
			evt := tcell.NewEventKey(k, 0, mod)
			desc := func() string { return fmt.Sprintf("key %d modifiers %d", k, mod) }
			var got []byte
			if !r.try(desc, func() { got = nonRuneKeyToBytes(evt) }) {
				continue
			}
			r.ran(got != nil)
			if want := vkeyBytes(vwantKey(k, evt.Modifiers())); !bytes.Equal(got, want) {
				r.fail("%s: bytes %v want %v", desc(), got, want)
			}
		}
	}
	special := []tcell.Key{tcell.KeyEnter, tcell.KeyTab, tcell.KeyUp, tcell.KeyCtrlC, tcell.KeyHome, tcell.KeyF5, tcell.KeyDelete, tcell.KeyHelp, tcell.KeyBackspace2, tcell.KeyCtrlSpace}
	runes := []rune{'a', 'b', ' ', 'é', '日', 0x1F926, '~', 0x80, 0x7FF, 0xFFFD, 0x10FFFF}
	for i := 0; r.more(i, 20000); i++ {
		p := &screenParser{evts: make(chan *tcell.EventKey, 30)}
		log := ""
		// want: the pieces in order; typed text may be split over several reads
		type piece struct {
			b       []byte
			special bool
		}
		var want []piece
		bad := false
		read := func() bool {
			log += "; read"
			var got []byte
			var err error
			pending := len(want) > 0
			if !r.timed(func() string { return log }, func() { got, err = p.Read() }) {
				bad = true
				return false
			}
			if err != nil {
				if err != syscall.EWOULDBLOCK || len(got) > 0 {
					r.fail("read gives %v and error %v on %s", got, err, log)
					bad = true
				}
				return false
			}
			if len(got) == 0 {
				r.fail("read gives neither bytes nor an error (pending: %v) on %s", pending, log)
				bad = true
				return false
			}
			if len(want) > 0 && want[0].special {
				if !bytes.Equal(got, want[0].b) {
					r.fail("read gives %q, want the special key %q alone, on %s", got, want[0].b, log)
					bad = true
				}
				want = want[1:]
				return true
			}
			for len(got) > 0 {
				if len(want) == 0 || want[0].special || !bytes.HasPrefix(got, want[0].b) {
					r.fail("read gives %q out of order or unexpected on %s", got, log)
					bad = true
					return false
				}
				got = got[len(want[0].b):]
				want = want[1:]
			}
			return true
		}
		for k := 2 + r.rnd.Intn(14); k > 0 && !bad; k-- {
			switch r.rnd.Intn(6) {
			case 0:
				read()
			case 1, 2:
				key := special[r.rnd.Intn(len(special))]
				evt := tcell.NewEventKey(key, 0, 0)
				log += fmt.Sprintf("; key %d", key)
				p.AddKey(evt)
				if b := vkeyBytes(vwantKey(key, evt.Modifiers())); b != nil {
					want = append(want, piece{b, true})
				}
			case 3:
				s := []string{"ab", "é日", "x\r", "\r"}[r.rnd.Intn(4)]
				if len(p.evts) > 24 {
					break
				}
				log += fmt.Sprintf("; string %q", s)
				p.AddString(s)
				for _, rn := range s {
					if rn == '\r' {
						want = append(want, piece{[]byte{13}, true})
					} else {
						want = append(want, piece{[]byte(string(rn)), false})
					}
				}
			default:
				rn := runes[r.rnd.Intn(len(runes))]
				log += fmt.Sprintf("; rune %q", rn)
				p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
				b := make([]byte, 4)
				want = append(want, piece{b[:utf8.EncodeRune(b, rn)], false})
			}
		}
		for k := 0; k < 40 && !bad; k++ {
			read()
		}
		r.ran(log != "")
		if !bad && len(want) > 0 {
			r.fail("%d keys never delivered on %s", len(want), log)
		}
		r.sample("%s", log)
	}
}

type vgpt struct {
	x int64
	y float64
}

func (p vgpt) X() int64   { return p.x }
func (p vgpt) Y() float64 { return p.y }

type vgser struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s vgser) Title() string        { return "t" }
func (s vgser) Id() plot.SeriesId    { return s.id }
func (s vgser) Points() []plot.Point { return s.pts }

func TestVerif_C22(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 20000); i++ {
		var ss plot.SeriesSet
		any := false
		for n := r.rnd.Intn(4); n > 0; n-- {
			s := vgser{id: plot.SeriesId(1 + r.rnd.Intn(400))}
			x := int64(r.rnd.Intn(50) - 20)
			sc := []float64{0, 1, 10, 1e9}[r.rnd.Intn(4)]
			off := float64(r.rnd.Intn(3)-1) * 5
			for k := r.rnd.Intn(9); k > 0; k-- {
				s.pts = append(s.pts, vgpt{x, off + sc*math.Floor(r.rnd.NormFloat64()*4)})
				x += 1 + int64(r.rnd.Intn(30))
				any = true
			}
			ss = append(ss, s)
		}
		if !any {
			ss = append(ss, vgser{7, []plot.Point{vgpt{int64(r.rnd.Intn(5) - 2), float64(r.rnd.Intn(5) - 2)}}})
		}
		box := PositionBox{StartCol: r.rnd.Intn(9), StartRow: r.rnd.Intn(9), Cols: 1 + r.rnd.Intn(60), Rows: 1 + r.rnd.Intn(40)}
		lw := 1 + r.rnd.Intn(6)
		gv := &GraphView{Graph: plot.DataToPlatonicGraph(ss, plot.AutoAxes()),
			DomainLabeler: func(x int64) string { return fmt.Sprintf("%*d", lw, x%100) }, RangeLabeler: func(y float64) string { return fmt.Sprintf("%.*g", lw, y) },
			DomainTickSpacing: r.rnd.Intn(12), RangeTickSpacing: r.rnd.Intn(12)}
		gv.SetBox(box)
		desc := func() string {
			out := fmt.Sprintf("box %+v spacings %d %d label width %d", box, gv.DomainTickSpacing, gv.RangeTickSpacing, lw)
			for _, s := range ss {
				out += fmt.Sprintf(" {%d:", s.Id())
				for _, p := range s.Points() {
					out += fmt.Sprintf(" (%d,%v)", p.X(), p.Y())
				}
				out += "}"
			}
			return out
		}
		scr := vnewscreen(box)
		if !r.timed(desc, func() { gv.FlushTo(scr) }) {
			continue
		}
		r.ran(scr.n > 0)
		if scr.bad != "" {
			r.fail("%s on %s", scr.bad, desc())
		}
		if scr.n == 0 {
			continue
		}
		// the axes: one corner, lines from it to the top and to the right edge
		cx, cy := -1, -1
		for k, c := range scr.got {
			if c.text == "┗" {
				if cx >= 0 {
					r.fail("two corners on %s", desc())
				}
				cy, cx = k[0], k[1]
			}
		}
		if cx < 0 {
			r.fail("no corner on %s", desc())
			continue
		}
		for y := box.StartRow; y < cy; y++ {
			if c := scr.got[[2]int{y, cx}].text; c != "┃" && c != "┨" {
				r.fail("value axis shows %q at row %d on %s", c, y, desc())
			}
			for x := cx + 1; x < box.StartCol+box.Cols; x++ {
				if c := []rune(scr.got[[2]int{y, x}].text); len(c) != 1 || (c[0] != ' ' && (c[0] < 0x2800 || c[0] > 0x28ff)) {
					r.fail("graph area shows %q at row %d column %d on %s", string(c), y, x, desc())
				}
			}
		}
		for x := cx + 1; x < box.StartCol+box.Cols; x++ {
			if c := scr.got[[2]int{cy, x}].text; c != "━" && c != "┯" {
				r.fail("time axis shows %q at column %d on %s", c, x, desc())
			}
		}
		r.sample("%s: %d cells", desc(), scr.n)
	}
}
