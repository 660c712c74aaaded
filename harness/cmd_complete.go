package metrics

import (
	"fmt"
	"testing"

	"github.com/c-bata/go-prompt"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
)

type vmatch struct{ v, d string }

func (m vmatch) GetValue() string  { return m.v }
func (m vmatch) GetKind() string   { return "k" }
func (m vmatch) GetDetail() string { return m.d }

type vcompleter struct {
	autocomplete.PromQLCompleter
	q   string
	pos int
	n   int
	out []autocomplete.Match
}

func (c *vcompleter) GenerateSuggestions(q string, pos int) []autocomplete.Match {
	c.q, c.pos = q, pos
	c.n++
	return c.out
}

func TestVerif_C32(t *testing.T) {
	r := vstart(t)
	defer r.done()
	parts := []string{"a", "sum(", "é", "日本", "{x='", " ", "\u0301", "m"}
	for i := 0; r.more(i, 5000); i++ {
		text := ""
		for k := r.rnd.Intn(6); k > 0; k-- {
			text += parts[r.rnd.Intn(len(parts))]
		}
		b := prompt.NewBuffer()
		b.InsertText(text, false, true)
		back := r.rnd.Intn(len([]rune(text)) + 1)
		b.CursorLeft(back)
		d := *b.Document()
		vc := &vcompleter{}
		for k := r.rnd.Intn(3); k > 0; k-- {
			vc.out = append(vc.out, vmatch{fmt.Sprint("v", k), fmt.Sprint("d", k)})
		}
		desc := func() string { return fmt.Sprintf("text %q cursor before its last %d characters", text, back) }
		var got []prompt.Suggest
		if !r.try(desc, func() { got = NewCompleter(vc).Complete(d) }) {
			continue
		}
		before := d.TextBeforeCursor()
		r.ran(before != "" && back > 0)
		if before == "" {
			if len(got) != 0 {
				r.fail("suggestions before any text on %s", desc())
			}
			continue
		}
		if vc.n != 1 || vc.pos < 0 || vc.pos > len(vc.q) || vc.q[:vc.pos] != before {
			r.fail("completes %q at offset %d, want the offset after %q, on %s", vc.q, vc.pos, before, desc())
		}
		if len(got) != len(vc.out) {
			r.fail("%d of %d suggestions on %s", len(got), len(vc.out), desc())
			continue
		}
		for k, s := range got {
			if s.Text != vc.out[k].GetValue() || s.Description != vc.out[k].GetDetail() {
				r.fail("suggestion %+v on %s", s, desc())
			}
		}
		r.sample("%s", desc())
	}
}
