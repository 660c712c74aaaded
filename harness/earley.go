package earley

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/prometheus/prometheus/promql/parser"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
)

// ---- grammars

type vsym struct {
	nt   bool
	name string
	sub  string // terminals only: second kind that matches
}
type vrule struct {
	left  string
	right []vsym
}

type vitem struct{ rule, pos, origin int }

// vderive computes the item sets by closure, ignoring order.
func vderive(rules []vrule, root string, toks []string) []map[vitem]bool {
	s := make([]map[vitem]bool, len(toks)+1)
	for i := range s {
		s[i] = map[vitem]bool{}
	}
	for i, r := range rules {
		if r.left == root {
			s[0][vitem{i, 0, 0}] = true
		}
	}
	for k := range toks {
		for changed := true; changed; {
			changed = false
			add := func(it vitem) {
				if !s[k][it] {
					s[k][it] = true
					changed = true
				}
			}
			var all []vitem
			for it := range s[k] {
				all = append(all, it)
			}
			for _, it := range all {
				rl := rules[it.rule]
				if it.pos == len(rl.right) {
					var from []vitem
					for p := range s[it.origin] {
						from = append(from, p)
					}
					for _, p := range from {
						pr := rules[p.rule]
						if p.pos < len(pr.right) && pr.right[p.pos].nt && pr.right[p.pos].name == rl.left {
							add(vitem{p.rule, p.pos + 1, p.origin})
						}
					}
				} else if rl.right[it.pos].nt {
					for i, r := range rules {
						if r.left == rl.right[it.pos].name {
							add(vitem{i, 0, k})
						}
					}
				} else if y := rl.right[it.pos]; y.name == toks[k] || y.sub != "" && y.sub == toks[k] {
					s[k+1][vitem{it.rule, it.pos + 1, it.origin}] = true
				}
			}
		}
	}
	return s
}

func vitems(s map[vitem]bool) string {
	var o []string
	for it := range s {
		o = append(o, fmt.Sprintf("%d@%d<%d", it.rule, it.pos, it.origin))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func TestVerif_C29(t *testing.T) {
	r := vstart(t)
	defer r.done()
	nts := []string{"P", "S", "M", "T"}
	ts := []string{"a", "b", "+", "*"}
	for i, long := 0, false; !long; i++ {
		long = !r.more(i, 6000)
		nnt := 1 + r.rnd.Intn(4)
		var rules []vrule
		desc := ""
		for k := 1 + r.rnd.Intn(8); k > 0; k-- {
			rl := vrule{left: nts[r.rnd.Intn(nnt)]}
			if len(rules) == 0 {
				rl.left = "P"
			}
			for n := 1 + r.rnd.Intn(4); n > 0; n-- {
				if r.rnd.Intn(2) == 0 {
					rl.right = append(rl.right, vsym{true, nts[r.rnd.Intn(nnt)], ""})
				} else {
					y := vsym{false, ts[r.rnd.Intn(4)], ""}
					if r.rnd.Intn(4) == 0 {
						y.sub = ts[r.rnd.Intn(4)]
					}
					rl.right = append(rl.right, y)
				}
			}
			rules = append(rules, rl)
			desc += rl.left + "->"
			for _, s := range rl.right {
				desc += s.name
				if s.sub != "" {
					desc += "(" + s.sub + ")"
				}
			}
			desc += " "
		}
		n0 := r.rnd.Intn(9)
		if long {
			// a long rule, and a query that reaches beyond it
			n0 = 264
			rl := vrule{left: "P"}
			for n := 262; n > 0; n-- {
				rl.right = append(rl.right, vsym{false, "a", ""})
			}
			nt := func(n string) vsym { return vsym{true, n, ""} }
			te := func(n string) vsym { return vsym{false, n, ""} }
			rules = []vrule{rl, {"P", []vsym{nt("S"), nt("P")}}, {"P", []vsym{te("b")}}, {"S", []vsym{nt("M"), te("b")}}, {"M", []vsym{nt("M"), te("a")}}, {"M", []vsym{te("a")}}}
			desc = fmt.Sprint("long rule and query ", rules[1:], " ")
		}
		var toks []string
		var tk Tokens
		// tokens: random, or walked along what the grammar allows
		for n := n0; n > 0; n-- {
			x := ts[r.rnd.Intn(4)]
			if long {
				x = "a"
				if n == n0-255 || n == 5 {
					x = "b"
				}
			} else if r.rnd.Intn(6) > 0 {
				set := vderive(rules, "P", append(append([]string{}, toks...), "?"))[len(toks)]
				var ok []string
				for it := range set {
					if rl := rules[it.rule]; it.pos < len(rl.right) && !rl.right[it.pos].nt {
						ok = append(ok, rl.right[it.pos].name)
					}
				}
				sort.Strings(ok)
				if len(ok) > 0 {
					x = ok[r.rnd.Intn(len(ok))]
				}
			}
			toks = append(toks, x)
			tk = append(tk, Tokhan{Type: TokenType(x), Val: x, StartPos: len(toks), EndPos: len(toks) + 1})
		}
		desc += "on " + strings.Join(toks, " ")
		var gr []*GrammarRule
		for _, rl := range rules {
			var right []Symbol
			for _, s := range rl.right {
				if s.nt {
					right = append(right, NewNonTerminal(s.name, s.name == "P"))
				} else {
					if s.sub != "" {
						right = append(right, NewTerminalWithSubType(TokenType(s.name), TokenType(s.sub)))
					} else {
						right = append(right, NewTerminal(TokenType(s.name)))
					}
				}
			}
			gr = append(gr, NewRule(NewNonTerminal(rl.left, rl.left == "P"), right...))
		}
		var chart *earleyChart
		p := NewEarleyParser(*NewGrammar(gr...))
		if !r.timed(func() string { return desc }, func() { chart = p.ParseTokens(tk) }) {
			continue
		}
		want := vderive(rules, "P", toks)
		r.ran(len(toks) > 2)
		if len(toks) > 0 && chart.Length() < len(want) {
			r.fail("%d state sets for %d tokens: %s", chart.Length(), len(toks), desc)
			continue
		}
		for k := range want {
			if k >= chart.Length() {
				break
			}
			got := map[vitem]bool{}
			for _, it := range chart.GetState(k).GetStates() {
				x := vitem{-1, it.RulePos, it.originatingIndex}
				for j, g := range gr {
					if g == it.Rule {
						x.rule = j
					}
				}
				if got[x] {
					r.fail("state %v recorded twice in set %d: %s", x, k, desc)
				}
				got[x] = true
			}
			if vitems(got) != vitems(want[k]) {
				r.fail("set %d holds [%s], want [%s] (rule@dot<origin): %s", k, vitems(got), vitems(want[k]), desc)
			}
		}
		r.sample("%s: %d states", desc, len(want[len(want)-1]))
	}
	// distinct states are never confused (a state is a rule, a dot and an origin)
	seen := map[uint64]vitem{}
	for i := 0; i < 20000; i++ {
		lim := []int{3, 300, 20000}[i%3]
		x := vitem{r.rnd.Intn(lim), r.rnd.Intn(lim), r.rnd.Intn(lim)}
		h := (&EarleyItem{Rule: &GrammarRule{grammarRuleId: x.rule}, RulePos: x.pos, originatingIndex: x.origin}).badhash()
		if y, ok := seen[h]; ok && x != y {
			r.fail("states %v and %v are confused", x, y)
			break
		}
		seen[h] = x
	}
}

// ---- queries

var vpieces = []string{"sum", "sum(", "metric_a", "m", "m{", "a=", "a=~", "a!=", "'x'", "\"v\"", "'", "\"", "`", "}", "{", ")", "(", "by (", "without(", " ", "  ", "+", "-", "==", "<=", "5", "5m", "[5m", "[5m:", ":1m]", "]", "[", ",", "offset ", "offset 5m", "bool ", "and ", "or ", "unless", "on(", "group_left", "rate(", "time()", "scalar(", "é", "日", "#c\n", "\n", "@", "start", "1e5", ".", "0x1", "\\", "~", "!", "=", "time", "rate", ":", "a:b", "\xff", "foo", "foo{bar='x'}", "SUM", "topk(3,", "$", "$$", "{a='x'", "^", "%", "group(", "inf", "\\n"}

func (r *vrun) query() string {
	s := ""
	for n := r.rnd.Intn(8); n > 0; n-- {
		s += vpieces[r.rnd.Intn(len(vpieces))]
	}
	return s
}

// edit changes a query the way a user does.
func (r *vrun) edit(q string) string {
	switch r.rnd.Intn(6) {
	case 0:
		return r.query()
	case 1:
		if len(q) > 0 {
			return q[:r.rnd.Intn(len(q))]
		}
		return ""
	case 2:
		if len(q) > 0 {
			k := r.rnd.Intn(len(q))
			return q[:k] + vpieces[r.rnd.Intn(len(vpieces))] + q[k:]
		}
	case 3:
		if len(q) > 1 {
			k := r.rnd.Intn(len(q) - 1)
			return q[:k] + q[k+1:]
		}
	}
	return q + vpieces[r.rnd.Intn(len(vpieces))]
}

func vsugg(a []ContextualToken) string {
	s := ""
	for _, x := range a {
		s += string(x.TokenType)
		if c := x.ctx; c != nil {
			if c.metric != nil {
				s += "/m=" + *c.metric
			}
			if c.metricLabel != nil {
				s += "/l=" + *c.metricLabel
			}
			s += fmt.Sprintf("/v=%v", c.metricLabelValues.List())
		}
		s += "; "
	}
	return s
}

func TestVerif_C30(t *testing.T) {
	r := vstart(t)
	defer r.done()
	for i := 0; r.more(i, 4000); i++ {
		p := NewEarleyParser(*promQLGrammar)
		q := r.query()
		var log []string
		for k := 1 + r.rnd.Intn(6); k > 0; k-- {
			log = append(log, q)
			desc := func() string { return fmt.Sprintf("queries %q", log) }
			var got, want []ContextualToken
			if !r.timed(desc, func() {
				got = p.GetSuggestedTokenType(extractWords(q))
				want = NewEarleyParser(*promQLGrammar).GetSuggestedTokenType(extractWords(q))
			}) {
				break
			}
			r.ran(len(log) > 1 && len(want) > 0)
			if vsugg(got) != vsugg(want) {
				r.fail("reused parser suggests [%s], a fresh one [%s], on %s", vsugg(got), vsugg(want), desc())
				break
			}
			q = r.edit(q)
		}
		r.sample("%q", log)
	}
}

// vkind: the kind of a lexical item, from the lexer's own classes.
func vkind(it parser.Item) TokenType {
	switch it.Typ {
	case parser.BY, parser.WITHOUT:
		return AGGR_KW
	case parser.OFFSET:
		return OFFSET_KW
	case parser.BOOL:
		return BOOL_KW
	case parser.GROUP_LEFT, parser.GROUP_RIGHT:
		return GROUP_SIDE
	case parser.IGNORING, parser.ON:
		return GROUP_KW
	case parser.EOF:
		return EOF
	case parser.STRING:
		return STRING
	case parser.METRIC_IDENTIFIER:
		return METRIC_ID
	case parser.LEFT_BRACE:
		return LEFT_BRACE
	case parser.RIGHT_BRACE:
		return RIGHT_BRACE
	case parser.LEFT_PAREN:
		return LEFT_PAREN
	case parser.RIGHT_PAREN:
		return RIGHT_PAREN
	case parser.LEFT_BRACKET:
		return LEFT_BRACKET
	case parser.RIGHT_BRACKET:
		return RIGHT_BRACKET
	case parser.DURATION:
		return DURATION
	case parser.ADD, parser.SUB, parser.MUL, parser.DIV, parser.MOD, parser.POW:
		return ARITHMETIC
	case parser.COMMA:
		return COMMA
	case parser.COLON:
		return COLON
	case parser.NUMBER:
		return NUM
	case parser.IDENTIFIER:
		if it.Val == "time" || it.Val == "scalar" {
			return FUNCTION_SCALAR_ID
		}
		if _, ok := vectorFunctions[it.Val]; ok {
			return FUNCTION_VECTOR_ID
		}
		return ID
	}
	switch {
	case it.Typ.IsAggregator():
		return AGGR_OP
	case it.Typ.IsSetOperator():
		return SET
	case it.Typ.IsOperator(), it.Typ == parser.EQL:
		return OPERATOR
	}
	return UNKNOWN
}

func vlex(q string, base int) (out Tokens) {
	l := parser.Lex(q[base:])
	for n := 0; ; n++ {
		var it parser.Item
		l.NextItem(&it)
		if it.Typ == parser.ERROR {
			if n == 0 {
				return
			}
			return append(out, vlex(q, base+int(it.Pos))...)
		}
		out = append(out, Tokhan{Val: it.Val, ItemType: it.Typ, Type: vkind(it), StartPos: base + int(it.Pos), EndPos: base + int(it.Pos) + len(it.Val)})
		if it.Typ == parser.EOF {
			return
		}
	}
}

func TestVerif_C31(t *testing.T) {
	r := vstart(t)
	defer r.done()
	check := func(q string) {
		desc := func() string { return fmt.Sprintf("query %q", q) }
		var got Tokens
		if !r.timed(desc, func() { got = extractWords(q) }) {
			return
		}
		want := vlex(q, 0)
		r.ran(len(got) > 2)
		if len(got) != len(want) {
			r.fail("tokens %q want %q on %s", got.Vals(), want.Vals(), desc())
			return
		}
		end := 0
		for k, g := range got {
			w := want[k]
			if g.Val != w.Val || g.Type != w.Type || g.ItemType != w.ItemType || g.StartPos != w.StartPos || g.EndPos != w.EndPos {
				r.fail("token %d is %v %d, want %v %d on %s", k, g, g.ItemType, w, w.ItemType, desc())
				return
			}
			if g.StartPos < end || g.EndPos > len(q) || q[g.StartPos:g.EndPos] != g.Val {
				r.fail("token %v is not the text at its offsets on %s", g, desc())
				return
			}
			end = g.EndPos
		}
		r.sample("%s -> %q", desc(), got.Vals())
	}
	for _, a := range vpieces {
		check(a)
		for _, b := range vpieces {
			if r.fails > 4 {
				return
			}
			check("m" + a + " " + b)
		}
	}
	for _, m := range tokenTypeMatching {
		for k := range m {
			for _, k := range []string{k, strings.ToUpper(k), strings.Title(k)} {
				check(k)
				check("x " + k + "(y)")
				check("{" + k + "='1'}")
			}
		}
	}
	for i := 0; r.more(i, 40000); i++ {
		check(r.query())
	}
}

// ---- completion

type vindex map[string]map[string][]string

func (x vindex) GetMetricNames() sets.String {
	o := sets.NewString()
	for k := range x {
		o.Insert(k)
	}
	return o
}
func (x vindex) GetStoredDimensionsForMetric(m string) sets.String {
	o := sets.NewString()
	for k := range x[m] {
		o.Insert(k)
	}
	return o
}
func (x vindex) GetStoredValuesForMetricAndDimension(m, l string) sets.String {
	return sets.NewString(x[m][l]...)
}

func vprefix(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if strings.IndexByte(" []{}()+-*/%^=!><~,", s[i]) >= 0 {
			return s[i+1:]
		}
	}
	return s
}

func TestVerif_C32(t *testing.T) {
	r := vstart(t)
	defer r.done()
	idx := vindex{
		"metric_a": {"dim_a": {"1", "two", "é"}, "dim_b": {"x", "日本"}},
		"metric_b": {"dim_b": {"only_b"}, "other": {"o\"q"}},
		"m":        {"a": {"v", "vv", "w"}},
		"foo":      {"bar": {"x"}},
		"sum_all":  {},
	}
	c := NewPromQLCompleter(idx)
	kinds := map[string]bool{}
	for _, tt := range tokenTypes {
		kinds[string(tt)] = true
	}
	anyLabel := func(v string) bool {
		for _, ls := range idx {
			if _, ok := ls[v]; ok {
				return true
			}
		}
		return false
	}
	anyValue := func(v string) bool {
		for _, ls := range idx {
			for _, vs := range ls {
				for _, x := range vs {
					if strconv.Quote(x) == v {
						return true
					}
				}
			}
		}
		return false
	}
	at := func(q string, pos int) ([]string, bool) {
		desc := func() string { return fmt.Sprintf("query %q cursor %d", q, pos) }
		var vals []string
		ok := r.timed(desc, func() {
			for _, m := range c.GenerateSuggestions(q, pos) {
				v := m.GetValue()
				vals = append(vals, v)
				switch k := m.GetKind(); {
				case k == "time-unit":
					continue
				case k == "metric-id":
					if _, ok := idx[v]; !ok && !anyValue(v) {
						r.fail("suggests %q, neither a metric nor a value, on %s", v, desc())
					}
				case k == "metric-label":
					if !anyLabel(v) {
						r.fail("suggests label %q, which is not stored, on %s", v, desc())
					}
				case kinds[k]:
					if _, ok := tokenTypeMatching[TokenType(k)][v]; !ok {
						r.fail("suggests %q as %s on %s", v, k, desc())
					}
				default:
					r.fail("suggestion %q of kind %q on %s", v, k, desc())
				}
				if !strings.HasPrefix(v, vprefix(q[:pos])) {
					r.fail("suggests %q (%s), which does not continue %q, on %s", v, m.GetKind(), vprefix(q[:pos]), desc())
				}
			}
		})
		sort.Strings(vals)
		r.ran(len(vals) > 0)
		return vals, ok
	}
	exact := func(q string, want ...string) {
		got, ok := at(q, len(q))
		sort.Strings(want)
		if ok && strings.Join(got, " ") != strings.Join(want, " ") {
			r.fail("suggests %q want %q on query %q", got, want, q)
		}
		r.sample("%q -> %q", q, got)
	}
	scripted := func() {
		for m, ls := range idx {
			var labels []string
			for l := range ls {
				labels = append(labels, l)
			}
			exact(m+"{", labels...)
			exact("sum("+m+"{", labels...)
			exact("sum("+m+") by (", labels...)
			for l, vs := range ls {
				var q []string
				for _, v := range vs {
					q = append(q, strconv.Quote(v))
				}
				exact(m+"{"+l+"=", q...)
				exact("rate("+m+"{"+l+"!=", q...)
				exact("1 + "+m+"{"+l+"=", q...)
				exact(m+"{"+l+"=\"", q...)
				exact(m+"{"+l[:1], vfilter(labels, l[:1])...)
				exact(m+"{"+l+"="+strconv.Quote(vs[0])+",", labels...)
				exact(m+"{"+l+"="+strconv.Quote(vs[0])[:2], vfilter(q, strconv.Quote(vs[0])[:2])...)
				for l2, vs2 := range ls {
					var q2 []string
					for _, v := range vs2 {
						q2 = append(q2, strconv.Quote(v))
					}
					exact(m+"{"+l+"="+strconv.Quote(vs[0])+","+l2+"=", q2...)
				}
			}
		}
	}
	// the contracts assume of the grammar: rules are not empty, and no query begins with a string or a label
	starts := map[Symbol]bool{}
	for more := true; more; {
		more = false
		for _, g := range promQLGrammar.rules {
			if g.left.isRoot() && !starts[g.left] {
				starts[g.left], more = true, true
			}
			if len(g.right) == 0 {
				r.fail("grammar rule %s is empty", g)
				return
			}
			if first := g.right[0]; starts[g.left] && !first.isTerminal() && !starts[first] {
				starts[first], more = true, true
			}
		}
	}
	for i, g := range promQLGrammar.rules {
		if g.grammarRuleId != i {
			r.fail("grammar rule %d has number %d", i, g.grammarRuleId)
		}
		if first := g.right[0]; starts[g.left] && first.isTerminal() && (*first.getType() == STRING || *first.getType() == METRIC_LABEL_SUBTYPE) {
			r.fail("a query can begin with %s", first)
		}
	}
	scripted()
	for i := 0; r.more(i, 1500); i++ {
		q := r.query()
		for pos := 0; pos <= len(q); pos++ {
			if pos == len(q) || utf8.RuneStart(q[pos]) {
				at(q, pos)
			}
		}
		if i%500 == 100 {
			scripted()
		}
	}
}

func vfilter(a []string, p string) (o []string) {
	for _, x := range a {
		if strings.HasPrefix(x, p) {
			o = append(o, x)
		}
	}
	return
}

// ---- contexts

type vctx struct {
	m, l *string
	v    map[string]bool
}

func (x vctx) same(c *completionContext) bool {
	str := func(a, b *string) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
	if !str(x.m, c.metric) || !str(x.l, c.metricLabel) || len(x.v) != len(c.metricLabelValues) || len(c.GetUsedMetricLabelValues()) != len(x.v) {
		return false
	}
	for k := range x.v {
		if !c.metricLabelValues.Has(k) {
			return false
		}
	}
	if c.HasMetric() != (x.m != nil) || c.HasMetricLabel() != (x.l != nil) {
		return false
	}
	return (x.m == nil || c.GetMetric() == *x.m) && (x.l == nil || c.GetMetricLabel() == *x.l)
}

func TestVerif_C33(t *testing.T) {
	r := vstart(t)
	defer r.done()
	if Copy(nil) != nil {
		r.fail("the copy of no context is a context")
	}
	for i := 0; r.more(i, 20000); i++ {
		cs := []*completionContext{{}}
		ms := []vctx{{v: map[string]bool{}}}
		log := ""
		for k := 1 + r.rnd.Intn(14); k > 0; k-- {
			j := r.rnd.Intn(len(cs))
			val := []string{"a", "b", "c", ""}[r.rnd.Intn(4)]
			if r.rnd.Intn(3) == 0 {
				log += fmt.Sprintf("; copy %d to %d", j, len(cs))
				cs = append(cs, Copy(cs[j]))
				n := vctx{m: ms[j].m, l: ms[j].l, v: map[string]bool{}}
				for x := range ms[j].v {
					n.v[x] = true
				}
				ms = append(ms, n)
			} else {
				tt := []TokenType{METRIC_ID, METRIC_LABEL_SUBTYPE, STRING, STRING, ID, EOF}[r.rnd.Intn(6)]
				log += fmt.Sprintf("; record %s %q in %d", tt, val, j)
				tok := Tokhan{Val: val}
				r.try(func() string { return log }, func() { cs[j].BuildContext(&tt, &tok) })
				tok.Val = "changed later"
				v := val
				switch tt {
				case METRIC_ID:
					ms[j].m = &v
				case METRIC_LABEL_SUBTYPE:
					ms[j].l = &v
				case STRING:
					ms[j].v[v] = true
				}
			}
			for j := range cs {
				if !ms[j].same(cs[j]) {
					r.fail("context %d holds metric %v label %v values %v after %s", j, cs[j].metric, cs[j].metricLabel, cs[j].metricLabelValues.List(), log)
					k = 0
					break
				}
			}
		}
		r.ran(len(cs) > 1)
		r.sample("%s", log)
	}
	// no two states of a chart share a context, and parsing a longer query
	// leaves the contexts of earlier states alone
	for i := 0; r.more(i, 300); i++ {
		q := r.query()
		p := NewEarleyParser(*promQLGrammar)
		chart := p.Parse(q)
		seen := map[*completionContext]bool{}
		vals := map[uintptr]bool{}
		for _, s := range chart.States() {
			for _, it := range s.items {
				if it.ctx == nil {
					continue
				}
				if seen[it.ctx] {
					r.fail("two states share a context on query %q", q)
				}
				seen[it.ctx] = true
				if m := it.ctx.metricLabelValues; m != nil {
					p := reflect.ValueOf(m).Pointer()
					if vals[p] {
						r.fail("two states share their used values on query %q", q)
					}
					vals[p] = true
				}
			}
		}
		r.ran(len(vals) > 1)
	}
}
