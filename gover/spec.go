package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---------- expression AST ----------

type Ex struct {
	Op   string // ident,int,str,real,call,index,slice,field,un,bin,forall,exists,old,cond,paren,let,update
	S    string
	Args []*Ex
	Vars []BVar
	Trig [][]*Ex
	Src  string
}

// subst replaces identifiers by expressions (abbreviations of a contract).
func (e *Ex) subst(m map[string]*Ex) *Ex {
	if e == nil || len(m) == 0 {
		return e
	}
	if e.Op == "ident" {
		if r, ok := m[e.S]; ok {
			return r
		}
		return e
	}
	n := *e
	n.Args = make([]*Ex, len(e.Args))
	for i, a := range e.Args {
		n.Args[i] = a.subst(m)
	}
	n.Trig = nil
	for _, t := range e.Trig {
		var l []*Ex
		for _, x := range t {
			l = append(l, x.subst(m))
		}
		n.Trig = append(n.Trig, l)
	}
	return &n
}

type BVar struct{ Name, Type string }

type tok struct {
	k   string // id,int,real,str,op,eof
	s   string
	pos int
}

func lexSpec(src string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "{", "}", "(", ")", "[", "]", "<", ">", "+", "-", "*", "/", "%", "!", ".", ",", "?", ":", "@", "$", "&", "|", "#"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{"str", src[i : j+1], i})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{"char", src[i : j+1], i})
			i = j + 1
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x")) {
				j++
			}
			k := "int"
			if j+1 < len(src) && src[j] == '.' && unicode.IsDigit(rune(src[j+1])) {
				k = "real"
				j++
				for j < len(src) && unicode.IsDigit(rune(src[j])) {
					j++
				}
			}
			out = append(out, tok{k, src[i:j], i})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, i})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("spec: bad character %q in %q", c, src))
			}
		}
	}
	return append(out, tok{"eof", "", len(src)})
}

type exParser struct {
	t   []tok
	i   int
	src string
}

func ParseEx(src string) (e *Ex, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in spec expression %q", r, src)
		}
	}()
	p := &exParser{t: lexSpec(src), src: src}
	e = p.expr(0)
	if p.cur().k != "eof" {
		panic(fmt.Sprintf("unexpected %q", p.cur().s))
	}
	e.Src = src
	return e, nil
}
func (p *exParser) cur() tok { return p.t[p.i] }
func (p *exParser) is(s string) bool {
	return (p.cur().k == "op" || p.cur().k == "id") && p.cur().s == s
}
func (p *exParser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *exParser) want(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, found %q", s, p.cur().s))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *exParser) typeName() string {
	var b strings.Builder
	depth := 0
	for {
		t := p.cur()
		if t.k == "eof" {
			break
		}
		if depth == 0 && (t.s == "," || t.s == "::" || t.s == "{" || t.s == ")" || t.s == "=") {
			break
		}
		if t.s == "[" || t.s == "(" {
			depth++
		}
		if t.s == "]" || t.s == ")" {
			depth--
		}
		b.WriteString(t.s)
		p.i++
	}
	return b.String()
}

func (p *exParser) expr(min int) *Ex {
	if p.is("forall") || p.is("exists") {
		op := p.cur().s
		p.i++
		e := &Ex{Op: op}
		var pend []string
		for {
			pend = append(pend, p.cur().s)
			p.i++
			if p.accept(",") {
				continue
			}
			ty := p.typeName()
			for _, n := range pend {
				e.Vars = append(e.Vars, BVar{n, ty})
			}
			pend = nil
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Ex
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.want("}")
			e.Trig = append(e.Trig, tr)
		}
		p.want("::")
		e.Args = []*Ex{p.expr(0)}
		return e
	}
	if p.is("let") {
		p.i++
		n := p.cur().s
		p.i++
		p.want(":=")
		v := p.expr(3)
		p.want("::")
		b := p.expr(0)
		return &Ex{Op: "let", S: n, Args: []*Ex{v, b}}
	}
	l := p.unary()
	for {
		t := p.cur()
		if t.k == "op" && t.s == "?" && min <= 3 {
			p.i++
			a := p.expr(3)
			p.want(":")
			b := p.expr(3)
			l = &Ex{Op: "cond", Args: []*Ex{l, a, b}}
			continue
		}
		pr, ok := prec[t.s]
		if !ok || (t.k != "op" && t.s != "in") || pr < min || pr == 0 {
			return l
		}
		p.i++
		var r *Ex
		if t.s == "==>" {
			r = p.expr(pr) // right assoc
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparison
		if pr == 6 && l.Op == "chain" {
			last := l.Args[len(l.Args)-1]
			l = &Ex{Op: "chain", Args: append(append([]*Ex{}, l.Args...), &Ex{Op: "bin", S: t.s, Args: []*Ex{last.Args[1], r}})}
			continue
		}
		b := &Ex{Op: "bin", S: t.s, Args: []*Ex{l, r}}
		if pr == 6 {
			l = &Ex{Op: "chain", Args: []*Ex{b}}
		} else {
			l = b
		}
	}
}

func (p *exParser) unary() *Ex {
	if p.accept("!") {
		return &Ex{Op: "un", S: "!", Args: []*Ex{p.unary()}}
	}
	if p.accept("-") {
		return &Ex{Op: "un", S: "-", Args: []*Ex{p.unary()}}
	}
	if p.accept("*") {
		return &Ex{Op: "un", S: "*", Args: []*Ex{p.unary()}}
	}
	if p.accept("&") {
		return &Ex{Op: "un", S: "&", Args: []*Ex{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *exParser) primary() *Ex {
	t := p.cur()
	switch t.k {
	case "int":
		p.i++
		return &Ex{Op: "int", S: t.s}
	case "real":
		p.i++
		return &Ex{Op: "real", S: t.s}
	case "str":
		p.i++
		return &Ex{Op: "str", S: t.s}
	case "char":
		p.i++
		return &Ex{Op: "char", S: t.s}
	case "id":
		if t.s == "forall" || t.s == "exists" || t.s == "let" {
			return p.expr(0)
		}
		if t.s == "map" && p.i+1 < len(p.t) && p.t[p.i+1].s == "[" {
			return &Ex{Op: "ident", S: p.typeName()}
		}
		p.i++
		return &Ex{Op: "ident", S: t.s}
	case "op":
		if t.s == "[" {
			return &Ex{Op: "ident", S: p.typeName()}
		}
		if t.s == "(" {
			p.i++
			e := p.expr(0)
			p.want(")")
			return &Ex{Op: "paren", Args: []*Ex{e}}
		}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func (p *exParser) postfix(e *Ex) *Ex {
	for {
		switch {
		case p.accept("."):
			n := p.cur().s
			if p.cur().k == "op" && n == "(" { // type assertion x.(T)
				p.i++
				ty := p.typeName()
				p.want(")")
				e = &Ex{Op: "assert", S: ty, Args: []*Ex{e}}
				continue
			}
			p.i++
			e = &Ex{Op: "field", S: n, Args: []*Ex{e}}
		case p.accept("["):
			a := p.expr(0)
			if p.accept(":=") {
				b := p.expr(0)
				p.want("]")
				e = &Ex{Op: "update", Args: []*Ex{e, a, b}}
				continue
			}
			if p.accept(":") { // piece of a string
				x := &Ex{Op: "substr", Args: []*Ex{e, a}}
				if !p.is("]") {
					x.Args = append(x.Args, p.expr(0))
				}
				p.want("]")
				e = x
				continue
			}
			p.want("]")
			e = &Ex{Op: "index", Args: []*Ex{e, a}}
		case p.is("(") && (e.Op == "ident" || e.Op == "field"):
			p.i++
			c := &Ex{Op: "call", S: e.S}
			if e.Op == "field" {
				c.Op = "mcall"
				c.Args = append(c.Args, e.Args[0])
			}
			if !p.accept(")") {
				for {
					c.Args = append(c.Args, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.want(")")
			}
			e = c
		default:
			return e
		}
	}
}

// ---------- spec files ----------

type Clause struct {
	Kind    string
	Props   []string // empty: every property
	Text    string
	E       *Ex
	Name    string
	Where   string
	Without []string // hypotheses that mention these names are left out of the obligation
}

type LoopSpec struct {
	Inv     []Clause
	Dec     []Clause
	Use     []Clause // lemma hints (evaluated at loop head and back edges)
	UseExit []Clause // lemma hints at every edge out of the loop
}

type FuncSpec struct {
	Key         string
	Pkg         string
	Header      string
	Recv        string
	Params      []string
	Results     []string
	Props       []string
	Extern      bool
	Pure        bool
	Inline      bool
	Nilable     bool
	Trusted     string
	Requires    []Clause
	Ensures     []Clause
	Modifies    []Clause
	Loops       map[string]*LoopSpec
	OnCall      []Clause // S = callee, expr over args
	Ghost       []Clause
	Uses        []Clause
	Allows      bool // may panic when
	PanicIf     []Clause
	Imports     map[string]string
	File        string
	Bounds      string
	Helper      bool
	Separate    bool // verified by the checks of its own properties only
	ModAll      bool
	Traced      string
	InlineCalls map[string]bool
	PureCB      map[string]bool
	Opaque      []string
	Closures    []*ClosureSpec
}

// ClosureSpec states what calls of the function values a function returns do:
// for all arguments, the calls have no effect and their results satisfy E.
type ClosureSpec struct {
	Calls []ClosureCall
	Uses  []Clause
	Clause
}
type ClosureCall struct {
	Res    string   // the result holding the function
	Params []string // fresh arguments
	Out    string
}

type PredSpec struct {
	Name    string
	Params  []BVar
	Ret     string
	Body    *Ex
	Pkg     string
	Imports map[string]string
	Rec     bool
}

type LemmaSpec struct {
	Name     string
	Params   []BVar
	Requires []Clause
	Ensures  []Clause
	Induct   string
	Uses     []Clause
	Pkg      string
	Imports  map[string]string
	Props    []string
	Axiom    bool
	Trig     [][]*Ex
	Auto     bool
	Ord      int
	Opaque   []string
}

type GhostField struct {
	TypeName, Name, Sort string
	Pkg                  string
	Imports              map[string]string
}
type GuardSpec struct {
	Type, Field, Mutex, Pkg string
	Imports                 map[string]string
}

// ChanSpec: sends on and receives from channels of an element type are recorded
// in the traces NAME_send and NAME_recv; Inv holds of every value sent.
type ChanSpec struct {
	Elem, Name, Pkg string
	Imports         map[string]string
	Inv             Clause
	T               types.Type
}

type Specs struct {
	Chans       []*ChanSpec
	Funcs       map[string]*FuncSpec
	Preds       map[string]*PredSpec
	Lemmas      map[string]*LemmaSpec
	Axioms      []*LemmaSpec
	Raw         []RawSMT
	UFs         map[string]*PredSpec
	Ghosts      []GhostField
	Guards      []GuardSpec
	GTrusts     []string
	Transparent []string
	Order       []string
}
type RawSMT struct {
	Props []string
	Text  string
}

var clauseKw = map[string]bool{"requires": true, "assert": true, "ensures": true, "invariant": true, "modifies": true, "loop": true, "props": true, "trusted": true, "inline": true, "nilable": true, "pure": true, "oncall": true, "use": true, "panics": true, "func": true, "extern": true, "pred": true, "lemma": true, "axiom": true, "function": true, "ghost": true, "package": true, "import": true, "guard": true, "useexit": true, "channel": true, "induction": true, "smt": true, "endsmt": true, "transparent": true, "helper": true, "separate": true, "auto": true, "trigger": true, "modifiesall": true, "note": true, "recpred": true, "traced": true, "inlinecall": true, "purecb": true, "closure": true, "decreases": true, "bounded": true, "opaque": true, "define": true}

// "... without a, b" at the end of a clause
var withoutRe = regexp.MustCompile(`\s+without\s+([\w, ]+)$`)

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Funcs: map[string]*FuncSpec{}, Preds: map[string]*PredSpec{}, Lemmas: map[string]*LemmaSpec{}, UFs: map[string]*PredSpec{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return sp, nil
}

func splitProps(kw string) (string, []string) {
	if i := strings.Index(kw, "["); i >= 0 && strings.HasSuffix(kw, "]") {
		return kw[:i], strings.Split(kw[i+1:len(kw)-1], ",")
	}
	return kw, nil
}

func firstWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func (sp *Specs) load(file string) error {
	raw, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, rest string
		props    []string
		line     int
	}
	var items []item
	insmt := false
	for n, line := range strings.Split(string(raw), "\n") {
		if insmt {
			if strings.TrimSpace(line) == "endsmt" {
				insmt = false
				continue
			}
			items[len(items)-1].rest += "\n" + line
			continue
		}
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		w, rest := firstWord(line)
		kw, props := splitProps(w)
		if clauseKw[kw] {
			items = append(items, item{kw, rest, props, n + 1})
			if kw == "smt" {
				insmt = true
			}
			continue
		}
		if len(items) == 0 {
			return fmt.Errorf("line %d: unexpected text", n+1)
		}
		items[len(items)-1].rest += " " + strings.TrimSpace(line)
	}
	pkg := ""
	imports := map[string]string{}
	var fn *FuncSpec
	var loop *LoopSpec
	var lem *LemmaSpec
	var clo *ClosureSpec
	defs := map[string]*Ex{}
	ex := func(it item) (*Ex, error) {
		e, err := ParseEx(it.rest)
		if err != nil {
			return nil, fmt.Errorf("line %d: %w", it.line, err)
		}
		return e.subst(defs), nil
	}
	for _, it := range items {
		where := fmt.Sprintf("%s:%d", filepath.Base(file), it.line)
		if it.kw != "use" {
			clo = nil
		}
		switch it.kw {
		case "closure": // closure f(x) a, g(y) b :: expression
			i := strings.Index(it.rest, "::")
			if i < 0 {
				return fmt.Errorf("line %d: closure f(x) a :: expression", it.line)
			}
			e, err := ex(item{rest: it.rest[i+2:], line: it.line})
			if err != nil {
				return err
			}
			clo = &ClosureSpec{Clause: Clause{Kind: "closure", Props: it.props, Text: it.rest, E: e, Where: where}}
			for _, c := range splitTop(it.rest[:i]) {
				o, cl := strings.Index(c, "("), strings.Index(c, ")")
				if o < 0 || cl < o {
					return fmt.Errorf("line %d: closure f(x) a :: expression", it.line)
				}
				cc := ClosureCall{Res: strings.TrimSpace(c[:o]), Out: strings.TrimSpace(c[cl+1:])}
				for _, a := range strings.Split(c[o+1:cl], ",") {
					cc.Params = append(cc.Params, strings.TrimSpace(a))
				}
				clo.Calls = append(clo.Calls, cc)
			}
			fn.Closures = append(fn.Closures, clo)
		case "define": // abbreviation, for the rest of this contract
			i := strings.Index(it.rest, "=")
			if i < 0 {
				return fmt.Errorf("line %d: define name = expression", it.line)
			}
			e, err := ex(item{rest: it.rest[i+1:], line: it.line})
			if err != nil {
				return err
			}
			defs[strings.TrimSpace(it.rest[:i])] = &Ex{Op: "paren", Args: []*Ex{e}, Src: e.Src}
		case "package":
			pkg = it.rest
			imports = map[string]string{}
		case "import":
			a, b := firstWord(it.rest)
			imports[a] = b
		case "note":
		case "transparent":
			sp.Transparent = append(sp.Transparent, it.rest)
		case "func", "extern":
			defs = map[string]*Ex{}
			rest := it.rest
			ext := it.kw == "extern"
			if ext {
				_, rest = firstWord(rest)
			}
			f := &FuncSpec{Pkg: pkg, Extern: ext, Header: rest, Loops: map[string]*LoopSpec{}, InlineCalls: map[string]bool{}, PureCB: map[string]bool{}, Imports: imports, File: where}
			if err := f.parseHeader(rest); err != nil {
				return fmt.Errorf("line %d: %w", it.line, err)
			}
			if _, dup := sp.Funcs[f.Key]; dup {
				return fmt.Errorf("line %d: duplicate contract for %s", it.line, f.Key)
			}
			sp.Funcs[f.Key] = f
			sp.Order = append(sp.Order, f.Key)
			fn, loop, lem = f, nil, nil
		case "props":
			ps := strings.Fields(strings.ReplaceAll(it.rest, ",", " "))
			if lem != nil {
				lem.Props = ps
			} else {
				fn.Props = ps
			}
		case "pure":
			fn.Pure = true
		case "inline":
			fn.Inline = true
		case "separate":
			fn.Separate = true
		case "helper":
			fn.Helper = true
		case "modifiesall":
			fn.ModAll = true
		case "nilable":
			fn.Nilable = true
		case "trusted":
			fn.Trusted = it.rest
		case "traced":
			fn.Traced = it.rest
		case "opaque":
			if lem != nil {
				lem.Opaque = strings.Fields(it.rest)
			} else {
				fn.Opaque = strings.Fields(it.rest)
			}
		case "inlinecall":
			for _, n := range strings.Fields(it.rest) {
				fn.InlineCalls[n] = true
			}
		case "purecb":
			for _, n := range strings.Fields(it.rest) {
				fn.PureCB[n] = true
			}
		case "auto":
			lem.Auto = true
		case "trigger":
			var tr []*Ex
			e, err := ParseEx("T(" + it.rest + ")")
			if err != nil {
				return fmt.Errorf("line %d: %w", it.line, err)
			}
			tr = e.Args
			lem.Trig = append(lem.Trig, tr)
		case "requires", "ensures", "assert", "invariant", "panics", "use", "useexit", "modifies", "decreases":
			if it.kw == "modifies" {
				for _, part := range splitTop(it.rest) {
					c := Clause{Kind: it.kw, Props: it.props, Text: part, Where: where}
					e, err := ParseEx(strings.TrimPrefix(part, "heap "))
					if strings.HasPrefix(part, "heap ") || strings.HasPrefix(part, "ghost ") || strings.HasPrefix(part, "trace ") {
						e, err = nil, nil
					}
					if err != nil {
						return fmt.Errorf("line %d: %w", it.line, err)
					}
					c.E = e
					fn.Modifies = append(fn.Modifies, c)
				}
				continue
			}
			var without []string
			if m := withoutRe.FindStringSubmatchIndex(it.rest); m != nil {
				without = strings.FieldsFunc(it.rest[m[2]:m[3]], func(r rune) bool { return r == ',' || r == ' ' })
				it.rest = it.rest[:m[0]]
			}
			e, err := ex(it)
			if err != nil {
				return err
			}
			c := Clause{Kind: it.kw, Props: it.props, Text: it.rest, E: e, Where: where, Without: without}
			switch {
			case clo != nil && it.kw == "use":
				clo.Uses = append(clo.Uses, c)
			case lem != nil && it.kw == "requires":
				lem.Requires = append(lem.Requires, c)
			case lem != nil && it.kw == "ensures":
				lem.Ensures = append(lem.Ensures, c)
			case lem != nil && it.kw == "use":
				lem.Uses = append(lem.Uses, c)
			case it.kw == "requires":
				fn.Requires = append(fn.Requires, c)
			case it.kw == "ensures":
				fn.Ensures = append(fn.Ensures, c)
			case it.kw == "assert" && loop != nil:
				loop.Inv = append(loop.Inv, c)
			case it.kw == "assert":
				fn.Ensures = append(fn.Ensures, c)
			case it.kw == "invariant":
				if loop == nil {
					return fmt.Errorf("line %d: invariant outside loop", it.line)
				}
				loop.Inv = append(loop.Inv, c)
			case it.kw == "decreases":
				loop.Dec = append(loop.Dec, c)
			case it.kw == "useexit" && loop != nil:
				loop.UseExit = append(loop.UseExit, c)
			case it.kw == "use" && loop != nil:
				loop.Use = append(loop.Use, c)
			case it.kw == "use":
				fn.Uses = append(fn.Uses, c)
			case it.kw == "panics":
				fn.PanicIf = append(fn.PanicIf, c)
			}
		case "oncall":
			w, rest := firstWord(it.rest)
			e, err := ex(item{rest: rest, line: it.line})
			if err != nil {
				return err
			}
			fn.OnCall = append(fn.OnCall, Clause{Kind: "oncall", Props: it.props, Name: w, Text: rest, E: e, Where: where})
		case "loop":
			loop = &LoopSpec{}
			fn.Loops[strings.TrimSpace(it.rest)] = loop
		case "pred", "function", "recpred":
			p := &PredSpec{Pkg: pkg, Imports: imports, Rec: it.kw == "recpred"}
			body := ""
			h := it.rest
			if it.kw != "function" {
				i := strings.Index(h, ":=")
				if i < 0 {
					return fmt.Errorf("line %d: pred without :=", it.line)
				}
				body = h[i+2:]
				h = h[:i]
			}
			i, j := strings.Index(h, "("), strings.LastIndex(h, ")")
			p.Name = strings.TrimSpace(h[:i])
			// find matching close paren for the parameter list
			depth := 0
			for k := i; k < len(h); k++ {
				if h[k] == '(' {
					depth++
				}
				if h[k] == ')' {
					depth--
					if depth == 0 {
						j = k
						break
					}
				}
			}
			p.Params = parseParams(h[i+1 : j])
			p.Ret = strings.TrimSpace(h[j+1:])
			if p.Ret == "" {
				p.Ret = "bool"
			}
			if body != "" {
				e, err := ParseEx(strings.TrimSpace(body))
				if err != nil {
					return fmt.Errorf("line %d: %w", it.line, err)
				}
				p.Body = e
				if p.Rec {
					sp.UFs[p.Name] = p
				} else {
					sp.Preds[p.Name] = p
				}
			} else {
				sp.UFs[p.Name] = p
			}
			fn, loop, lem = nil, nil, nil
		case "lemma", "axiom":
			defs = map[string]*Ex{}
			l := &LemmaSpec{Pkg: pkg, Imports: imports, Axiom: it.kw == "axiom"}
			h := it.rest
			i, j := strings.Index(h, "("), strings.LastIndex(h, ")")
			l.Name = strings.TrimSpace(h[:i])
			l.Params = parseParams(h[i+1 : j])
			lem, fn, loop = l, nil, nil
			if l.Axiom {
				sp.Axioms = append(sp.Axioms, l)
			} else {
				l.Ord = len(sp.Lemmas) + 1
				sp.Lemmas[l.Name] = l
			}
		case "induction":
			lem.Induct = strings.TrimSpace(it.rest)
		case "smt":
			sp.Raw = append(sp.Raw, RawSMT{it.props, it.rest})
		case "ghost":
			f := strings.SplitN(it.rest, " ", 2)
			d := strings.LastIndex(f[0], ".")
			sp.Ghosts = append(sp.Ghosts, GhostField{f[0][:d], f[0][d+1:], strings.TrimSpace(f[1]), pkg, imports})
		case "channel":
			// channel NAME ELEMTYPE :: invariant of a value v sent
			n, rest := firstWord(it.rest)
			i := strings.Index(rest, "::")
			if i < 0 {
				return fmt.Errorf("line %d: channel NAME ELEMTYPE :: expr", it.line)
			}
			e, err := ex(item{rest: strings.TrimSpace(rest[i+2:]), line: it.line})
			if err != nil {
				return err
			}
			sp.Chans = append(sp.Chans, &ChanSpec{Elem: strings.TrimSpace(rest[:i]), Name: n, Pkg: pkg, Imports: imports, Inv: Clause{Kind: "channel", Text: rest[i+2:], E: e, Where: where}})
		case "guard":
			// guard T.field by mutex
			f := strings.Fields(it.rest)
			d := strings.LastIndex(f[0], ".")
			sp.Guards = append(sp.Guards, GuardSpec{f[0][:d], f[0][d+1:], f[2], pkg, imports})
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[start:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseParams(s string) []BVar {
	var out []BVar
	var pend []string
	for _, part := range splitTop(s) {
		n, t := firstWord(part)
		if t == "" {
			pend = append(pend, n)
			continue
		}
		for _, q := range pend {
			out = append(out, BVar{q, t})
		}
		pend = nil
		out = append(out, BVar{n, t})
	}
	return out
}

// parseHeader: "(p *T) Name(a, b) (r1, r2)" or "Name(a)" or "pkg.Name(a)".
func (f *FuncSpec) parseHeader(h string) error {
	h = strings.TrimSpace(h)
	recv, recvT := "", ""
	if strings.HasPrefix(h, "(") {
		j := strings.Index(h, ")")
		recv, recvT = firstWord(h[1:j])
		h = strings.TrimSpace(h[j+1:])
	}
	i := strings.Index(h, "(")
	if i < 0 {
		return fmt.Errorf("bad func header %q", h)
	}
	name := strings.TrimSpace(h[:i])
	depth, j := 0, i
	for ; j < len(h); j++ {
		if h[j] == '(' {
			depth++
		}
		if h[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	f.Params = splitTop(h[i+1 : j])
	rest := strings.TrimSpace(h[j+1:])
	if strings.HasPrefix(rest, "(") {
		f.Results = splitTop(rest[1 : len(rest)-1])
	}
	f.Recv = recv
	if recvT != "" {
		star := strings.HasPrefix(recvT, "*")
		tn := f.qualify(strings.TrimPrefix(recvT, "*"))
		if star {
			f.Key = "(*" + tn + ")." + name
		} else {
			f.Key = "(" + tn + ")." + name
		}
		f.Params = append([]string{recv}, f.Params...)
	} else {
		f.Key = f.qualify(name)
	}
	return nil
}

func (f *FuncSpec) qualify(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		if p, ok := f.Imports[n[:i]]; ok {
			return p + n[i:]
		}
		return n
	}
	return f.Pkg + "." + n
}
