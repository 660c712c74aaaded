package main

import (
	"regexp"
	"strconv"
	"strings"
)

// Loop frames: while a loop body is explored, every heap write is recorded with
// the object it goes to. When all writes to a kind of object go to objects
// created inside the loop or to objects named by terms that the loop cannot
// change, everything else of that kind keeps its value from before the loop.

type writeRec struct {
	items map[string][]ModItem
	all   map[string]bool
	any   bool
}

func (ex *Exec) recWrite(key, base, idx, field string) {
	for _, r := range ex.recs {
		dup := false
		for _, m := range r.items[key] {
			if m.Base == base && m.Idx == idx && m.Field == field {
				dup = true
			}
		}
		if !dup {
			r.items[key] = append(r.items[key], ModItem{Key: key, Base: base, Idx: idx, Field: field})
		}
	}
}
func (ex *Exec) recAll(key string) {
	for _, r := range ex.recs {
		r.all[key] = true
	}
}
func (ex *Exec) recAny() {
	for _, r := range ex.recs {
		r.any = true
	}
}

var symRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9.]*!([0-9]+)`)

type baseResolver struct {
	ex   *Exec
	lim  int // symbols up to this number exist before the loop
	defs map[string]string
}

func newResolver(ex *Exec, lim int, log []string) *baseResolver {
	b := &baseResolver{ex: ex, lim: lim, defs: map[string]string{}}
	for _, d := range log {
		if !strings.HasPrefix(d, "(define-fun ") {
			continue
		}
		rest := d[len("(define-fun "):]
		sp := strings.Index(rest, " ")
		name := rest[:sp]
		rest = strings.TrimPrefix(rest[sp:], " () ")
		_, body := splitSExpr(rest)
		body = strings.TrimSpace(body)
		b.defs[name] = body[:len(body)-1]
	}
	return b
}

// expand rewrites a term over symbols that exist before the loop.
func (b *baseResolver) expand(t string) (string, bool) {
	ok := true
	for round := 0; round < 40; round++ {
		again := false
		t = symRe.ReplaceAllStringFunc(t, func(s string) string {
			n, _ := strconv.Atoi(s[strings.LastIndex(s, "!")+1:])
			if n <= b.lim {
				return s
			}
			d, has := b.defs[s]
			if !has {
				ok = false
				return s
			}
			again = true
			return d
		})
		if !ok || len(t) > 4000 {
			return "", false
		}
		if !again {
			return t, true
		}
	}
	return "", false
}

func sargs(t string) []string {
	if !strings.HasPrefix(t, "(") {
		return nil
	}
	t = strings.TrimSpace(t[1 : len(t)-1])
	var out []string
	for t != "" {
		a, r := splitSExpr(t + " ")
		out = append(out, a)
		t = strings.TrimSpace(r)
	}
	return out
}

// resolve returns the pre-loop terms an object reference may stand for; new
// objects are left out. ok is false when some alternative is unknown.
func (b *baseResolver) resolve(t string, depth int) (out []string, ok bool) {
	if depth > 60 {
		return nil, false
	}
	if b.ex.nextSyms[t] && symNum(t) > b.lim {
		return nil, true // allocated inside the loop
	}
	if e, ok := b.expand(t); ok {
		return []string{e}, true
	}
	if d, has := b.defs[t]; has {
		return b.resolve(d, depth+1)
	}
	as := sargs(t)
	if len(as) == 0 {
		return nil, false
	}
	switch as[0] {
	case "ite":
		x, ok1 := b.resolve(as[2], depth+1)
		y, ok2 := b.resolve(as[3], depth+1)
		return append(x, y...), ok1 && ok2
	case "pb", "sb":
		in := as[1]
		if d, has := b.defs[in]; has {
			return b.resolve("("+as[0]+" "+d+")", depth+1)
		}
		ia := sargs(in)
		if len(ia) == 0 {
			return nil, false
		}
		if ia[0] == "ite" {
			x, ok1 := b.resolve("("+as[0]+" "+ia[2]+")", depth+1)
			y, ok2 := b.resolve("("+as[0]+" "+ia[3]+")", depth+1)
			return append(x, y...), ok1 && ok2
		}
		if ia[0] == "mkptr" && as[0] == "pb" || ia[0] == "mksl" && as[0] == "sb" {
			return b.resolve(ia[1], depth+1)
		}
	}
	return nil, false
}
func symNum(t string) int {
	i := strings.LastIndex(t, "!")
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(t[i+1:])
	if err != nil {
		return -1
	}
	return n
}

// loopFrame emits what the loop leaves alone, for every havocked heap.
func (ex *Exec) loopFrame(rec *writeRec, b *baseResolver, st0, st *State, H map[string]bool) {
	if rec.any {
		return
	}
	bound := ex.nextOf(st0)
	for _, k := range sortedKeys(H) {
		if !(strings.HasPrefix(k, "E:") || strings.HasPrefix(k, "MD:") || strings.HasPrefix(k, "MV:")) {
			continue
		}
		rk := k
		if strings.HasPrefix(k, "MV:") {
			rk = "MD:" + k[3:]
		}
		v0, ok0 := st0.vars[k]
		v1, ok1 := st.vars[k]
		if !ok0 || !ok1 || rec.all[k] || rec.all[rk] {
			continue
		}
		ms := append([]ModItem{}, rec.items[rk]...)
		if rk != k {
			ms = append(ms, rec.items[k]...)
		}
		var res []ModItem
		good := true
		for _, m := range ms {
			bs, ok := b.resolve(m.Base, 0)
			if !ok {
				good = false
				break
			}
			for _, base := range bs {
				it := ModItem{Key: k, Base: base}
				if m.Field != "" && m.Idx != "" {
					if ix, ok := b.expand(m.Idx); ok {
						it.Idx, it.Field = ix, m.Field
					}
				}
				res = append(res, it)
			}
		}
		if good {
			ex.emitFrame(k, v0.T, v1.T, bound, res)
		}
	}
}
