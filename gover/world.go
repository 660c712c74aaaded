package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	repo    string // module path
	dir     string
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	tpkgs   map[string]*types.Package
	specs   *Specs
	funcs   map[string]*ssa.Function
	guards  map[string]string
	gzero   map[string]bool
	gstruct map[string]map[int]*ssa.Const // constant struct literals
	garray  map[string]map[int]*ssa.Const // global arrays initialised by a literal and never written
	gconst  map[string]*ssa.Const         // globals with one constant initialiser and no other store
	gnever  map[string]bool               // globals never stored outside init
}

func loadWorld(dir string, extra []string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir}
	pats := append([]string{"./promq/...", "./cmd/...", "./notstdlib/..."}, extra...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.GlobalDebug)
	prog.Build()
	w := &World{repo: "sigs.k8s.io/instrumentation-tools", dir: dir, prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, guards: map[string]string{}, gconst: map[string]*ssa.Const{}, garray: map[string]map[int]*ssa.Const{}, gzero: map[string]bool{}, gstruct: map[string]map[int]*ssa.Const{}, gnever: map[string]bool{}}
	for _, p := range ps {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	for _, p := range prog.AllPackages() {
		w.tpkgs[p.Pkg.Path()] = p.Pkg
	}
	deps := map[string]bool{}
	for _, e := range extra {
		deps[e] = true
	}
	stores := map[*ssa.Global][]*ssa.Store{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && (w.inRepo(fn) || deps[fn.Pkg.Pkg.Path()]) && len(fn.Blocks) > 0 {
			k := fn.RelString(nil)
			if _, dup := w.funcs[k]; !dup || fn.Synthetic == "" {
				w.funcs[k] = fn
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s)
					}
				}
			}
		}
	}
	// globals used other than by loading them or a field of them
	usedOtherwise := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.FieldAddr:
						bad := false
						for _, r := range *x.Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								bad = true
							}
						}
						if !bad {
							continue
						}
					}
					usedOtherwise[g] = true
				}
			}
		}
	}
	// global arrays used other than by loading them or an element of them
	arrayWritten := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							continue // counted in stores
						}
					case *ssa.IndexAddr:
						bad := false
						for _, r := range *x.Referrers() {
							switch r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								bad = true
							}
						}
						if !bad {
							continue
						}
					}
					arrayWritten[g] = true
				}
			}
		}
	}
	for g, ss := range stores {
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), w.repo) {
			continue
		}
		if len(ss) == 1 && ss[0].Parent().Name() == "init" {
			k := "GV:" + g.Pkg.Pkg.Path() + "." + g.Name()
			w.gnever[k] = true
			if c, ok := ss[0].Val.(*ssa.Const); ok {
				w.gconst[k] = c
			}
			if u, ok := ss[0].Val.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok {
					if es, ok := arrayLit(a, u); ok && !arrayWritten[g] {
						w.garray[k] = es
					}
					if fs, ok := structLit(a, u); ok {
						w.gstruct[k] = fs
					}
				}
			}
		}
	}
	// globals never stored at all keep their zero value, unless they are arrays
	// initialised element by element
	for _, p := range ps {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && len(stores[g]) == 0 {
				w.gnever["GV:"+g.Pkg.Pkg.Path()+"."+g.Name()] = true
				if !usedOtherwise[g] && strings.HasPrefix(g.Pkg.Pkg.Path(), w.repo) {
					w.gzero["GV:"+g.Pkg.Pkg.Path()+"."+g.Name()] = true
				}
			}
		}
	}
	return w, nil
}

// arrayLit: the constant elements of an array literal built in a local.
func arrayLit(a *ssa.Alloc, load *ssa.UnOp) (map[int]*ssa.Const, bool) {
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
		return nil, false
	}
	es := map[int]*ssa.Const{}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x != load {
				return nil, false
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			ic, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, rr := range *x.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) {
					return nil, false
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				if _, dup := es[int(ic.Int64())]; dup {
					return nil, false
				}
				es[int(ic.Int64())] = c
			}
		default:
			return nil, false
		}
	}
	return es, true
}

// structLit: the constant fields of a struct literal built in a local.
func structLit(a *ssa.Alloc, load *ssa.UnOp) (map[int]*ssa.Const, bool) {
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return nil, false
	}
	fs := map[int]*ssa.Const{}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x != load {
				return nil, false
			}
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) {
					return nil, false
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				if _, dup := fs[x.Field]; dup {
					return nil, false
				}
				fs[x.Field] = c
			}
		default:
			return nil, false
		}
	}
	return fs, true
}

func (w *World) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), w.repo)
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := w.fset.Position(p)
	rel, err := filepath.Rel(w.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// globalFacts assumes the initial value of package-level variables that only
// their initialiser stores to.
func (w *World) globalFacts(ex *Exec, cell, name string, t types.Type) {
	if ex.u.declared["gfacts:"+cell] {
		return
	}
	ex.u.declared["gfacts:"+cell] = true
	if f := ex.refFacts(name, t, ex.next0, 1); f != "true" {
		ex.u.pre = append(ex.u.pre, "(assert "+f+")")
	}
	if c, ok := w.gconst[cell]; ok {
		ex.u.pre = append(ex.u.pre, "(assert (= "+name+" "+ex.constVal(c).T+"))")
		return
	}
	if fs, ok := w.gstruct[cell]; ok {
		if st, ok := t.Underlying().(*types.Struct); ok {
			si := ex.u.structOf(t)
			for i := 0; i < st.NumFields() && !si.Opaque; i++ {
				v := ex.u.zero(st.Field(i).Type())
				if c, ok := fs[i]; ok {
					v = ex.constVal(c).T
				}
				ex.u.pre = append(ex.u.pre, "(assert (= ("+si.Fields[i].Acc+" "+name+") "+v+"))")
			}
		}
		return
	}
	if es, ok := w.garray[cell]; ok {
		if at, ok := t.Underlying().(*types.Array); ok {
			for k := 0; int64(k) < at.Len() && at.Len() <= 4096; k++ {
				v := ex.u.zero(at.Elem())
				if c, ok := es[k]; ok {
					v = ex.constTerm(c.Value, at.Elem())
				}
				ex.u.pre = append(ex.u.pre, fmt.Sprintf("(assert (= (select %s %d) %s))", name, k, v))
			}
		}
		return
	}
	if w.gzero[cell] {
		ex.u.pre = append(ex.u.pre, "(assert (= "+name+" "+ex.u.zero(t)+"))")
		return
	}
}

func (w *World) allFuncs(p *ssa.Package) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	if f := p.Func("init"); f != nil {
		r[f] = true
	}
	for _, f := range w.funcs {
		if f.Pkg == p {
			r[f] = true
		}
	}
	return r
}

// resolveType parses a type written in a spec.
func (w *World) resolveType(u *Universe, s, pkg string, imports map[string]string) (gt GType, err error) {
	s = strings.TrimSpace(s)
	switch s {
	case "int":
		return goInt, nil
	case "mathint":
		return gInt, nil
	case "bool":
		return gBool, nil
	case "real":
		return gReal, nil
	case "string":
		return gStr, nil
	case "any":
		return gAny, nil
	case "float64":
		return gF, nil
	case "Ptr":
		return gPtrRaw, nil
	case "Fn":
		return GType{Sort: "Fn"}, nil
	case "error":
		return u.gt(types.Universe.Lookup("error").Type()), nil
	}
	if strings.HasPrefix(s, "set[") && strings.HasSuffix(s, "]") {
		k, err := w.resolveType(u, s[4:len(s)-1], pkg, imports)
		if err != nil {
			return gt, err
		}
		return arrType(k, gBool), nil
	}
	if strings.HasPrefix(s, "seq[") && strings.HasSuffix(s, "]") {
		k, err := w.resolveType(u, s[4:len(s)-1], pkg, imports)
		if err != nil {
			return gt, err
		}
		return arrType(gInt, k), nil
	}
	if strings.HasPrefix(s, "arr[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := w.resolveType(u, s[4:i], pkg, imports)
					if err != nil {
						return gt, err
					}
					e, err := w.resolveType(u, s[i+1:], pkg, imports)
					if err != nil {
						return gt, err
					}
					return arrType(k, e), nil
				}
			}
		}
	}
	t, err := w.goType(s, pkg, imports)
	if err != nil {
		return gt, err
	}
	return u.gt(t), nil
}

func arrType(k, e GType) GType {
	return GType{Sort: "(Array " + k.Sort + " " + e.Sort + ")", Key: &k, Elem: &e}
}

func (w *World) goType(s, pkg string, imports map[string]string) (types.Type, error) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		t, err := w.goType(s[1:], pkg, imports)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	}
	if strings.HasPrefix(s, "[]") {
		t, err := w.goType(s[2:], pkg, imports)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	}
	if strings.HasPrefix(s, "map[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := w.goType(s[4:i], pkg, imports)
					if err != nil {
						return nil, err
					}
					e, err := w.goType(s[i+1:], pkg, imports)
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, e), nil
				}
			}
		}
	}
	if s == "struct{}" {
		return types.NewStruct(nil, nil), nil
	}
	if s == "interface{}" {
		return types.NewInterfaceType(nil, nil), nil
	}
	p, n := pkg, s
	if i := strings.LastIndex(s, "."); i >= 0 {
		p, n = s[:i], s[i+1:]
		if q, ok := imports[p]; ok {
			p = q
		}
	} else if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	tp := w.tpkgs[p]
	if tp == nil {
		return nil, fmt.Errorf("unknown package %q in type %q", p, s)
	}
	o := tp.Scope().Lookup(n)
	if o == nil {
		return nil, fmt.Errorf("unknown type %q in %s", n, p)
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("%q is not a type", s)
	}
	return tn.Type(), nil
}

func (ex *Exec) keySort(k string) string {
	switch {
	case strings.HasPrefix(k, "E:"):
		return "(Array Int (Array Int " + ex.u.sortOf(ex.heapTypes[k]) + "))"
	case strings.HasPrefix(k, "MD:"):
		return "(Array Int (Array " + ex.u.sortOf(ex.mapTypes[k].Key()) + " Bool))"
	case strings.HasPrefix(k, "MV:"):
		m := ex.mapTypes[k]
		return "(Array Int (Array " + ex.u.sortOf(m.Key()) + " " + ex.u.sortOf(m.Elem()) + "))"
	}
	if s, ok := ex.ghostSort[k]; ok {
		return s
	}
	panic(unsupported("sort of " + k))
}
