package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// GType is the type of an SMT term in specs and in symbolic execution: a Go
// type (Go != nil) or a pure specification sort (Key/Elem set for SMT arrays).
type GType struct {
	Sort string
	Go   types.Type
	Key  *GType // SMT array
	Elem *GType
	Unt  bool // untyped numeric constant
	Nil  bool
}

var (
	gInt    = GType{Sort: "Int"}
	gBool   = GType{Sort: "Bool"}
	gReal   = GType{Sort: "Real"}
	gF      = GType{Sort: "F", Go: types.Typ[types.Float64]}
	gStr    = GType{Sort: "Str", Go: types.Typ[types.String]}
	gAny    = GType{Sort: "Any"}
	goInt   = GType{Sort: "Int", Go: types.Typ[types.Int]}
	gPtrRaw = GType{Sort: "Ptr"}
)

// Universe tracks the SMT sorts, datatypes and constants declared for one VC set.
type Universe struct {
	pre         []string // declarations in order
	structs     map[string]*StructInfo
	declared    map[string]bool
	strLits     map[string]string
	strOrder    []string
	tags        map[string]int
	tagTypes    map[string]types.Type
	repo        string // module path prefix considered transparent
	transparent map[string]bool
	late        []string
}

type StructInfo struct {
	Name   string
	T      *types.Struct
	Named  types.Type
	Opaque bool
	Ctor   string
	Fields []FieldInfo
}
type FieldInfo struct {
	Name string // Go name
	Acc  string // SMT accessor
	T    types.Type
}

func NewUniverse(repo string) *Universe {
	return &Universe{structs: map[string]*StructInfo{}, declared: map[string]bool{}, strLits: map[string]string{},
		tags: map[string]int{}, tagTypes: map[string]types.Type{}, repo: repo, transparent: map[string]bool{}}
}

func (u *Universe) decl(key, text string) {
	if u.declared[key] {
		return
	}
	u.declared[key] = true
	u.pre = append(u.pre, text)
}

var mangleRep = strings.NewReplacer("/", "_", ".", "_", "*", "P", "[", "L", "]", "R", " ", "_", "{", "_", "}", "_", ",", "_", "(", "_", ")", "_", "-", "_", "\"", "_", ";", "_", "<", "_", ">", "_", ":", "_", "|", "_", "\\", "_", "`", "_", "$", "_", "#", "_", "'", "_")

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func shortQual(p *types.Package) string {
	path := p.Path()
	if i := strings.LastIndex(path, "/"); i >= 0 {
		return path[i+1:]
	}
	return path
}
func mangle(t types.Type) string {
	return mangleRep.Replace(types.TypeString(t, shortQual))
}

func (u *Universe) isMutex(t types.Type) bool {
	k := typeKey(t)
	return k == "sync.Mutex" || k == "sync.RWMutex"
}

// sortOf returns the SMT sort for a Go type, declaring it if needed.
func (u *Universe) sortOf(t types.Type) string {
	if u.isMutex(t) {
		return "Int"
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		i := tt.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return "F"
		case i&types.IsString != 0:
			return "Str"
		}
		if tt.Kind() == types.UntypedNil {
			return "Any"
		}
		if tt.Kind() == types.UnsafePointer {
			return "Int"
		}
		panic(unsupported("type " + tt.String()))
	case *types.Pointer:
		return "Ptr"
	case *types.Slice:
		return "Sl"
	case *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Fn"
	case *types.Interface:
		return "Any"
	case *types.Struct:
		return u.structOf(t).Name
	case *types.Array:
		return "(Array Int " + u.sortOf(tt.Elem()) + ")"
	case *types.Tuple:
		panic(unsupported("tuple sort"))
	}
	panic(unsupported("type " + t.String()))
}

func (u *Universe) gt(t types.Type) GType { return GType{Sort: u.sortOf(t), Go: t} }

func (u *Universe) structOf(t types.Type) *StructInfo {
	key := typeKey(t)
	if s, ok := u.structs[key]; ok {
		return s
	}
	st := t.Underlying().(*types.Struct)
	name := "S_" + mangle(t)
	for n := 0; u.declared["sort:"+name]; n++ {
		name = fmt.Sprintf("S_%s_%d", mangle(t), n)
	}
	info := &StructInfo{Name: name, T: st, Named: t}
	u.structs[key] = info
	// transparent if declared in the repository or all fields exported
	opaque := false
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), u.repo) && !u.transparent[key] {
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				opaque = true
			}
		}
	}
	info.Opaque = opaque
	if opaque {
		u.decl("sort:"+name, fmt.Sprintf("(declare-sort %s 0)\n(declare-const zero_%s %s)", name, name, name))
		return info
	}
	info.Ctor = "mk_" + name
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		acc := fmt.Sprintf("%s.%s", name, mangleRep.Replace(f.Name()))
		if f.Name() == "_" {
			acc = fmt.Sprintf("%s._%d", name, i)
		}
		so := u.sortOf(f.Type())
		info.Fields = append(info.Fields, FieldInfo{f.Name(), acc, f.Type()})
		fs = append(fs, fmt.Sprintf("(%s %s)", acc, so))
	}
	u.decl("sort:"+name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, info.Ctor, strings.Join(fs, " ")))
	return info
}

func (u *Universe) zero(t types.Type) string {
	if u.isMutex(t) {
		return "0"
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		i := tt.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "false"
		case i&types.IsInteger != 0:
			return "0"
		case i&types.IsFloat != 0:
			return "(ffin 0.0)"
		case i&types.IsString != 0:
			return u.strLit("")
		}
		return "anynil"
	case *types.Pointer:
		return "nilptr"
	case *types.Slice:
		return "nilsl"
	case *types.Map, *types.Chan:
		return "0"
	case *types.Signature:
		return "fnnil"
	case *types.Interface:
		return "anynil"
	case *types.Struct:
		s := u.structOf(t)
		if s.Opaque {
			return "zero_" + s.Name
		}
		if len(s.Fields) == 0 {
			return s.Ctor
		}
		var a []string
		for _, f := range s.Fields {
			a = append(a, u.zero(f.T))
		}
		return "(" + s.Ctor + " " + strings.Join(a, " ") + ")"
	case *types.Array:
		return u.zeroArr(tt.Elem())
	}
	panic(unsupported("zero " + t.String()))
}

// zeroArr is an Int-indexed SMT array holding the zero value everywhere.
func (u *Universe) zeroArr(elem types.Type) string {
	n := "zarr_" + mangle(elem)
	if !u.declared[n] {
		so := u.sortOf(elem)
		z := u.zero(elem)
		u.decl(n, fmt.Sprintf("(declare-const %s (Array Int %s))\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))", n, so, n, z, n))
	}
	return n
}

func (u *Universe) emptySet(keySort string) string {
	n := "emptyset_" + mangleRep.Replace(keySort)
	u.decl(n, fmt.Sprintf("(declare-const %s (Array %s Bool))\n(assert (forall ((k %s)) (! (not (select %s k)) :pattern ((select %s k)))))", n, keySort, keySort, n, n))
	return n
}

// card declares the cardinality theory for finite sets over a key sort.
func (u *Universe) card(keySort string) string {
	m := mangleRep.Replace(keySort)
	c := "card_" + m
	if u.declared[c] {
		return c
	}
	e := u.emptySet(keySort)
	A := "(Array " + keySort + " Bool)"
	u.decl(c, fmt.Sprintf(`(declare-fun card_%[1]s (%[2]s) Int)
(declare-fun fin_%[1]s (%[2]s) Bool)
(declare-fun subw_%[1]s (%[2]s %[2]s) %[3]s)
(declare-fun memw_%[1]s (%[2]s) %[3]s)
(assert (= (card_%[1]s %[4]s) 0))
(assert (fin_%[1]s %[4]s))
(assert (forall ((d %[2]s) (k %[3]s)) (! (= (card_%[1]s (store d k true)) (+ (card_%[1]s d) (ite (select d k) 0 1))) :pattern ((card_%[1]s (store d k true))))))
(assert (forall ((d %[2]s) (k %[3]s)) (! (= (card_%[1]s (store d k false)) (- (card_%[1]s d) (ite (select d k) 1 0))) :pattern ((card_%[1]s (store d k false))))))
(assert (forall ((d %[2]s) (k %[3]s) (b Bool)) (! (= (fin_%[1]s (store d k b)) (fin_%[1]s d)) :pattern ((fin_%[1]s (store d k b))))))
(assert (forall ((d %[2]s)) (! (=> (fin_%[1]s d) (>= (card_%[1]s d) 0)) :pattern ((card_%[1]s d)))))
(assert (forall ((d %[2]s)) (! (=> (and (fin_%[1]s d) (not (= (card_%[1]s d) 0))) (select d (memw_%[1]s d))) :pattern ((card_%[1]s d)))))
(assert (forall ((d %[2]s) (k %[3]s)) (! (=> (and (fin_%[1]s d) (select d k)) (>= (card_%[1]s d) 1)) :pattern ((card_%[1]s d) (select d k)))))
(assert (forall ((a %[2]s) (b %[2]s)) (! (=> (and (fin_%[1]s a) (fin_%[1]s b) (= (card_%[1]s a) (card_%[1]s b)) (=> (select b (subw_%[1]s a b)) (select a (subw_%[1]s a b)))) (= a b)) :pattern ((card_%[1]s a) (card_%[1]s b)))))`,
		m, A, keySort, e))
	return c
}

// strLit returns the constant for a string literal.
func (u *Universe) strLit(s string) string {
	if n, ok := u.strLits[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(u.strLits))
	u.strLits[s] = n
	u.strOrder = append(u.strOrder, s)
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-const %s Str) ; %q\n(assert (= (slen %s) %d))\n(assert (= (litid %s) %d))", n, s, n, len(s), n, len(u.strLits))
	if len(s) <= 24 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "\n(assert (= (sbyte %s %d) %d))", n, i, s[i])
		}
	}
	u.pre = append(u.pre, b.String())
	return n
}

// tag of a dynamic type
func (u *Universe) tag(t types.Type) int {
	k := typeKey(t)
	if n, ok := u.tags[k]; ok {
		return n
	}
	n := len(u.tags) + 1
	u.tags[k] = n
	u.tagTypes[k] = t
	so := u.sortOf(t)
	u.decl("box:"+k, fmt.Sprintf(`(declare-fun box_%[1]d (%[2]s) Any)
(declare-fun unbox_%[1]d (Any) %[2]s)
(assert (forall ((x %[2]s)) (! (and (= (unbox_%[1]d (box_%[1]d x)) x) (= (tyof (box_%[1]d x)) %[1]d)) :pattern ((box_%[1]d x)))))
(assert (forall ((a Any)) (! (=> (= (tyof a) %[1]d) (= (box_%[1]d (unbox_%[1]d a)) a)) :pattern ((unbox_%[1]d a)))))`, n, so))
	return n
}

// intRange gives the bounds of an integer type.
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return "", "", false
	}
	var bits int
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	one := big.NewInt(1)
	if uns {
		h := new(big.Int).Lsh(one, uint(bits))
		return "0", new(big.Int).Sub(h, one).String(), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return "(- " + h.String() + ")", new(big.Int).Sub(h, one).String(), true
}
func intBits(t types.Type) (bits int, uns bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 64, false
	}
	uns = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, uns
	case types.Int16, types.Uint16:
		return 16, uns
	case types.Int32, types.Uint32:
		return 32, uns
	}
	return 64, uns
}
func pow2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string    { return "unsupported: " + e.msg }
func unsupported(s string) unsupportedErr { return unsupportedErr{s} }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const basePrelude = `(declare-sort Str 0)
(declare-sort Any 0)
(declare-sort Fn 0)
(declare-sort Sl 0)
(declare-datatypes ((Ptr 0)) (((mkptr (pb Int) (pi Int)))))
(declare-datatypes ((F 0)) (((ffin (fr Real)) (fpinf) (fninf) (fnan))))
(define-fun nilptr () Ptr (mkptr 0 0))
(declare-fun sb (Sl) Int)
(declare-fun sn (Sl) Int)
(declare-fun sc (Sl) Int)
(declare-fun mksl (Int Int Int) Sl)
(assert (forall ((s Sl)) (! (<= 0 (sn s)) :pattern ((sn s)))))
(assert (forall ((s Sl)) (! (<= (sn s) (sc s)) :pattern ((sc s)))))
(assert (forall ((s Sl)) (! (and (>= (sb s) 0) (=> (= (sb s) 0) (= (sn s) 0))) :pattern ((sb s)))))
(assert (forall ((s Sl)) (! (=> (= (sb s) 0) (= (sc s) 0)) :pattern ((sb s) (sc s)))))
(assert (forall ((b Int) (n Int) (c Int)) (! (=> (and (>= b 0) (<= 0 n) (<= n c) (=> (= b 0) (= c 0))) (and (= (sb (mksl b n c)) b) (= (sn (mksl b n c)) n) (= (sc (mksl b n c)) c))) :pattern ((mksl b n c)))))
(define-fun nilsl () Sl (mksl 0 0 0))
(declare-const anynil Any)
(declare-const fnnil Fn)
(declare-fun tyof (Any) Int)
(assert (= (tyof anynil) 0))
(assert (forall ((a Any)) (! (and (>= (tyof a) 0) (=> (= (tyof a) 0) (= a anynil))) :pattern ((tyof a)))))
(declare-fun slen (Str) Int)
(declare-fun sbyte (Str Int) Int)
(declare-fun litid (Str) Int)
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sbyte s i)) (<= (sbyte s i) 255)) :pattern ((sbyte s i)))))
(declare-fun scat (Str Str) Str)
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sbyte (scat a b) i) (sbyte a i))) :pattern ((sbyte (scat a b) i)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= (slen a) i) (< i (+ (slen a) (slen b)))) (= (sbyte (scat a b) i) (sbyte b (- i (slen a))))) :pattern ((sbyte (scat a b) i)))))
(declare-fun ssub (Str Int Int) Str)
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sbyte (ssub s i j) k) (sbyte s (+ i k)))) :pattern ((sbyte (ssub s i j) k)))))
(assert (forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((slen s)))))
(declare-fun slt (Str Str) Bool)
(assert (forall ((a Str) (b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
(assert (forall ((a Str) (b Str)) (! (or (slt a b) (slt b a) (= a b)) :pattern ((slt a b)))))
(declare-fun sdiffw (Str Str) Int)
(assert (forall ((a Str) (b Str)) (! (=> (and (= (slen a) (slen b)) (=> (and (<= 0 (sdiffw a b)) (< (sdiffw a b) (slen a))) (= (sbyte a (sdiffw a b)) (sbyte b (sdiffw a b))))) (= a b)) :pattern ((sdiffw a b)))))
(declare-fun runeat (Str Int) Int)
(declare-fun runew (Str Int) Int)
(assert (forall ((s Str) (i Int)) (! (and (<= 1 (runew s i)) (<= (runew s i) 4) (=> (and (<= 0 i) (< i (slen s))) (<= (+ i (runew s i)) (slen s))) (=> (< (sbyte s i) 128) (and (= (runew s i) 1) (= (runeat s i) (sbyte s i)))) (=> (>= (sbyte s i) 128) (>= (runeat s i) 128)) (<= 0 (runeat s i)) (<= (runeat s i) 1114111)) :pattern ((runew s i)))))
(assert (forall ((s Str) (i Int)) (! (and (=> (< (sbyte s i) 128) (= (runeat s i) (sbyte s i))) (=> (>= (sbyte s i) 128) (>= (runeat s i) 128)) (<= 0 (runeat s i)) (<= (runeat s i) 1114111)) :pattern ((runeat s i)))))
(define-fun godiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun gomod ((a Int) (b Int)) Int (- a (* b (godiv a b))))
(define-fun absi ((a Int)) Int (ite (>= a 0) a (- a)))
(define-fun absr ((a Real)) Real (ite (>= a 0.0) a (- a)))
(define-fun flt ((a F) (b F)) Bool (and (not (= a fnan)) (not (= b fnan)) (not (= a b)) (or (= a fninf) (= b fpinf) (and ((_ is ffin) a) ((_ is ffin) b) (< (fr a) (fr b))))))
(define-fun fle ((a F) (b F)) Bool (and (not (= a fnan)) (not (= b fnan)) (or (= a b) (flt a b))))
(define-fun feq ((a F) (b F)) Bool (and (not (= a fnan)) (= a b)))
(define-fun fisfin ((a F)) Bool ((_ is ffin) a))
(declare-fun rnd (Real) F)
(declare-fun bitor (Int Int) Int)
(declare-fun bitand (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (and (= (bitand a b) (bitand b a)) (=> (or (= b 1) (= b 2) (= b 4) (= b 8) (= b 16) (= b 32) (= b 64) (= b 128)) (or (= (bitand a b) 0) (= (bitand a b) b))) (=> (or (<= 0 a) (<= 0 b)) (<= 0 (bitand a b))) (=> (<= 0 a) (<= (bitand a b) a)) (= (bitand 0 b) 0)) :pattern ((bitand a b)))))
(declare-fun bitxor (Int Int) Int)
(declare-fun hasbit (Int Int) Bool)
`

const floatPrelude = `
(define-fun fmaxr () Real 179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747797926261447239168.0)
(assert (forall ((x Real)) (! (not (= (rnd x) fnan)) :pattern ((rnd x)))))
(assert (forall ((x Real)) (! (=> (<= (absr x) fmaxr) (fisfin (rnd x))) :pattern ((rnd x)))))
(assert (forall ((x Real)) (! (=> (= (rnd x) fpinf) (> x 0.0)) :pattern ((rnd x)))))
(assert (forall ((x Real)) (! (=> (= (rnd x) fninf) (< x 0.0)) :pattern ((rnd x)))))
(assert (forall ((x Real) (y Real)) (! (=> (<= x y) (fle (rnd x) (rnd y))) :pattern ((rnd x) (rnd y)))))
(assert (forall ((x Real)) (! (=> (and (is_int x) (<= (absr x) 9007199254740992.0)) (and (= (rnd x) (ffin x)) (fisfin (rnd x)) (= (fr (rnd x)) x))) :pattern ((rnd x)))))
(assert (forall ((x Real)) (! (=> (fisfin (rnd x)) (and (=> (<= 0.0 x) (<= 0.0 (fr (rnd x)))) (=> (<= x 0.0) (<= (fr (rnd x)) 0.0)))) :pattern ((rnd x)))))
(assert (forall ((x Real)) (! (=> (<= (absr x) 1180591620717411303424.0) (<= (absr (- (fr (rnd x)) x)) (+ (/ (absr x) 9007199254740992.0) 0.000000000000000000000000000001))) :pattern ((rnd x)))))
(define-fun fneg ((a F)) F (ite (= a fpinf) fninf (ite (= a fninf) fpinf (ite (= a fnan) fnan (ffin (- (fr a)))))))
(define-fun fabs ((a F)) F (ite (= a fninf) fpinf (ite (fisfin a) (ffin (absr (fr a))) a)))
(define-fun fadd ((a F) (b F)) F (ite (and (fisfin a) (fisfin b)) (rnd (+ (fr a) (fr b)))
   (ite (or (= a fnan) (= b fnan) (and (= a fpinf) (= b fninf)) (and (= a fninf) (= b fpinf))) fnan (ite (fisfin a) b a))))
(define-fun fsub ((a F) (b F)) F (fadd a (fneg b)))
(define-fun fsgn ((a F)) Int (ite (= a fpinf) 1 (ite (= a fninf) (- 1) (ite (= a fnan) 0 (ite (> (fr a) 0.0) 1 (ite (< (fr a) 0.0) (- 1) 0))))))
(define-fun fmul ((a F) (b F)) F (ite (and (fisfin a) (fisfin b)) (rnd (* (fr a) (fr b)))
   (ite (or (= a fnan) (= b fnan) (= (* (fsgn a) (fsgn b)) 0)) fnan (ite (= (fsgn a) (fsgn b)) fpinf fninf))))
(declare-fun fdiv0 (F F) F)
(define-fun fdiv ((a F) (b F)) F (ite (or (= a fnan) (= b fnan)) fnan
   (ite (and (fisfin b) (= (fr b) 0.0)) (ite (and (fisfin a) (= (fr a) 0.0)) fnan (fdiv0 a b))
   (ite (and (fisfin a) (fisfin b)) (rnd (/ (fr a) (fr b)))
   (ite (fisfin a) (ffin 0.0) (ite (fisfin b) (ite (= (fsgn a) (fsgn b)) fpinf fninf) fnan))))))
(assert (forall ((a F) (b F)) (! (or (= (fdiv0 a b) fpinf) (= (fdiv0 a b) fninf)) :pattern ((fdiv0 a b)))))
(define-fun i2f ((x Int)) F (rnd (to_real x)))
(declare-fun f2i_ud (F) Int)
(define-fun truncr ((x Real)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
(define-fun f2i ((a F)) Int (ite (and (fisfin a) (< (absr (fr a)) 9223372036854775808.0)) (truncr (fr a)) (f2i_ud a)))
(assert (forall ((a F)) (! (and (<= (- 9223372036854775808) (f2i_ud a)) (<= (f2i_ud a) 9223372036854775807)) :pattern ((f2i_ud a)))))
(define-fun roundr ((x Real)) Int (ite (>= x 0.0) (to_int (+ x 0.5)) (- (to_int (+ (- x) 0.5)))))
(define-fun fround ((a F)) F (ite (fisfin a) (ffin (to_real (roundr (fr a)))) a))
`

func litBig(s string) *big.Int {
	neg := strings.HasPrefix(s, "(- ")
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(- "), ")")
	n, _ := new(big.Int).SetString(s, 10)
	if neg {
		n.Neg(n)
	}
	return n
}

// what | does to numbers without common bits, for types wider than a byte
const bitorWide = `(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (= (bitor a b) (bitor b a)) (<= a (bitor a b)) (<= b (bitor a b)) (<= (bitor a b) (+ a b)) (=> (and (= (mod a 65536) 0) (< b 65536)) (= (bitor a b) (+ a b))) (=> (and (= (mod a 1048576) 0) (< b 1048576)) (= (bitor a b) (+ a b))) (=> (and (= (mod a 16777216) 0) (< b 16777216)) (= (bitor a b) (+ a b))) (=> (and (= (mod a 4294967296) 0) (< b 4294967296)) (= (bitor a b) (+ a b))) (=> (and (= (mod a 1099511627776) 0) (< b 1099511627776)) (= (bitor a b) (+ a b))) (=> (and (= (mod a 281474976710656) 0) (< b 281474976710656)) (= (bitor a b) (+ a b))))) :pattern ((bitor a b)))))`
