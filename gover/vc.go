package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value of the executed code or of a specification expression.
type Val struct {
	T     string // SMT term
	So    string // SMT sort
	Ty    types.Type
	A     *Addr
	Tup   []Val
	Fn    *ssa.Function
	Bind  []Val
	Zero  bool   // the zero value of a raw struct
	Var   string // cell holding the elements of a variadic argument slice
	VarN  int
	Dyn   *Val // interface made from this value
	Lin   *Lin
	LinTy types.Type
}

// Lin is a product before it is reduced to the machine type: C*X, or X when C is empty.
type Lin struct{ C, X string }

// Addr describes what a pointer value points to when it is not just a number.
type Addr struct {
	Kind string // field, x, cell, cellidx, rawel, ifw
	Comp string
	Obj  string
	Idx  string
	Elem types.Type
	W    string
}

type Obl struct {
	Name   string
	Kind   string
	Tags   []string
	N      int // number of lines that precede it
	Goal   string
	Reach  string
	Status string // proved, failed, unknown, timeout
	Solver string
	Secs   float64
	Fn     string
	Inst   Inst
	vc     *VC
	Out    string
	Soft   bool
	Check  string // cover: must not be provable
	Pos    string
	Extra  []string
}

// VC collects the verification condition of one function at one instantiation.
type VC struct {
	cntOnce   sync.Once
	cntUsed   bool
	P         *Program
	Sp        *Specs
	F         *Func
	C         *Contract
	inst      Inst
	bv        bool
	ieee      bool
	lines     []string
	obls      []*Obl
	n         int
	defs      map[string]string // symbol -> defining term
	sorts     map[string]string // component -> sort
	init      map[string]string // component -> entry symbol
	strs      map[string]string
	flts      map[string]float64
	tags      map[string]int
	usedAx    map[string]bool
	dry       int
	log       []wlog
	errs      []string
	entry     *State
	top       *Frame
	comps     map[string]types.Type
	loopN     int
	loops     []*loopCtx
	inl       []string // inline stack
	brk0      string
	panicT    string
	fids      map[string]int
	rels      []string
	assumed   map[string]bool // contracts used at call sites
	ext       map[string]bool
	cloops    []string
	nameMap   map[string]string
	missing   map[string]bool
	inlined   map[string]bool
	localObj  map[string]bool
	known     map[string]bool
	globals   map[string]bool
	cellMeta  map[string]Val
	imms      map[string]string
	immPend   map[string]map[string]bool
	varCells  map[string]map[string]Val
	boxes     map[string]bool
	rawT      map[string]types.Type
	mk        map[string][3]string
	topBound  []bound
	frameL    []locInfo
	frameDone bool
	lateFacts []lateFact
	ufUsed    map[string]bool
	axLines   []string
}

type wlog struct {
	comp, kind string
	ptr, n     string // region or object
	idx        string
	all        bool
}

type loopCtx struct {
	start   int // symbols with a higher number are created inside
	brkL    string
	pre     *State
	allowed map[string][][2]string // comp -> regions
	auto    bool
	iter    string
}

type State struct{ m map[string]string }

func (s *State) clone() *State {
	t := &State{m: make(map[string]string, len(s.m))}
	for k, v := range s.m {
		t.m[k] = v
	}
	return t
}

func (v *VC) errorf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, e := range v.errs {
		if e == s {
			return
		}
	}
	v.errs = append(v.errs, s)
}

func (v *VC) emit(s string) { v.lines = append(v.lines, s) }

func sanit(s string) string {
	var b strings.Builder
	for _, c := range s {
		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (v *VC) fresh(hint, sort string) string {
	v.n++
	s := fmt.Sprintf("%s!%d", sanit(hint), v.n)
	v.emit(fmt.Sprintf("(declare-const %s %s)", s, sort))
	return s
}

func isAtom(t string) bool { return !strings.ContainsAny(t, " (") }

// name gives a term a name, so that big terms are shared.
func (v *VC) name(hint, sort, term string) string {
	if isAtom(term) || isNum(term) {
		return term
	}
	v.n++
	s := fmt.Sprintf("%s!%d", sanit(hint), v.n)
	v.emit(fmt.Sprintf("(declare-const %s %s)", s, sort))
	v.emit(fmt.Sprintf("(assert (= %s %s))", s, term))
	v.defs[s] = term
	return s
}

func (v *VC) assume(reach, f string) {
	if f == "true" {
		return
	}
	v.emit("(assert " + Imp(reach, f) + ")")
}

func (v *VC) oblige(kind, name string, tags []string, reach, goal string) {
	if v.dry > 0 {
		v.assume(reach, goal)
		return
	}
	if goal == "true" || reach == "false" {
		// still an obligation, discharged by the generator
		v.obls = append(v.obls, &Obl{Name: name, Kind: kind, Tags: tags, N: len(v.lines), Goal: goal, Reach: reach, vc: v, Status: "proved", Solver: "generator", Fn: v.F.Key, Inst: v.inst})
		return
	}
	v.obls = append(v.obls, &Obl{Name: name, Kind: kind, Tags: tags, N: len(v.lines), Goal: goal, Reach: reach, vc: v, Fn: v.F.Key, Inst: v.inst})
	if kind == "frame" || kind == "reads" {
		return
	}
	v.assume(reach, goal)
}

// ---- types ----

func (v *VC) sizeof(t types.Type) int64 { return v.P.sizes.Sizeof(t) }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Info()&types.IsInteger != 0)
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isNumeric(t types.Type) bool { return isFloat(t) || isInt(t) }

func fsort(t types.Type) string {
	if under(t).(*types.Basic).Kind() == types.Float32 {
		return "F32"
	}
	return "F64"
}

func (v *VC) sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			if v.bv {
				return fmt.Sprintf("(_ BitVec %d)", v.sizeof(u)*8)
			}
			return "Int"
		case u.Kind() == types.UntypedFloat:
			return "F64"
		case u.Info()&types.IsFloat != 0:
			return fsort(u)
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "(Array Int " + v.sortOf(u.Elem()) + ")"
	}
	return "Int"
}

func (v *VC) isRawStruct(t types.Type) bool {
	st, ok := under(t).(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return false
	}
	a, ok := under(st.Field(st.NumFields() - 1).Type()).(*types.Array)
	return ok && a.Len() == 0
}

func (v *VC) fieldOffset(t types.Type, i int) int64 {
	st := under(t).(*types.Struct)
	var fs []*types.Var
	for j := 0; j < st.NumFields(); j++ {
		fs = append(fs, st.Field(j))
	}
	return v.P.sizes.Offsetsof(fs)[i]
}

func (v *VC) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		val := Val{Ty: t, So: "tuple"}
		if v.isRawStruct(t) {
			val.Zero = true
			return val
		}
		for i := 0; i < u.NumFields(); i++ {
			val.Tup = append(val.Tup, v.zero(u.Field(i).Type()))
		}
		return val
	}
	return Val{T: v.zeroTerm(v.sortOf(t)), So: v.sortOf(t), Ty: t}
}

func (v *VC) zeroTerm(so string) string {
	switch {
	case so == "Bool":
		return "false"
	case so == "Int":
		return "0"
	case so == "F32":
		return "fz32"
	case so == "F64":
		return "fz64"
	case so == "Str":
		return "emptyStr"
	case so == "Slice":
		return "nilSlice"
	case so == "Iface":
		return "nilIface"
	case strings.HasPrefix(so, "(_ BitVec"):
		return "(_ bv0 " + strings.TrimSuffix(so[10:], ")") + ")"
	case strings.HasPrefix(so, "(Array Int "):
		return "((as const " + so + ") " + ground(v.zeroTerm(strings.TrimSuffix(strings.TrimPrefix(so, "(Array Int "), ")"))) + ")"
	}
	return "0"
}

// inRange is the type invariant of a numeric Go value.
func (v *VC) inRange(t types.Type, term string) string {
	if v.bv && isInt(t) {
		return "true"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := v.bounds(u)
			return And(Le(Num(lo), term), Le(term, Num(hi)))
		}
		if u.Kind() == types.UnsafePointer {
			return Le("0", term)
		}
	case *types.Slice:
		return sx("wfslice", term)
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return Le("0", term)
	}
	return "true"
}

func (v *VC) bounds(t types.Type) (lo, hi *big.Int) {
	w := uint(v.sizeof(t) * 8)
	if isUnsigned(t) {
		return big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))
	}
	return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big.NewInt(1))
}

func (v *VC) wrap(t types.Type, term string) string {
	lo, hi := v.bounds(t)
	w := uint(v.sizeof(t) * 8)
	if isNum(term) {
		n := numOf(term)
		n.Sub(n, lo)
		n.Mod(n, pow2(w))
		n.Add(n, lo)
		return Num(n)
	}
	var m string
	if lo.Sign() == 0 {
		m = sx("mod", term, Num(pow2(w)))
	} else {
		m = Add(sx("mod", Sub(term, Num(lo)), Num(pow2(w))), Num(lo))
	}
	return Ite(And(Le(Num(lo), term), Le(term, Num(hi))), term, m)
}

// wrap1 wraps a sum or difference that is off by at most one period.
func (v *VC) wrap1(t types.Type, term string) string {
	if isNum(term) {
		return v.wrap(t, term)
	}
	lo, hi := v.bounds(t)
	p := Num(pow2(uint(v.sizeof(t) * 8)))
	return Ite(Lt(Num(hi), term), Sub(term, p), Ite(Lt(term, Num(lo)), Add(term, p), term))
}

// ---- state components ----

func (v *VC) compSort(c string) string {
	if s, ok := v.sorts[c]; ok {
		return s
	}
	panic("no sort for component " + c)
}

func (v *VC) declComp(c, sort string) {
	if _, ok := v.sorts[c]; !ok {
		v.sorts[c] = sort
	}
}

func (v *VC) get(st *State, c string) string {
	if t, ok := st.m[c]; ok {
		return t
	}
	return v.initial(c)
}

// initial is the value of a component at function entry.
func (v *VC) initial(c string) string {
	if t, ok := v.init[c]; ok {
		return t
	}
	s := "st_" + sanit(c)
	v.init[c] = s
	return s
}

func (v *VC) fieldComp(owner types.Type, i int) (string, types.Type) {
	st := under(owner).(*types.Struct)
	f := st.Field(i)
	c := "f|" + typeKey(owner) + "|" + f.Name()
	v.declComp(c, "(Array Int "+v.sortOf(f.Type())+")")
	v.comps[c] = f.Type()
	return c, f.Type()
}

func (v *VC) xcomp(elem types.Type) string {
	c := "x|" + typeKey(elem)
	v.declComp(c, "XH_"+xs(v.sortOf(elem)))
	v.comps[c] = elem
	return c
}

func xs(so string) string { return sanit(so) }

func (v *VC) pcomp(elem types.Type) string {
	c := "p|" + typeKey(elem)
	v.declComp(c, "(Array Int "+v.sortOf(elem)+")")
	v.comps[c] = elem
	return c
}

func (v *VC) gcomp(n string) string {
	c := "g|" + n
	v.declComp(c, v.specSort(v.Sp.Ghosts[n]))
	return c
}

func (v *VC) specSort(s string) string {
	switch s {
	case "F":
		if v.inst.TV == "float64" {
			return "F64"
		}
		return "F32"
	case "PHeap":
		return v.compSort(v.pairComp())
	}
	if strings.HasPrefix(s, "(Array ") {
		// element sorts may be F
		parts := strings.SplitN(strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")"), " ", 2)
		return "(Array " + v.specSort(parts[0]) + " " + v.specSort(parts[1]) + ")"
	}
	return s
}

// pairComp is the memory of slices of pairs.
func (v *VC) pairComp() string {
	t := v.specType("interfaces.Pair")
	if t == nil {
		panic(specErr{"type interfaces.Pair not found"})
	}
	return v.xcomp(types.NewPointer(t))
}

func (v *VC) set(st *State, c, term string) {
	st.m[c] = v.name("s_"+c, v.compSort(c), term)
}

func (v *VC) havocComp(st *State, c string) string {
	t := v.fresh("h_"+c, v.compSort(c))
	st.m[c] = t
	v.compTypeAxiom(c, t)
	return t
}

// compTypeAxiom states that stored values respect their types.
func (v *VC) compTypeAxiom(c, t string) {
	ty := v.comps[c]
	if ty == nil || !(strings.HasPrefix(c, "f|") || strings.HasPrefix(c, "p|")) {
		return
	}
	r := v.inRange(ty, "(select "+t+" o)")
	if r != "true" {
		v.emit(fmt.Sprintf("(assert (forall ((o Int)) (! %s :pattern ((select %s o)))))", r, t))
	}
}

// merge joins states along edges with the given (mutually exclusive) conditions.
func (v *VC) merge(edges []edge) *State {
	if len(edges) == 1 {
		return edges[0].st.clone()
	}
	out := &State{m: map[string]string{}}
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		same := true
		t0 := v.get(edges[0].st, k)
		for _, e := range edges[1:] {
			if v.get(e.st, k) != t0 {
				same = false
			}
		}
		if same {
			out.m[k] = t0
			continue
		}
		n := v.fresh("m_"+k, v.compSort(k))
		if !strings.HasPrefix(k, "g|") && k != "H" {
			v.compTypeAxiom(k, n)
		}
		for _, e := range edges {
			v.assume(e.cond, Eq(n, v.get(e.st, k)))
		}
		out.m[k] = n
	}
	return out
}

type edge struct {
	st   *State
	cond string
	from *ssa.BasicBlock
}

// ---- constants ----

func (v *VC) floatConst(f float64, so string) string {
	if so == "F32" {
		f = float64(float32(f))
	}
	if f == 0 && !math.Signbit(f) {
		if so == "F32" {
			return "fz32"
		}
		return "fz64"
	}
	n := fmt.Sprintf("fc%s_%x", so[1:], math.Float64bits(f))
	v.flts[n] = f
	return n
}

func (v *VC) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return v.zero(t)
	}
	so := v.sortOf(t)
	val := Val{Ty: t, So: so}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			val.T = fmt.Sprint(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			b, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			val.T = v.intLit(b, t)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			val.T = v.floatConst(f, so)
		case u.Info()&types.IsString != 0:
			val.T = v.strConst(constant.StringVal(c.Value))
		default:
			val.T = "0"
		}
	default:
		val.T = v.zeroTerm(so)
	}
	return val
}

func (v *VC) intLit(b *big.Int, t types.Type) string {
	if v.bv {
		w := uint(v.sizeof(t) * 8)
		m := new(big.Int).Mod(b, pow2(w))
		return fmt.Sprintf("(_ bv%s %d)", m.String(), w)
	}
	return Num(b)
}

func (v *VC) strConst(s string) string {
	if s == "" {
		return "emptyStr"
	}
	if n, ok := v.strs[s]; ok {
		return n
	}
	n := "str_" + strconv.Itoa(len(v.strs))
	v.strs[s] = n
	return n
}

// typeTag numbers dynamic types of interfaces; 0 is the nil interface.
func (v *VC) typeTag(t types.Type) int {
	k := typeKey(t)
	return tagOf(k)
}

var tagTable = map[string]int{}
var tagNames []string

var tagMu sync.Mutex

func tagOf(k string) int {
	tagMu.Lock()
	defer tagMu.Unlock()
	if n, ok := tagTable[k]; ok {
		return n
	}
	n := len(tagTable) + 1
	tagTable[k] = n
	tagNames = append(tagNames, k)
	return n
}
