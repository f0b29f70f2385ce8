package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalCtx evaluates specification expressions in a state.
type evalCtx struct {
	nowSt   *State
	v       *VC
	st, old *State
	fr      *Frame
	loop    *loopInfo
	header  *ssa.BasicBlock
	names   map[string]Val
	bound   map[string]Val
	pre     bool // evaluate as of loop entry
	inOld   bool
	depth   int
}

type specErr struct{ s string }

func (c *evalCtx) fail(e *SExpr, f string, a ...any) {
	panic(specErr{e.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (c *evalCtx) boolean(e *SExpr) (t string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.s)
				t = "true"
				return
			}
			panic(r)
		}
	}()
	x := c.eval(e)
	if x.So != "Bool" {
		c.fail(e, "not a formula (%s)", x.So)
	}
	return x.T, nil
}

func (c *evalCtx) value(e *SExpr) (x Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.s)
				return
			}
			panic(r)
		}
	}()
	return c.eval(e), nil
}

func (c *evalCtx) with(st *State) *evalCtx {
	d := *c
	d.st = st
	return &d
}

func (c *evalCtx) bind(m map[string]Val) *evalCtx {
	d := *c
	d.bound = map[string]Val{}
	for k, x := range c.bound {
		d.bound[k] = x
	}
	for k, x := range m {
		d.bound[k] = x
	}
	return &d
}

func boolV(t string) Val { return Val{T: t, So: "Bool"} }
func intV(t string) Val  { return Val{T: t, So: "Int"} }

func (v *VC) get0(st *State, comp string) string { return v.get(st, comp) }

func (c *evalCtx) heap() string {
	c.v.declComp("H", "Heap")
	return c.v.get(c.st, "H")
}

func (c *evalCtx) eval(e *SExpr) Val {
	v := c.v
	switch e.Op {
	case "num":
		b, ok := new(big.Int).SetString(e.S, 0)
		if !ok {
			c.fail(e, "bad number %s", e.S)
		}
		return Val{T: Num(b), So: "Int", Var: "lit"}
	case "flt":
		f, _ := strconv.ParseFloat(e.S, 64)
		return Val{T: fmt.Sprint(f), So: "fltlit"}
	case "str":
		return Val{T: v.strConst(e.S), So: "Str"}
	case "id":
		return c.ident(e)
	case "un":
		x := c.eval(e.A[0])
		if e.S == "!" {
			if x.So != "Bool" {
				c.fail(e, "! of %s", x.So)
			}
			return boolV(Not(x.T))
		}
		switch {
		case x.So == "Int":
			return intV(Sub("0", x.T))
		case x.So == "F32" || x.So == "F64":
			return Val{T: sx("fneg"+x.So[1:], x.T), So: x.So}
		case strings.HasPrefix(x.So, "(_ BitVec"):
			return Val{T: sx("bvneg", x.T), So: x.So}
		}
		c.fail(e, "- of %s", x.So)
	case "bin":
		return c.bin(e)
	case "ite":
		a, b, d := c.eval(e.A[0]), c.eval(e.A[1]), c.eval(e.A[2])
		b, d = c.unify(e, b, d)
		return Val{T: Ite(a.T, b.T, d.T), So: b.So, Ty: b.Ty}
	case "let":
		x := c.eval(e.A[0])
		return c.bind(map[string]Val{e.S: x}).eval(e.A[1])
	case "all", "ex":
		m := map[string]Val{}
		var ds []string
		for _, q := range e.Vars {
			so := v.specSort(q.Sort)
			var ty types.Type
			if t := v.specType(q.Sort); t != nil {
				ty = types.NewPointer(t)
				so = "Int"
			}
			v.n++
			n := fmt.Sprintf("%s_q%d", sanit(q.Name), v.n)
			m[q.Name] = Val{T: n, So: so, Ty: ty}
			ds = append(ds, fmt.Sprintf("(%s %s)", n, so))
		}
		d := c.bind(m)
		b := d.eval(e.A[0])
		if b.So != "Bool" {
			c.fail(e, "quantifier over %s", b.So)
		}
		if b.T == "true" || b.T == "false" {
			return b
		}
		body := b.T
		if len(e.Trig) > 0 {
			var ts []string
			for _, tr := range e.Trig {
				var xs []string
				for _, x := range tr {
					xs = append(xs, d.eval(x).T)
				}
				ts = append(ts, ":pattern ("+strings.Join(xs, " ")+")")
			}
			body = "(! " + body + " " + strings.Join(ts, " ") + ")"
		}
		q := "forall"
		if e.Op == "ex" {
			q = "exists"
		}
		return boolV(fmt.Sprintf("(%s (%s) %s)", q, strings.Join(ds, " "), body))
	case "fld":
		return c.field(e)
	case "idx":
		x, i := c.eval(e.A[0]), c.eval(e.A[1])
		if x.So == "Slice" {
			sl, ok := under(x.Ty).(*types.Slice)
			if !ok {
				c.fail(e, "index of a slice of unknown type")
			}
			et := sl.Elem()
			_, fn, _ := v.elFn(et)
			comp, _, _ := v.elFn(et)
			return Val{T: sx(fn, v.get(c.st, comp), sx("sptr", x.T), i.T), So: v.sortOf(et), Ty: et}
		}
		if strings.HasPrefix(x.So, "(Array ") {
			es := arrayElem(x.So)
			r := Val{T: sx("select", x.T, i.T), So: es}
			if x.Ty != nil {
				if a, ok := under(x.Ty).(*types.Array); ok {
					r.Ty = a.Elem()
				}
			}
			return r
		}
		c.fail(e, "index of %s", x.So)
	case "call":
		return c.callE(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return Val{}
}

func arrayElem(so string) string {
	a := sexpArgs(so)
	return a[2]
}

// specType finds a named type of the code by "pkg.T", instantiated for this VC.
func (v *VC) specType(k string) types.Type {
	if !strings.Contains(k, ".") {
		return nil
	}
	return v.P.lookupType(k, v.inst)
}

func (P *Program) lookupType(k string, inst Inst) types.Type {
	i := strings.LastIndex(k, ".")
	for _, p := range P.prog.AllPackages() {
		if pkgBase(p.Pkg) != k[:i] {
			continue
		}
		o := p.Pkg.Scope().Lookup(k[i+1:])
		tn, ok := o.(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			return tn.Type()
		}
		tp := n.TypeParams()
		if tp.Len() == 0 {
			return n
		}
		basic := func(s string) types.Type {
			for _, b := range types.Typ {
				if b.Name() == s {
					return b
				}
			}
			return nil
		}
		tv, tix := basic(inst.TV), basic(inst.TIX)
		if tv == nil {
			tv = types.Typ[types.Float32]
		}
		if tix == nil {
			tix = types.Typ[types.Uint32]
		}
		args := []types.Type{tv, tix}
		if tp.Len() == 1 {
			args = []types.Type{tix}
		}
		t, err := types.Instantiate(nil, n, args, false)
		if err != nil {
			return nil
		}
		return t
	}
	return nil
}

// path turns a chain of field selections into a dotted name.
func path(e *SExpr) string {
	switch e.Op {
	case "id":
		return e.S
	case "fld":
		p := path(e.A[0])
		if p != "" {
			return p + "." + e.S
		}
	}
	return ""
}

func (c *evalCtx) fieldOf(e *SExpr, t types.Type, obj, name string) Val {
	v := c.v
	st, ok := under(t).(*types.Struct)
	if !ok {
		c.fail(e, "%s is not a struct", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != name {
			continue
		}
		ft := st.Field(i).Type()
		if v.isRawStruct(t) {
			c.fail(e, "field of raw struct %s", t)
		}
		if _, ok := under(ft).(*types.Struct); ok {
			return Val{T: sx("subobj", obj, NumI(int64(tagOf("sub|"+typeKey(t)+"|"+name)))), So: "Int", Ty: types.NewPointer(ft)}
		}
		comp, _ := v.fieldComp(t, i)
		if imm := v.immField(&Addr{Comp: comp}); imm != "" && !v.localObj[obj] {
			return Val{T: sx(imm, obj), So: v.sortOf(ft), Ty: ft}
		}
		t := sx("select", v.get(c.st, comp), obj)
		if _, ok := under(ft).(*types.Slice); ok && !boundVar.MatchString(obj) {
			if k := t + "|" + v.get(c.st, "brk"); !v.known[k] {
				v.known[k] = v.dry == 0
				v.typeFacts(ft, t, c.st)
			}
		}
		return Val{T: t, So: v.sortOf(ft), Ty: ft}
	}
	c.fail(e, "no field %s in %s", name, t)
	return Val{}
}

var boundVar = regexp.MustCompile(`_q[0-9]`)

func (c *evalCtx) field(e *SExpr) Val {
	x := c.eval(e.A[0])
	if len(x.Tup) > 0 && x.Ty != nil {
		st := under(x.Ty).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.S {
				return x.Tup[i]
			}
		}
	}
	if x.Ty == nil {
		c.fail(e, "field %s of a value of unknown type", e.S)
	}
	t := x.Ty
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	return c.fieldOf(e, t, c.v.tm(c.st, x), e.S)
}

func (c *evalCtx) ident(e *SExpr) Val {
	v := c.v
	n := e.S
	if x, ok := c.bound[n]; ok {
		return x
	}
	switch n {
	case "true", "false":
		return boolV(n)
	case "nil":
		return Val{T: "0", So: "nil"}
	case "W":
		return intV(v.W())
	case "WF":
		return intV(v.WF())
	case "H":
		return Val{T: c.heap(), So: "Heap"}
	case "PH":
		k := v.pairComp()
		return Val{T: v.get(c.st, k), So: v.compSort(k)}
	case "brk":
		return intV(v.get(c.st, "brk"))
	case "brk0":
		return intV(v.get(c.old, "brk"))
	case "MAXIX":
		if v.inst.TIX == "uint64" {
			return intV("18446744073709551615")
		}
		return intV("4294967295")
	case "inf":
		return Val{T: "inf" + v.FS()[1:], So: v.FS()}
	case "inf64":
		return Val{T: "inf64", So: "F64"}
	case "fzero":
		return Val{T: "fz" + v.FS()[1:], So: v.FS()}
	}
	if strings.HasPrefix(n, "$") {
		if x, ok := c.counterVal(n); ok {
			return x
		}
		c.fail(e, "no loop counter %s", n)
	}
	if s, ok := v.Sp.Consts[n]; ok {
		return Val{T: "K_" + n, So: v.specSort(s)}
	}
	if _, ok := v.Sp.Ghosts[n]; ok {
		comp := v.gcomp(n)
		return Val{T: v.get(c.st, comp), So: v.compSort(comp)}
	}
	if d, ok := v.Sp.Defs[n]; ok && len(d.Params) == 0 {
		return c.expand(e, d, nil)
	}
	if u, ok := v.Sp.UFs[n]; ok && len(u.Args) == 0 {
		return Val{T: v.ufName(n), So: v.specSort(u.Ret)}
	}
	if c.fr != nil {
		if x, ok := c.local(n); ok {
			if x.Dyn != nil && x.So == "Iface" && c.v.C.Body != "" {
				return *x.Dyn
			}
			return x
		}
	}
	if x, ok := c.names[n]; ok {
		return x
	}
	for f := c.fr; f != nil; f = f.parent {
		if x, ok := f.names[n]; ok {
			return x
		}
	}
	c.fail(e, "unknown name %s", n)
	return Val{}
}

func (v *VC) ufName(n string) string { return "u_" + n }

// counterVal gives $i: the number of completed iterations of the current loop (or of an enclosing
// loop: $i1 is the next outer one), from a counter of the loop.
func (c *evalCtx) counterVal(n string) (Val, bool) {
	if c.loop == nil || c.fr == nil {
		return Val{}, false
	}
	li := c.loop
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		up, ok := c.v.counter(li, p)
		if !ok || !isInt(p.Type()) {
			continue
		}
		x, i := c.fr.vals[p], li.inits[p]
		if c.pre {
			return intV("0"), true
		}
		if up > 0 {
			return intV(Sub(x.T, i.T)), true
		}
		return intV(Sub(i.T, x.T)), true
	}
	return Val{}, false
}

// local resolves a source level variable at the current point.
func (c *evalCtx) local(n string) (Val, bool) {
	fr, h := c.fr, c.header
	for f := fr; f != nil; f = f.parent {
		if h == nil {
			h = f.at
		}
		if h != nil {
			if x, ok := c.localIn(f, h, n, f == fr); ok {
				return x, true
			}
		}
		for _, p := range f.fn.Params {
			if p.Name() == n {
				if x, ok := f.vals[p]; ok {
					return x, true
				}
			}
		}
		for _, p := range f.fn.FreeVars {
			if p.Name() == n {
				if x, ok := f.vals[p]; ok {
					return c.v.loadVar(f, c.st, "true", x, deref(p.Type())), true
				}
			}
		}
		h = f.callAt
	}
	return Val{}, false
}

func (c *evalCtx) localIn(fr *Frame, h *ssa.BasicBlock, n string, top bool) (Val, bool) {
	b := h
	first := true
	for b != nil {
		// the header itself: only its phis
		if !first || !top || c.loop == nil {
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				d, ok := b.Instrs[i].(*ssa.DebugRef)
				if !ok {
					continue
				}
				id, ok := d.Expr.(*ast.Ident)
				if !ok || id.Name != n || d.Object() == nil {
					continue
				}
				if o, ok := d.Object().(*types.Var); !ok || o.IsField() {
					continue
				}
				var x Val
				if !d.IsAddr {
					// a variable that lives in memory: its value there, not the one it was last seen to get
					if a := allocOf(fr.fn, n, d.Object().Pos()); a != nil {
						if y, ok := fr.vals[a]; ok {
							return c.v.loadVar(fr, c.st, "true", y, deref(a.Type())), true
						}
					}
				}
				switch k := d.X.(type) {
				case *ssa.Const, *ssa.Function:
					x = c.v.val(fr, c.st, k)
				default:
					y, ok := fr.vals[d.X]
					if !ok {
						continue
					}
					x = y
				}
				if d.IsAddr {
					return c.v.loadVar(fr, c.st, "true", x, deref(d.X.Type())), true
				}
				return x, true
			}
		}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if p.Comment == n {
				if c.pre && c.loop != nil && c.loop.header == b {
					return c.loop.inits[p], true
				}
				if x, ok := fr.vals[p]; ok {
					return x, true
				}
			}
		}
		// variables that live in cells
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
				if x, ok := fr.vals[a]; ok {
					return c.v.loadVar(fr, c.st, "true", x, deref(a.Type())), true
				}
			}
		}
		first = false
		b = b.Idom()
	}
	return Val{}, false
}

// loadVar: the value of a variable; a struct that is an object stands for its address.
func (v *VC) loadVar(fr *Frame, st *State, reach string, x Val, t types.Type) Val {
	if _, ok := under(t).(*types.Struct); ok && x.A == nil && x.T != "" {
		return x
	}
	return v.load(fr, st, reach, x, t)
}

func allocOf(f *ssa.Function, n string, pos token.Pos) *ssa.Alloc {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == n && a.Pos() == pos {
				return a
			}
		}
	}
	return nil
}

func isBV(s string) bool { return strings.HasPrefix(s, "(_ BitVec") }

func (c *evalCtx) unify(e *SExpr, a, b Val) (Val, Val) {
	v := c.v
	if a.So == b.So {
		return a, b
	}
	conv := func(x Val, so string) (Val, bool) {
		switch {
		case x.So == "nil" && so == "Iface":
			return Val{T: "nilIface", So: so}, true
		case x.So == "nil" && so == "Slice":
			return Val{T: "nilSlice", So: so}, true
		case x.So == "nil":
			return Val{T: "0", So: so}, true
		case x.So == "fltlit" && (so == "F32" || so == "F64"):
			f, _ := strconv.ParseFloat(x.T, 64)
			return Val{T: v.floatConst(f, so), So: so}, true
		case x.So == "Int" && x.Var == "lit" && (so == "F32" || so == "F64"):
			f, _ := strconv.ParseFloat(x.T, 64)
			return Val{T: v.floatConst(f, so), So: so}, true
		case x.So == "fltlit" && so == "Real":
			f, _ := strconv.ParseFloat(x.T, 64)
			return Val{T: ratTerm(f), So: so}, true
		case x.So == "Int" && so == "Real":
			return Val{T: sx("to_real", x.T), So: so}, true
		case x.So == "Int" && isNum(x.T) && isBV(so):
			w := strings.TrimSuffix(so[10:], ")")
			n, _ := strconv.Atoi(w)
			return Val{T: fmt.Sprintf("(_ bv%s %s)", new(big.Int).Mod(numOf(x.T), pow2(uint(n))), w), So: so}, true
		}
		return x, false
	}
	if y, ok := conv(a, b.So); ok {
		return y, b
	}
	if y, ok := conv(b, a.So); ok {
		return a, y
	}
	c.fail(e, "operands of %s have sorts %s and %s", e.S, a.So, b.So)
	return a, b
}

func (c *evalCtx) bin(e *SExpr) Val {
	a := c.eval(e.A[0])
	switch e.S {
	case "&&", "||", "==>", "<==>":
		b := c.eval(e.A[1])
		if a.So != "Bool" || b.So != "Bool" {
			c.fail(e, "%s of %s and %s", e.S, a.So, b.So)
		}
		switch e.S {
		case "&&":
			return boolV(And(a.T, b.T))
		case "||":
			return boolV(Or(a.T, b.T))
		case "==>":
			return boolV(Imp(a.T, b.T))
		}
		return boolV(Eq(a.T, b.T))
	}
	b := c.eval(e.A[1])
	if (e.S == "==" || e.S == "!=") && (a.So == "nil" || b.So == "nil") {
		x := a
		if a.So == "nil" {
			x = b
		}
		var t string
		switch x.So {
		case "Slice":
			t = Eq(sx("sptr", x.T), "0")
		case "Iface":
			t = Eq(sx("itag", x.T), "0")
		default:
			t = Eq(x.T, "0")
		}
		if e.S == "!=" {
			t = Not(t)
		}
		return boolV(t)
	}
	if e.S != "<<" && e.S != ">>" || isBV(a.So) || isBV(b.So) {
		a, b = c.unify(e, a, b)
	}
	switch e.S {
	case "==":
		return boolV(Eq(a.T, b.T))
	case "!=":
		return boolV(Not(Eq(a.T, b.T)))
	}
	if isBV(a.So) {
		op := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor", "<<": "bvshl", ">>": "bvlshr",
			"%": "bvurem", "/": "bvudiv", "<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}[e.S]
		if strings.HasPrefix(op, "bvu") && op != "bvurem" && op != "bvudiv" {
			return boolV(sx(op, a.T, b.T))
		}
		return Val{T: sx(op, a.T, b.T), So: a.So}
	}
	if a.So == "F32" || a.So == "F64" {
		s := a.So[1:]
		switch e.S {
		case "+":
			return Val{T: sx("fadd"+s, a.T, b.T), So: a.So}
		case "-":
			return Val{T: sx("fsub"+s, a.T, b.T), So: a.So}
		case "*":
			return Val{T: sx("fmul"+s, a.T, b.T), So: a.So}
		case "/":
			return Val{T: sx("fdiv"+s, a.T, b.T), So: a.So}
		case "<":
			return boolV(sx("flt"+s, a.T, b.T))
		case "<=":
			return boolV(sx("fle"+s, a.T, b.T))
		case ">":
			return boolV(sx("flt"+s, b.T, a.T))
		case ">=":
			return boolV(sx("fle"+s, b.T, a.T))
		}
	}
	if a.So == "Real" {
		switch e.S {
		case "+", "-", "*":
			return Val{T: sx(e.S, a.T, b.T), So: "Real"}
		case "<", "<=", ">", ">=":
			return boolV(sx(e.S, a.T, b.T))
		}
	}
	if a.So == "Str" && e.S == "+" {
		return Val{T: sx("strcat", a.T, b.T), So: "Str"}
	}
	if a.So != "Int" {
		c.fail(e, "%s of %s", e.S, a.So)
	}
	switch e.S {
	case "+":
		return intV(Add(a.T, b.T))
	case "-":
		return intV(Sub(a.T, b.T))
	case "*":
		return intV(MulT(a.T, b.T))
	case "/":
		if isNum(b.T) {
			return intV(sx("div", a.T, b.T))
		}
		return intV(sx("udiv", a.T, b.T))
	case "%":
		if isNum(b.T) {
			return intV(sx("mod", a.T, b.T))
		}
		return intV(sx("umod", a.T, b.T))
	case "<":
		return boolV(Lt(a.T, b.T))
	case "<=":
		return boolV(Le(a.T, b.T))
	case ">":
		return boolV(Lt(b.T, a.T))
	case ">=":
		return boolV(Le(b.T, a.T))
	}
	c.fail(e, "operator %s", e.S)
	return Val{}
}

func (c *evalCtx) expand(e *SExpr, d *Def, args []Val) Val {
	if c.depth > 40 {
		c.fail(e, "definition %s is too deep", d.Name)
	}
	if len(args) != len(d.Params) {
		c.fail(e, "%s expects %d arguments", d.Name, len(d.Params))
	}
	m := map[string]Val{}
	for i, p := range d.Params {
		m[p] = args[i]
	}
	n := *c
	n.bound = m
	n.depth++
	n.fr, n.header = nil, nil
	n.names = nil
	return n.eval(d.Body)
}

func (c *evalCtx) callE(e *SExpr) Val {
	v := c.v
	arg := func(i int) Val {
		if i >= len(e.A) {
			c.fail(e, "%s: missing argument", e.S)
		}
		return c.eval(e.A[i])
	}
	switch e.S {
	case "now": // inside old: the current state again
		if c.nowSt == nil {
			return c.eval(e.A[0])
		}
		d := c.with(c.nowSt)
		d.inOld = false
		return d.eval(e.A[0])
	case "old":
		d := c.with(c.old)
		if !c.inOld {
			d.nowSt = c.st
		}
		d.inOld = true
		return d.eval(e.A[0])
	case "head":
		if c.loop == nil || c.loop.headSt == nil {
			c.fail(e, "head outside a step")
		}
		save := map[*ssa.Phi]Val{}
		hd := c.with(c.loop.headSt)
		if c.nowSt == nil {
			hd.nowSt = c.st
		}
		if c.fr == nil {
			return hd.eval(e.A[0])
		}
		for p, x := range c.loop.headV {
			save[p] = c.fr.vals[p]
			c.fr.vals[p] = x
		}
		defer func() {
			for p, x := range save {
				c.fr.vals[p] = x
			}
		}()
		return hd.eval(e.A[0])
	case "pre":
		if c.loop == nil || c.loop.ctx == nil {
			c.fail(e, "pre outside a loop")
		}
		d := c.with(c.loop.ctx.pre)
		d.pre = true
		return d.eval(e.A[0])
	case "len":
		x := arg(0)
		if x.So == "Slice" {
			return intV(sx("slen", x.T))
		}
		if x.So == "Str" {
			return intV(sx("strlen", x.T))
		}
		c.fail(e, "len of %s", x.So)
	case "cap":
		return intV(sx("scap", arg(0).T))
	case "ptr":
		return intV(sx("sptr", arg(0).T))
	case "tag":
		return intV(sx("itag", arg(0).T))
	case "data":
		return intV(sx("idata", arg(0).T))
	case "int":
		x := arg(0)
		return intV(v.tm(c.st, x))
	case "iface": // iface(pkg.T, obj)
		return Val{T: sx("mkiface", NumI(int64(tagOf("*"+path(e.A[0])))), arg(1).T), So: "Iface"}
	case "typ":
		return intV(NumI(int64(tagOf("*" + path(e.A[0])))))
	case "at":
		k := path(e.A[0])
		i := strings.LastIndex(k, ".")
		t := v.specType(k[:i])
		if t == nil {
			c.fail(e, "unknown type %s", k[:i])
		}
		return c.fieldOf(e, t, arg(1).T, k[i+1:])
	case "as": // as(pkg.T, e): e as a pointer to T
		t := v.specType(path(e.A[0]))
		if t == nil {
			c.fail(e, "unknown type %s", path(e.A[0]))
		}
		x := arg(1)
		return Val{T: x.T, So: "Int", Ty: types.NewPointer(t)}
	case "deref":
		x := arg(0)
		if x.Ty == nil {
			c.fail(e, "deref of a value of unknown type")
		}
		return v.load(nil, c.st, "true", x, deref(x.Ty))
	case "I":
		return intV(sx("elI", c.heap(), arg(0).T, arg(1).T))
	case "Fl":
		return Val{T: sx("elF", c.heap(), arg(0).T, arg(1).T), So: v.FS()}
	case "B":
		return intV(sx("elB", c.heap(), arg(0).T, arg(1).T))
	case "node":
		return Val{T: sx("ldN", c.heap(), arg(0).T), So: "NodeC"}
	case "vec":
		return Val{T: sx("ldV", c.heap(), arg(0).T), So: "Vec"}
	case "bytes":
		return Val{T: sx("ldS", c.heap(), arg(0).T, arg(1).T), So: "Bytes"}
	case "hI":
		return intV(sx("elI", arg(0).T, arg(1).T, arg(2).T))
	case "hB":
		return intV(sx("elB", arg(0).T, arg(1).T, arg(2).T))
	case "hF":
		return Val{T: sx("elF", arg(0).T, arg(1).T, arg(2).T), So: v.FS()}
	case "hN":
		return Val{T: sx("ldN", arg(0).T, arg(1).T), So: "NodeC"}
	case "hV":
		return Val{T: sx("ldV", arg(0).T, arg(1).T), So: "Vec"}
	case "hS":
		return Val{T: sx("ldS", arg(0).T, arg(1).T, arg(2).T), So: "Bytes"}
	case "hP": // element of a slice of pairs
		t := types.NewPointer(v.specType("interfaces.Pair"))
		return Val{T: sx("el_"+v.compSort(v.pairComp()), arg(0).T, arg(1).T, arg(2).T), So: "Int", Ty: t}
	case "cnt": // cnt(h, p, lo, hi, e)
		h := arg(0)
		fn := "cnt_" + h.So
		if h.So == "Heap" {
			fn = "cnt_H"
		}
		return intV(sx(fn, h.T, arg(1).T, arg(2).T, arg(3).T, v.tm(c.st, arg(4))))
	case "cntstep": // unfold the count of one more element
		h := arg(0)
		fn := "cnt_" + h.So
		if h.So == "Heap" {
			fn = "cnt_H"
		}
		return boolV(sx(fn+"_step", h.T, arg(1).T, arg(2).T))
	case "cntat":
		h := arg(0)
		fn := "cnt_" + h.So
		if h.So == "Heap" {
			fn = "cnt_H"
		}
		return intV(sx(fn+"_at", h.T, arg(1).T, arg(2).T, arg(3).T, v.tm(c.st, arg(4))))
	case "rcopy":
		return boolV(sx("rcopy", arg(0).T, arg(1).T, arg(2).T, arg(3).T, arg(4).T))
	case "velem":
		return Val{T: sx("velem", arg(0).T, arg(1).T), So: v.FS()}
	case "rcopied": // rcopied(d, s, n): n bytes at d are those that were at s in the old state
		return boolV(sx("rcopy", c.heap(), arg(0).T, c.with(c.old).heap(), arg(1).T, arg(2).T))
	case "zeroed":
		return boolV(sx("zeroed", c.heap(), arg(0).T, arg(1).T))
	case "mine":
		return boolV(sx("mine", arg(0).T))
	case "fresh":
		x := arg(0)
		t := x.T
		switch x.So {
		case "Slice":
			t = sx("sptr", t)
		case "Iface":
			t = sx("idata", t)
		}
		return boolV(And(Le(v.get(c.old, "brk"), t), Lt(t, v.get(c.st, "brk"))))
	case "na":
		return intV(sx("na", arg(0).T, arg(1).T))
	case "nch":
		return intV(sx("fa_children", arg(0).T))
	case "nv":
		return intV(sx("fa_v", arg(0).T))
	case "ndf":
		return intV(sx("fa_dot_factor", arg(0).T))
	case "nnd":
		return intV(sx("fa_n_descendants", arg(0).T))
	case "cnd", "cvec", "cnorm", "cdf":
		so := map[string]string{"cnd": "Int", "cvec": "Vec", "cnorm": v.FS(), "cdf": v.FS()}[e.S]
		return Val{T: sx(e.S, arg(0).T), So: so}
	case "cch":
		return intV(sx("cch", arg(0).T, arg(1).T))
	case "bnode":
		return Val{T: sx("bnode", arg(0).T, arg(1).T), So: "NodeC"}
	case "blen":
		return intV(sx("blen", arg(0).T))
	case "isnan":
		x := arg(0)
		return boolV(sx("isnan"+x.So[1:], x.T))
	case "rk":
		x := arg(0)
		return Val{T: sx("rk"+x.So[1:], x.T), So: "Real"}
	case "feq":
		a, b := c.unify(e, arg(0), arg(1))
		return boolV(sx("feq"+a.So[1:], a.T, b.T))
	case "to64":
		x := arg(0)
		if x.So == "F64" {
			return x
		}
		return Val{T: sx("cvt3264", x.T), So: "F64"}
	case "toF":
		x := arg(0)
		if x.So == v.FS() {
			return x
		}
		return Val{T: sx("cvt"+x.So[1:]+v.FS()[1:], x.T), So: v.FS()}
	case "sqrt64":
		return Val{T: sx("m_sqrt", arg(0).T), So: "F64"}
	case "min64":
		return Val{T: sx("m_min", arg(0).T, arg(1).T), So: "F64"}
	case "max64":
		return Val{T: sx("m_max", arg(0).T, arg(1).T), So: "F64"}
	case "floor64":
		return Val{T: sx("m_floor", arg(0).T), So: "F64"}
	case "pow64":
		return Val{T: sx("m_pow", arg(0).T, arg(1).T), So: "F64"}
	case "fc":
		f, _ := strconv.ParseFloat(e.A[0].S, 64)
		return Val{T: v.floatConst(f, v.FS()), So: v.FS()}
	case "fc64":
		f, _ := strconv.ParseFloat(e.A[0].S, 64)
		return Val{T: v.floatConst(f, "F64"), So: "F64"}
	case "i2f64":
		return Val{T: sx("i2f64", arg(0).T), So: "F64"}
	case "f2i64":
		return Val{T: sx("f2i64", arg(0).T), So: "Int"}
	case "imul":
		return intV(MulT(arg(0).T, arg(1).T))
	case "zext64": // bit vectors
		x := arg(0)
		if x.So == "(_ BitVec 64)" {
			return x
		}
		return Val{T: "((_ zero_extend 32) " + x.T + ")", So: "(_ BitVec 64)"}
	case "trunc32":
		x := arg(0)
		if x.So == "(_ BitVec 32)" {
			return x
		}
		return Val{T: "((_ extract 31 0) " + x.T + ")", So: "(_ BitVec 32)"}
	case "trunc": // to the index type
		x := arg(0)
		if x.So == "(_ BitVec 32)" || v.inst.TIX == "uint64" {
			return x
		}
		return Val{T: "((_ extract 31 0) " + x.T + ")", So: "(_ BitVec 32)"}
	case "bv64":
		b, _ := new(big.Int).SetString(e.A[0].S, 0)
		return Val{T: fmt.Sprintf("(_ bv%s 64)", b), So: "(_ BitVec 64)"}
	case "store":
		a := arg(0)
		return Val{T: sx("store", a.T, arg(1).T, arg(2).T), So: a.So}
	case "constarr":
		x := arg(0)
		return Val{T: "((as const (Array Int " + x.So + ")) " + x.T + ")", So: "(Array Int " + x.So + ")"}
	case "mapHas":
		m := arg(0)
		hc, _ := v.mapComps(m.Ty)
		return boolV(sx("select", sx("select", v.get(c.st, hc), m.T), arg(1).T))
	case "mapGet":
		m := arg(0)
		_, vc := v.mapComps(m.Ty)
		mt := under(m.Ty).(*types.Map)
		return Val{T: sx("select", sx("select", v.get(c.st, vc), m.T), arg(1).T), So: v.sortOf(mt.Elem()), Ty: mt.Elem()}
	case "mapSame": // the map's contents are unchanged
		m := arg(0)
		hc, vc := v.mapComps(m.Ty)
		return boolV(And(Eq(sx("select", v.get(c.st, hc), m.T), sx("select", v.get(c.old, hc), m.T)),
			Eq(sx("select", v.get(c.st, vc), m.T), sx("select", v.get(c.old, vc), m.T))))
	case "fnid":
		return intV(fmt.Sprint(fnID(path(e.A[0]))))
	case "unbox":
		so := v.specSort(e.A[0].S)
		v.boxes[so] = true
		return Val{T: sx("unbox_"+xs(so), sx("idata", arg(1).T)), So: so}
	}
	if u, ok := v.Sp.UFs[e.S]; ok {
		if len(u.Args) != len(e.A) {
			c.fail(e, "%s expects %d arguments", e.S, len(u.Args))
		}
		var as []string
		for i := range e.A {
			x := arg(i)
			want := v.specSort(u.Args[i])
			if x.So != want {
				x, _ = c.unify(e, x, Val{So: want})
			}
			as = append(as, v.tm(c.st, x))
		}
		return Val{T: sx(v.ufName(e.S), as...), So: v.specSort(u.Ret)}
	}
	if d, ok := v.Sp.Defs[e.S]; ok {
		var as []Val
		for i := range e.A {
			as = append(as, arg(i))
		}
		return c.expand(e, d, as)
	}
	c.fail(e, "unknown function %s", e.S)
	return Val{}
}
