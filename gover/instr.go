package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// val is the symbolic value of an operand.
func (v *VC) val(fr *Frame, st *State, x ssa.Value) Val {
	if r, ok := fr.vals[x]; ok {
		return r
	}
	switch x := x.(type) {
	case *ssa.Const:
		return v.constVal(x)
	case *ssa.Function:
		return Val{T: v.fnTerm(x), So: "Int", Ty: x.Type(), Fn: x}
	case *ssa.Global:
		return Val{T: v.globalTerm(x), So: "Int", Ty: x.Type()}
	case *ssa.Builtin:
		return Val{T: "0", So: "Int", Ty: x.Type()}
	case *ssa.FreeVar, *ssa.Parameter:
		v.errorf("unbound %s in %s", x.Name(), fr.fn)
	default:
		v.errorf("value %s = %s not computed in %s", x.Name(), x, fr.fn)
	}
	r := Val{So: v.sortOf(x.Type()), Ty: x.Type()}
	r.T = v.fresh("undef", r.So)
	fr.vals[x] = r
	return r
}

func (v *VC) fnTerm(f *ssa.Function) string {
	k := funcKey(f)
	if k == "" {
		k = f.String()
	}
	if n, ok := v.fids[k]; ok {
		return fmt.Sprint(n)
	}
	n := fnID(k)
	v.fids[k] = n
	return fmt.Sprint(n)
}

var fnIDs = map[string]int{}

func fnID(k string) int {
	tagMu.Lock()
	defer tagMu.Unlock()
	if n, ok := fnIDs[k]; ok {
		return n
	}
	n := len(fnIDs) + 1
	fnIDs[k] = n
	return n
}

func (v *VC) globalTerm(g *ssa.Global) string {
	n := "glob_" + sanit(g.String())
	v.globals[n] = true
	return n
}

// tm makes sure that a value has a term.
func (v *VC) tm(st *State, x Val) string {
	if x.T != "" {
		return x.T
	}
	if x.A != nil {
		switch x.A.Kind {
		case "rawel":
			return v.addrTerm(x.A)
		case "field":
			return sx("fldptr", x.A.Obj, NumI(int64(tagOf(x.A.Comp))))
		}
	}
	if x.Fn != nil {
		return v.fnTerm(x.Fn)
	}
	v.errorf("value without a term")
	return "0"
}

func (v *VC) addrTerm(a *Addr) string {
	if a.Idx == "0" || a.Idx == "" {
		return a.Obj
	}
	w := a.W
	if w == "" {
		w = NumI(v.sizeof(a.Elem))
	}
	return Add(a.Obj, MulT(w, a.Idx))
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// load reads through a pointer.
func (v *VC) load(fr *Frame, st *State, reach string, p Val, t types.Type) Val {
	so := v.sortOf(t)
	if p.A != nil {
		a := p.A
		switch a.Kind {
		case "cell":
			x := v.cellVal(st, a, t)
			return x
		case "cellidx":
			return Val{T: sx("select", v.get(st, a.Comp), a.Idx), So: so, Ty: t}
		case "field":
			v.guard(st, reach, a, false)
			if imm := v.immField(a); imm != "" && !v.localObj[a.Obj] {
				if g := v.prophecy(a); g != nil && v.mayModifyGhost(g.Ghost) {
					v.oblige("prophecy", "read of "+a.Comp+" follows its assignment", v.C.Tags, reach,
						Or(sx("select", v.get(st, v.gcomp(g.Ghost)), a.Obj), v.prophExpr(st, g.Read, a)))
				}
				return Val{T: sx(imm, a.Obj), So: so, Ty: t}
			}
			x := Val{T: sx("select", v.get(st, a.Comp), a.Obj), So: so, Ty: t}
			x.T = v.name("f", so, x.T)
			v.typeFacts(t, x.T, st)
			return x
		case "x":
			c := v.xcomp(t)
			x := Val{T: v.name("el", so, sx("el_"+v.compSort(c), v.get(st, c), a.Obj, a.Idx)), So: so, Ty: t}
			v.typeFacts(t, x.T, st)
			return x
		case "rawel":
			if isNumeric(t) {
				if fr != nil {
					v.checkRead(v.addrTerm(a), NumI(v.sizeof(t)), reach)
				}
				x := Val{T: v.name("ld", so, v.elem(st, t, a.Obj, orZero(a.Idx))), So: so, Ty: t}
				v.assume("true", v.inRange(t, x.T))
				return x
			}
		case "ifw":
			// words of an interface value held in a cell
			ifc := sx("select", "x", "0")
			_ = ifc
			if a.Idx == "1" {
				return Val{T: sx("idata", v.get(st, a.Comp)), So: "Int", Ty: t}
			}
			return Val{T: sx("itag", v.get(st, a.Comp)), So: "Int", Ty: t}
		}
		if _, ok := under(t).(*types.Array); ok {
			return Val{T: v.fresh("arr", so), So: so, Ty: t}
		}
		v.errorf("load of %s through %s", t, a.Kind)
		return Val{T: v.fresh("undef", so), So: so, Ty: t}
	}
	if isNumeric(t) {
		if _, ok := under(t).(*types.Basic); ok && v.isRawPtr(p.Ty, t) {
			if fr != nil {
				v.checkRead(p.T, NumI(v.sizeof(t)), reach)
			}
			x := Val{T: v.name("ld", so, v.elem(st, t, p.T, "0")), So: so, Ty: t}
			v.assume("true", v.inRange(t, x.T))
			return x
		}
	}
	if sty, ok := under(t).(*types.Struct); ok {
		if v.isRawStruct(t) {
			v.errorf("load of a whole raw struct %s", t)
			return v.zero(t)
		}
		x := Val{Ty: t, So: "tuple"}
		for i := 0; i < sty.NumFields(); i++ {
			c, ft := v.fieldComp(t, i)
			x.Tup = append(x.Tup, Val{T: sx("select", v.get(st, c), p.T), So: v.sortOf(ft), Ty: ft})
		}
		return x
	}
	c := v.pcomp(t)
	x := Val{T: v.name("f", so, sx("select", v.get(st, c), p.T)), So: so, Ty: t}
	v.typeFacts(t, x.T, st)
	return x
}

// checkRead obliges raw reads to stay inside the reads clauses, when there are any.
func (v *VC) checkRead(adr, n, reach string) {
	if v.dry > 0 || len(v.topBound) == 0 {
		return
	}
	var ds []string
	have := false
	for _, b := range v.topBound {
		for _, c := range b.c.Clauses {
			if c.Kind != "reads" {
				continue
			}
			have = true
			ls, err := v.locInfos(&evalCtx{v: v, st: v.entry, old: v.entry, names: b.names}, c.Locs)
			if err != nil {
				v.errorf("reads: %v", err)
			}
			for _, l := range ls {
				if l.raw && !l.all {
					ds = append(ds, And(Le(l.ptr, adr), Le(Add(adr, n), Add(l.ptr, l.n))))
				}
			}
		}
	}
	if have {
		ds = append(ds, Le(v.brk0, adr))
		v.oblige("reads", "read stays inside the given memory", v.C.Tags, reach, Or(ds...))
	}
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

// isRawPtr: pointers to numbers always point into raw memory.
func (v *VC) isRawPtr(pt, t types.Type) bool { return isNumeric(t) && !v.bv }

func (v *VC) cellVal(st *State, a *Addr, t types.Type) Val {
	if u, ok := under(t).(*types.Struct); ok {
		x := Val{Ty: t, So: "tuple"}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			x.Tup = append(x.Tup, v.cellVal(st, &Addr{Kind: "cell", Comp: a.Comp + "." + u.Field(i).Name(), Elem: ft}, ft))
		}
		return x
	}
	if cv, ok := v.cellMeta[a.Comp]; ok && cv.T == v.get(st, a.Comp) {
		return cv
	}
	return Val{T: v.get(st, a.Comp), So: v.sortOf(t), Ty: t}
}

func (v *VC) setCell(st *State, a *Addr, t types.Type, x Val) {
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			v.setCell(st, &Addr{Kind: "cell", Comp: a.Comp + "." + u.Field(i).Name(), Elem: ft}, ft, x.Tup[i])
		}
		return
	}
	so := v.sortOf(t)
	v.declComp(a.Comp, so)
	v.comps[a.Comp] = t
	v.log = append(v.log, wlog{comp: a.Comp})
	st.m[a.Comp] = v.name("c", so, v.tm(st, x))
	if x.Fn != nil || x.Dyn != nil || x.Var != "" {
		y := x
		y.T = st.m[a.Comp]
		v.cellMeta[a.Comp] = y
	}
}

func (v *VC) immField(a *Addr) string {
	k := strings.TrimPrefix(a.Comp, "f|")
	k = strings.Replace(k, "|", ".", 1)
	if v.Sp.Immutable[k] {
		n := "imm_" + sanit(k)
		v.imms[n] = v.elemSort(a.Comp)
		return n
	}
	return ""
}

func (v *VC) prophecy(a *Addr) *Proph {
	return v.Sp.Prophecy[strings.Replace(strings.TrimPrefix(a.Comp, "f|"), "|", ".", 1)]
}

func (v *VC) prophExpr(st *State, e *SExpr, a *Addr) string {
	ev := &evalCtx{v: v, st: st, old: v.entry, names: map[string]Val{"obj": {T: a.Obj, So: "Int"}}}
	t, err := ev.boolean(e)
	if err != nil {
		v.errorf("prophecy of %s: %v", a.Comp, err)
		return "false"
	}
	return t
}

// mayModifyGhost: the contract of the function that is verified lists the ghost.
func (v *VC) mayModifyGhost(n string) bool {
	if v.C == nil {
		return false
	}
	for _, c := range v.C.Clauses {
		if c.Kind == "modifies" {
			for _, l := range c.Locs {
				if l.Kind == "ghost" && l.S == n {
					return true
				}
			}
		}
	}
	return false
}

func (v *VC) elemSort(comp string) string {
	return strings.TrimSuffix(strings.TrimPrefix(v.compSort(comp), "(Array Int "), ")")
}

// linkImm publishes the immutable fields of objects constructed here.
func (v *VC) linkImm(st *State) {
	for o, m := range v.immPend {
		for comp := range m {
			n := v.immField(&Addr{Comp: comp})
			v.assume("true", Eq(sx(n, o), sx("select", v.get(st, comp), o)))
		}
	}
	if v.dry == 0 && len(v.immPend) > 0 {
		v.immPend = map[string]map[string]bool{}
	}
}

func (v *VC) store(fr *Frame, st *State, reach string, p Val, t types.Type, x Val, pos token.Pos) {
	what := "store at " + v.posOf(pos)
	if p.A != nil {
		a := p.A
		switch a.Kind {
		case "cell":
			v.setCell(st, a, t, x)
			return
		case "cellidx":
			v.log = append(v.log, wlog{comp: a.Comp})
			v.set(st, a.Comp, sx("store", v.get(st, a.Comp), a.Idx, v.tm(st, x)))
			if x.Ty != nil {
				if m, ok := v.varCells[a.Comp]; ok {
					m[a.Idx] = x
				}
			}
			return
		case "field":
			v.guard(st, reach, a, true)
			if fk := strings.ReplaceAll(strings.TrimPrefix(a.Comp, "f|"), "|", "."); v.Sp.Contracts[fk] != nil && v.Sp.Contracts[fk].Kind == "field" {
				// a function stored in a field must be one that was verified against the field's contract
				ok := x.T == "0"
				if x.Fn != nil {
					if fc := v.Sp.Contracts[funcKey(x.Fn)]; fc != nil {
						for _, k := range fc.Implements {
							ok = ok || k == fk
						}
					}
				}
				if !ok {
					v.errorf("%s: the function stored in %s is not known to meet its contract", v.posOf(pos), fk)
				}
			}
			if imm := v.immField(a); imm != "" {
				if g := v.prophecy(a); g != nil && !v.localObj[a.Obj] && v.mayModifyGhost(g.Ghost) {
					pa := v.get(st, v.gcomp(g.Ghost))
					v.oblige("prophecy", "assignment of "+a.Comp+" at "+v.posOf(pos)+" is the only one", v.C.Tags, reach, Not(sx("select", pa, a.Obj)))
					v.oblige("prophecy", "assignment of "+a.Comp+" at "+v.posOf(pos)+" is before any use", v.C.Tags, reach, v.prophExpr(st, g.Write, a))
					v.assume(reach, Eq(sx(imm, a.Obj), v.tm(st, x)))
					v.log = append(v.log, wlog{comp: v.gcomp(g.Ghost)})
					v.set(st, v.gcomp(g.Ghost), sx("store", pa, a.Obj, "true"))
					return
				}
				if !v.localObj[a.Obj] {
					v.errorf("%s: immutable field %s is assigned", v.posOf(pos), a.Comp)
				}
				if v.immPend[a.Obj] == nil {
					v.immPend[a.Obj] = map[string]bool{}
				}
				v.immPend[a.Obj][a.Comp] = true
			}
			v.objWrite(st, reach, a.Comp, a.Obj, v.tm(st, x), what)
			return
		case "x":
			v.storeElem(st, reach, t, a.Obj, a.Idx, v.tm(st, x), what)
			return
		case "rawel":
			if isNumeric(t) {
				v.storeElem(st, reach, t, a.Obj, orZero(a.Idx), v.tm(st, x), what)
				return
			}
		}
		v.errorf("store of %s through %s", t, a.Kind)
		return
	}
	if isNumeric(t) && v.isRawPtr(p.Ty, t) {
		v.storeElem(st, reach, t, p.T, "0", v.tm(st, x), what)
		return
	}
	if sty, ok := under(t).(*types.Struct); ok {
		if v.isRawStruct(t) && x.Zero {
			n := NumI(v.sizeof(t))
			_, h := v.rawWrite(st, reach, "H", p.T, n, what)
			v.assume(reach, sx("zeroed", h, p.T, n))
			return
		}
		if v.isRawStruct(t) || len(x.Tup) != sty.NumFields() {
			v.errorf("store of a whole struct %s", t)
			return
		}
		for i := 0; i < sty.NumFields(); i++ {
			c, ft := v.fieldComp(t, i)
			v.store(fr, st, reach, Val{A: &Addr{Kind: "field", Comp: c, Obj: p.T, Elem: ft}}, ft, x.Tup[i], pos)
		}
		return
	}
	c := v.pcomp(t)
	v.objWrite(st, reach, c, p.T, v.tm(st, x), what)
}

func (v *VC) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := v.P.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// guard obliges the lock that protects a field to be held.
func (v *VC) guard(st *State, reach string, a *Addr, write bool) {
	if v.C == nil || !v.C.Concurrent {
		return
	}
	k := strings.Replace(strings.TrimPrefix(a.Comp, "f|"), "|", ".", 1)
	if v.localObj[a.Obj] {
		return
	}
	found := false
	defer func() {
		if write && !found {
			v.ownWrite(st, reach, a.Obj, "write of "+k)
		}
	}()
	for _, g := range v.Sp.Guards {
		if g.Comp != k || (write && !g.Write) || (!write && !g.Read) {
			continue
		}
		found = true
		ev := &evalCtx{v: v, st: st, old: v.entry, names: map[string]Val{"obj": {T: a.Obj, So: "Int"}}}
		t, err := ev.boolean(g.E)
		if err != nil {
			v.errorf("guard of %s: %v", k, err)
			continue
		}
		rw := "read"
		if write {
			rw = "write"
		}
		v.oblige("guard", rw+" of "+k+" holds its lock", g.Tags, reach, t)
	}
}

// ownWrite obliges memory that is written while workers run to be the worker's own or protected.
func (v *VC) ownWrite(st *State, reach, p, what string) {
	if v.C == nil || !v.C.Concurrent {
		return
	}
	d := v.Sp.Defs["maywrite"]
	if d == nil {
		v.errorf("no definition maywrite")
		return
	}
	ev := &evalCtx{v: v, st: st, old: v.entry, names: map[string]Val{"p": {T: p, So: "Int"}}}
	t, err := ev.boolean(d.Body)
	if err != nil {
		v.errorf("maywrite: %v", err)
		return
	}
	v.oblige("guard", what+" writes memory of this worker", []string{"C05"}, reach, t)
}

func (v *VC) safety(name, reach, cond string) {
	v.oblige("safety", name, v.C.Tags, reach, cond)
}

func (v *VC) instr(fr *Frame, b *ssa.BasicBlock, st *State, reach string, in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return reach
	case *ssa.Alloc:
		fr.vals[in] = v.doAlloc(fr, st, reach, in)
	case *ssa.BinOp:
		fr.vals[in] = v.binop(fr, st, reach, in)
	case *ssa.UnOp:
		x := v.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			r := v.load(fr, st, reach, x, in.Type())
			fr.vals[in] = r
		case token.NOT:
			fr.vals[in] = Val{T: Not(x.T), So: "Bool", Ty: in.Type()}
		case token.SUB:
			if isFloat(in.Type()) {
				fr.vals[in] = Val{T: sx("fneg"+x.So[1:], x.T), So: x.So, Ty: in.Type()}
			} else if v.bv {
				fr.vals[in] = Val{T: sx("bvneg", x.T), So: x.So, Ty: in.Type()}
			} else {
				fr.vals[in] = Val{T: v.name("t", "Int", v.wrap1(in.Type(), Sub("0", x.T))), So: "Int", Ty: in.Type()}
			}
		case token.XOR:
			if v.bv {
				fr.vals[in] = Val{T: sx("bvnot", x.T), So: x.So, Ty: in.Type()}
			} else {
				fr.vals[in] = v.freshInt("not", in.Type())
			}
		default:
			v.errorf("%s: unsupported operation %s", v.posOf(in.Pos()), in)
			fr.vals[in] = v.unknown(in.Type())
		}
	case *ssa.ChangeType:
		x := v.val(fr, st, in.X)
		x.Ty = in.Type()
		fr.vals[in] = x
	case *ssa.ChangeInterface:
		x := v.val(fr, st, in.X)
		x.Ty = in.Type()
		fr.vals[in] = x
	case *ssa.Convert:
		fr.vals[in] = v.convert(fr, st, reach, v.val(fr, st, in.X), in.Type(), in.Pos())
	case *ssa.MakeInterface:
		x := v.val(fr, st, in.X)
		d := "0"
		tag := v.typeTag(in.X.Type())
		if _, ok := under(in.X.Type()).(*types.Pointer); ok {
			d = v.tm(st, x)
		} else {
			// a boxed value: only its type matters, its content is kept in box
			d = v.alloc(st, reach, "1")
			if x.T != "" && len(x.Tup) == 0 {
				so := v.sortOf(in.X.Type())
				v.boxes[so] = true
				v.assume(reach, Eq(sx("unbox_"+xs(so), d), x.T))
			}
		}
		r := Val{T: v.name("if", "Iface", sx("mkiface", NumI(int64(tag)), d)), So: "Iface", Ty: in.Type()}
		r.Dyn = &x
		fr.vals[in] = r
	case *ssa.TypeAssert:
		v.typeAssert(fr, st, reach, in)
	case *ssa.FieldAddr:
		fr.vals[in] = v.fieldAddr(fr, st, reach, in)
	case *ssa.Field:
		x := v.val(fr, st, in.X)
		if len(x.Tup) > in.Field {
			fr.vals[in] = x.Tup[in.Field]
		} else {
			v.errorf("%s: field of an opaque struct", v.posOf(in.Pos()))
			fr.vals[in] = v.unknown(in.Type())
		}
	case *ssa.IndexAddr:
		fr.vals[in] = v.indexAddr(fr, st, reach, in)
	case *ssa.Index:
		x, i := v.val(fr, st, in.X), v.val(fr, st, in.Index)
		if a, ok := under(in.X.Type()).(*types.Array); ok {
			v.safety("index in range at "+v.posOf(in.Pos()), reach, And(Le("0", i.T), Lt(i.T, NumI(a.Len()))))
			fr.vals[in] = Val{T: sx("select", x.T, i.T), So: v.sortOf(in.Type()), Ty: in.Type()}
		} else {
			v.errorf("%s: index of %s", v.posOf(in.Pos()), in.X.Type())
			fr.vals[in] = v.unknown(in.Type())
		}
	case *ssa.Extract:
		x := v.val(fr, st, in.Tuple)
		if len(x.Tup) > in.Index {
			fr.vals[in] = x.Tup[in.Index]
		} else {
			v.errorf("%s: extract from an opaque tuple", v.posOf(in.Pos()))
			fr.vals[in] = v.unknown(in.Type())
		}
	case *ssa.Slice:
		fr.vals[in] = v.slice(fr, st, reach, in)
	case *ssa.MakeSlice:
		l, c := v.val(fr, st, in.Len), v.val(fr, st, in.Cap)
		v.safety("make length at "+v.posOf(in.Pos()), reach, And(Le("0", l.T), Le(l.T, c.T)))
		// allocation of more than the address space panics
		et := under(in.Type()).(*types.Slice).Elem()
		v.assume(reach, Le(MulT(NumI(max(1, v.sizeof(et))), c.T), "281474976710656"))
		fr.vals[in] = v.makeSlice(st, reach, in.Type(), l.T, c.T)
	case *ssa.MakeClosure:
		r := Val{T: v.fresh("clo", "Int"), So: "Int", Ty: in.Type(), Fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			r.Bind = append(r.Bind, v.val(fr, st, x))
		}
		fr.vals[in] = r
	case *ssa.MakeMap:
		fr.vals[in] = v.newMap(st, reach, in.Type())
	case *ssa.MapUpdate:
		m, k, x := v.val(fr, st, in.Map), v.val(fr, st, in.Key), v.val(fr, st, in.Value)
		hc, vc := v.mapComps(in.Map.Type())
		v.mapStore(st, reach, m, k.T, v.tm(st, x), hc, vc, v.posOf(in.Pos()))
	case *ssa.Lookup:
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			m, k := v.val(fr, st, in.X), v.val(fr, st, in.Index)
			hc, vc := v.mapComps(in.X.Type())
			so := v.sortOf(mt.Elem())
			has := sx("select", sx("select", v.get(st, hc), m.T), k.T)
			x := Val{T: v.name("mv", so, Ite(has, sx("select", sx("select", v.get(st, vc), m.T), k.T), v.zeroTerm(so))), So: so, Ty: mt.Elem()}
			v.typeFacts(mt.Elem(), x.T, st)
			if in.CommaOk {
				fr.vals[in] = Val{So: "tuple", Ty: in.Type(), Tup: []Val{x, {T: has, So: "Bool", Ty: types.Typ[types.Bool]}}}
			} else {
				fr.vals[in] = x
			}
		} else {
			v.errorf("%s: lookup in %s", v.posOf(in.Pos()), in.X.Type())
			fr.vals[in] = v.unknown(in.Type())
		}
	case *ssa.Store:
		p := v.val(fr, st, in.Addr)
		x := v.val(fr, st, in.Val)
		v.store(fr, st, reach, p, deref(in.Addr.Type()), x, in.Pos())
	case *ssa.Call:
		r, nr := v.call(fr, st, reach, in, &in.Call, in.Pos())
		fr.vals[in] = r
		return nr
	case *ssa.Go:
		return v.doGo(fr, st, reach, in)
	case *ssa.Defer:
		d := deferred{cond: reach, call: in}
		d.fn = Val{}
		if in.Call.IsInvoke() || (in.Call.StaticCallee() == nil) {
			d.fn = v.val(fr, st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, v.val(fr, st, a))
		}
		if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
			d.fn = v.val(fr, st, mc)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		return v.runDefers(fr, b, st, reach)
	case *ssa.SliceToArrayPointer:
		x := v.val(fr, st, in.X)
		fr.vals[in] = Val{T: v.sptr(x.T), So: "Int", Ty: in.Type()}
	default:
		v.errorf("%s: unsupported instruction %s", v.posOf(in.Pos()), in)
		if x, ok := in.(ssa.Value); ok {
			fr.vals[x] = v.unknown(x.Type())
		}
	}
	return reach
}

func (v *VC) unknown(t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		r := Val{So: "tuple", Ty: t}
		for i := 0; i < tu.Len(); i++ {
			r.Tup = append(r.Tup, v.unknown(tu.At(i).Type()))
		}
		return r
	}
	if _, ok := under(t).(*types.Struct); ok {
		return v.zero(t)
	}
	so := v.sortOf(t)
	r := Val{T: v.fresh("any", so), So: so, Ty: t}
	v.assume("true", v.inRange(t, r.T))
	return r
}

func (v *VC) freshInt(h string, t types.Type) Val {
	x := Val{T: v.fresh(h, v.sortOf(t)), So: v.sortOf(t), Ty: t}
	v.assume("true", v.inRange(t, x.T))
	return x
}

func (v *VC) doAlloc(fr *Frame, st *State, reach string, in *ssa.Alloc) Val {
	t := deref(in.Type())
	if at, ok := under(t).(*types.Array); ok && in.Comment == "makeslice" {
		// make with constant size
		sl := v.makeSlice(st, reach, types.NewSlice(at.Elem()), NumI(at.Len()), NumI(at.Len()))
		return Val{T: v.sptr(sl.T), So: "Int", Ty: in.Type()}
	}
	id := fmt.Sprintf("c|%s%s_%s", fr.path, fr.fn.Name(), in.Name())
	if at, ok := under(t).(*types.Array); ok {
		so := v.sortOf(t)
		v.declComp(id, so)
		st.m[id] = v.name("c", so, v.zeroTerm(so))
		v.log = append(v.log, wlog{comp: id})
		if in.Comment == "varargs" || in.Comment == "slicelit" {
			v.varCells[id] = map[string]Val{}
		}
		return Val{T: "", So: "Int", Ty: in.Type(), A: &Addr{Kind: "cell", Comp: id, Elem: at}}
	}
	if !v.escapes(in) {
		a := &Addr{Kind: "cell", Comp: id, Elem: t}
		v.setCell(st, a, t, v.zero(t))
		return Val{So: "Int", Ty: in.Type(), A: a}
	}
	return v.newObject(st, reach, t)
}

// escapes: an allocation that is only loaded from, stored to and captured can live in a cell.
func (v *VC) escapes(in *ssa.Alloc) bool {
	_, isStruct := under(deref(in.Type())).(*types.Struct)
	if isStruct && in.Heap {
		return true
	}
	var check func(x ssa.Value, depth int) bool
	check = func(x ssa.Value, depth int) bool {
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == x {
					return true
				}
			case *ssa.FieldAddr:
				if !isStruct {
					return true
				}
				if _, ok := under(deref(r.Type())).(*types.Struct); ok {
					return true
				}
				if check(r, depth+1) {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == x {
						if check(r.Fn.(*ssa.Function).FreeVars[i], depth+1) {
							return true
						}
					}
				}
			case *ssa.Convert, *ssa.ChangeType:
				// the words of an interface (GetPtr)
				if _, ok := under(deref(in.Type())).(*types.Interface); ok {
					continue
				}
				return true
			default:
				return true
			}
		}
		return false
	}
	return check(in, 0)
}

func (v *VC) fieldAddr(fr *Frame, st *State, reach string, in *ssa.FieldAddr) Val {
	p := v.val(fr, st, in.X)
	t := deref(in.X.Type())
	ft := deref(in.Type())
	sty := under(t).(*types.Struct)
	if p.A != nil && p.A.Kind == "cell" {
		return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "cell", Comp: p.A.Comp + "." + sty.Field(in.Field).Name(), Elem: ft}}
	}
	if p.A != nil && p.A.Kind == "ifw" {
		return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "ifw", Comp: p.A.Comp, Idx: fmt.Sprint(in.Field), Elem: ft}}
	}
	pt := v.tm(st, p)
	if v.isRawStruct(t) {
		a := v.rawField(t, in.Field, pt)
		return Val{T: a, So: "Int", Ty: in.Type(), A: &Addr{Kind: "rawel", Obj: a, Idx: "0", Elem: ft}}
	}
	if _, ok := under(ft).(*types.Struct); ok {
		// embedded struct (mutexes): an object of its own
		c := "sub|" + typeKey(t) + "|" + sty.Field(in.Field).Name()
		return Val{T: sx("subobj", pt, NumI(int64(tagOf(c)))), So: "Int", Ty: in.Type()}
	}
	c, _ := v.fieldComp(t, in.Field)
	return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "field", Comp: c, Obj: pt, Elem: ft}}
}

// rawField is the address of a field of a struct laid over raw memory.
func (v *VC) rawField(t types.Type, i int, p string) string {
	sty := under(t).(*types.Struct)
	off := v.fieldOffset(t, i)
	n := sty.Field(i).Name()
	switch n {
	case "n_descendants", "children", "v", "dot_factor":
		// one layout per instance is known to the specification
		v.rawT[typeKey(t)] = t
		return sx("fa_"+n, p)
	}
	return Add(p, NumI(off))
}

func (v *VC) indexAddr(fr *Frame, st *State, reach string, in *ssa.IndexAddr) Val {
	x, i := v.val(fr, st, in.X), v.val(fr, st, in.Index)
	et := deref(in.Type())
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		v.safety("index in range at "+v.posOf(in.Pos()), reach, And(Le("0", i.T), Lt(i.T, v.slen(x.T))))
		p := v.sptr(x.T)
		if isNumeric(et) {
			return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "rawel", Obj: v.name("ptr", "Int", p), Idx: i.T, Elem: et}}
		}
		if _, ok := under(et).(*types.Struct); ok {
			v.errorf("%s: slice of structs", v.posOf(in.Pos()))
		}
		return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "x", Comp: v.xcomp(et), Obj: v.name("ptr", "Int", p), Idx: i.T, Elem: et}}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		if c, ok := in.Index.(*ssa.Const); !ok || c.Value == nil {
			v.safety("index in range at "+v.posOf(in.Pos()), reach, And(Le("0", i.T), Lt(i.T, NumI(at.Len()))))
		}
		if x.A != nil && x.A.Kind == "cell" {
			return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "cellidx", Comp: x.A.Comp, Idx: i.T, Elem: et}}
		}
		if isNumeric(et) {
			return Val{So: "Int", Ty: in.Type(), A: &Addr{Kind: "rawel", Obj: v.tm(st, x), Idx: i.T, Elem: et}}
		}
	}
	v.errorf("%s: index address of %s", v.posOf(in.Pos()), in.X.Type())
	return v.unknown(in.Type())
}

func (v *VC) binop(fr *Frame, st *State, reach string, in *ssa.BinOp) Val {
	x, y := v.val(fr, st, in.X), v.val(fr, st, in.Y)
	t := in.X.Type()
	bt := in.Type()
	cmp := func(s string) Val { return Val{T: s, So: "Bool", Ty: bt} }
	if isFloat(t) {
		s := x.So[1:]
		switch in.Op {
		case token.ADD:
			return Val{T: v.name("fl", x.So, sx("fadd"+s, x.T, y.T)), So: x.So, Ty: bt}
		case token.SUB:
			return Val{T: v.name("fl", x.So, sx("fsub"+s, x.T, y.T)), So: x.So, Ty: bt}
		case token.MUL:
			return Val{T: v.name("fl", x.So, sx("fmul"+s, x.T, y.T)), So: x.So, Ty: bt}
		case token.QUO:
			return Val{T: v.name("fl", x.So, sx("fdiv"+s, x.T, y.T)), So: x.So, Ty: bt}
		case token.LSS:
			return cmp(sx("flt"+s, x.T, y.T))
		case token.GTR:
			return cmp(sx("flt"+s, y.T, x.T))
		case token.LEQ:
			return cmp(sx("fle"+s, x.T, y.T))
		case token.GEQ:
			return cmp(sx("fle"+s, y.T, x.T))
		case token.EQL:
			return cmp(sx("feq"+s, x.T, y.T))
		case token.NEQ:
			return cmp(Not(sx("feq"+s, x.T, y.T)))
		}
		v.errorf("%s: float operation %s", v.posOf(in.Pos()), in.Op)
		return v.unknown(bt)
	}
	if isInt(t) {
		if v.bv {
			return v.bvop(in, x, y)
		}
		switch in.Op {
		case token.LSS:
			return cmp(Lt(x.T, y.T))
		case token.GTR:
			return cmp(Lt(y.T, x.T))
		case token.LEQ:
			return cmp(Le(x.T, y.T))
		case token.GEQ:
			return cmp(Le(y.T, x.T))
		case token.EQL:
			return cmp(Eq(x.T, y.T))
		case token.NEQ:
			return cmp(Not(Eq(x.T, y.T)))
		case token.ADD:
			return Val{T: v.name("t", "Int", v.wrap1(bt, Add(x.T, y.T))), So: "Int", Ty: bt}
		case token.SUB:
			return Val{T: v.name("t", "Int", v.wrap1(bt, Sub(x.T, y.T))), So: "Int", Ty: bt}
		case token.MUL:
			p := MulT(x.T, y.T)
			r := Val{T: v.name("t", "Int", v.wrap(bt, p)), So: "Int", Ty: bt}
			if isNum(x.T) && !isNum(y.T) {
				r.Lin, r.LinTy = &Lin{x.T, y.T}, bt
			} else if isNum(y.T) && !isNum(x.T) {
				r.Lin, r.LinTy = &Lin{y.T, x.T}, bt
			} else {
				r.Lin, r.LinTy = &Lin{"", p}, bt
			}
			return r
		case token.QUO, token.REM:
			v.safety("division by zero at "+v.posOf(in.Pos()), reach, Not(Eq(y.T, "0")))
			if isUnsigned(bt) || (isNum(y.T) && numOf(y.T).Sign() > 0) {
				op := "div"
				if in.Op == token.REM {
					op = "mod"
				}
				if isUnsigned(bt) {
					if !isNum(y.T) {
						op = "u" + op
					}
					return Val{T: v.name("t", "Int", sx(op, x.T, y.T)), So: "Int", Ty: bt}
				}
				// truncated division by a positive constant
				q := sx("div", x.T, y.T)
				m := sx("mod", x.T, y.T)
				nonneg := Le("0", x.T)
				if in.Op == token.QUO {
					return Val{T: v.name("t", "Int", Ite(nonneg, q, Sub("0", sx("div", Sub("0", x.T), y.T)))), So: "Int", Ty: bt}
				}
				return Val{T: v.name("t", "Int", Ite(nonneg, m, Sub("0", sx("mod", Sub("0", x.T), y.T)))), So: "Int", Ty: bt}
			}
			// signed division by a variable: exact for non-negative operands
			r := v.freshInt("quo", bt)
			op := "udiv"
			if in.Op == token.REM {
				op = "umod"
			}
			v.assume("true", Imp(And(Le("0", x.T), Lt("0", y.T)), Eq(r.T, sx(op, x.T, y.T))))
			return r
		case token.XOR:
			// exact on single bits
			r := v.freshInt("xor", bt)
			v.assume("true", Imp(And(Le("0", x.T), Le(x.T, "1"), Le("0", y.T), Le(y.T, "1")), Eq(r.T, Ite(Eq(x.T, y.T), "0", "1"))))
			return r
		case token.AND:
			r := v.freshInt("and", bt)
			v.assume("true", Imp(And(Le("0", x.T), Le("0", y.T)), And(Le("0", r.T), Le(r.T, x.T), Le(r.T, y.T))))
			if y.T == "1" {
				v.assume("true", Eq(r.T, sx("mod", x.T, "2")))
			}
			return r
		case token.SHL:
			if isNum(y.T) && numOf(y.T).IsUint64() && numOf(y.T).Uint64() < 64 {
				return Val{T: v.name("t", "Int", v.wrap(bt, MulT(x.T, Num(pow2(uint(numOf(y.T).Uint64())))))), So: "Int", Ty: bt}
			}
			return v.freshInt("bits", bt)
		case token.SHR:
			if isNum(y.T) && numOf(y.T).IsUint64() && numOf(y.T).Uint64() < 64 {
				return Val{T: v.name("t", "Int", sx("div", x.T, Num(pow2(uint(numOf(y.T).Uint64()))))), So: "Int", Ty: bt}
			}
			return v.freshInt("bits", bt)
		case token.OR, token.AND_NOT:
			return v.freshInt("bits", bt)
		}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		var r string
		switch under(t).(type) {
		case *types.Slice:
			// only comparison with nil exists
			o := x
			if _, ok := in.X.(*ssa.Const); ok {
				o = y
			}
			r = Eq(v.sptr(o.T), "0")
		case *types.Interface:
			o, c := x, y
			if _, ok := in.X.(*ssa.Const); ok {
				o, c = y, x
			}
			if c.T == "nilIface" {
				r = Eq(sx("itag", o.T), "0")
			} else {
				r = Eq(x.T, y.T)
			}
		default:
			r = Eq(v.tm(st, x), v.tm(st, y))
		}
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return cmp(r)
	case token.ADD:
		if v.sortOf(t) == "Str" {
			return Val{T: sx("strcat", x.T, y.T), So: "Str", Ty: bt}
		}
	case token.AND, token.LAND:
		return cmp(And(x.T, y.T))
	case token.OR, token.LOR:
		return cmp(Or(x.T, y.T))
	}
	v.errorf("%s: unsupported operation %s on %s", v.posOf(in.Pos()), in.Op, t)
	return v.unknown(bt)
}

func (v *VC) bvop(in *ssa.BinOp, x, y Val) Val {
	bt := in.Type()
	sg := !isUnsigned(in.X.Type())
	so := v.sortOf(in.X.Type())
	pick := func(u, s string) string {
		if sg {
			return s
		}
		return u
	}
	yv := y.T
	if in.Op == token.SHL || in.Op == token.SHR {
		// bring the shift count to the width of the value
		wx, wy := v.sizeof(in.X.Type())*8, v.sizeof(in.Y.Type())*8
		if wy < wx {
			yv = fmt.Sprintf("((_ zero_extend %d) %s)", wx-wy, yv)
		} else if wy > wx {
			// counts of at least the width give the same result as the width
			lim := fmt.Sprintf("(_ bv%d %d)", wx, wy)
			yv = fmt.Sprintf("((_ extract %d 0) %s)", wx-1, Ite(sx("bvuge", yv, lim), lim, yv))
		}
	}
	var op string
	switch in.Op {
	case token.ADD:
		op = "bvadd"
	case token.SUB:
		op = "bvsub"
	case token.MUL:
		op = "bvmul"
	case token.AND:
		op = "bvand"
	case token.OR:
		op = "bvor"
	case token.XOR:
		op = "bvxor"
	case token.SHL:
		op = "bvshl"
	case token.SHR:
		op = pick("bvlshr", "bvashr")
	case token.QUO:
		op = pick("bvudiv", "bvsdiv")
	case token.REM:
		op = pick("bvurem", "bvsrem")
	case token.LSS:
		return Val{T: sx(pick("bvult", "bvslt"), x.T, y.T), So: "Bool", Ty: bt}
	case token.LEQ:
		return Val{T: sx(pick("bvule", "bvsle"), x.T, y.T), So: "Bool", Ty: bt}
	case token.GTR:
		return Val{T: sx(pick("bvult", "bvslt"), y.T, x.T), So: "Bool", Ty: bt}
	case token.GEQ:
		return Val{T: sx(pick("bvule", "bvsle"), y.T, x.T), So: "Bool", Ty: bt}
	case token.EQL:
		return Val{T: Eq(x.T, y.T), So: "Bool", Ty: bt}
	case token.NEQ:
		return Val{T: Not(Eq(x.T, y.T)), So: "Bool", Ty: bt}
	default:
		v.errorf("%s: bit vector operation %s", v.posOf(in.Pos()), in.Op)
		return v.unknown(bt)
	}
	if in.Op == token.QUO || in.Op == token.REM {
		v.safety("division by zero at "+v.posOf(in.Pos()), "true", Not(Eq(y.T, v.zeroTerm(so))))
	}
	return Val{T: v.name("b", so, sx(op, x.T, yv)), So: so, Ty: bt}
}

func (v *VC) convert(fr *Frame, st *State, reach string, x Val, t types.Type, pos token.Pos) Val {
	so := v.sortOf(t)
	from := x.Ty
	switch {
	case isInt(t) && isInt(from):
		if v.bv {
			wf, wt := v.sizeof(from)*8, v.sizeof(t)*8
			switch {
			case wf == wt:
				return Val{T: x.T, So: so, Ty: t}
			case wf > wt:
				return Val{T: v.name("b", so, fmt.Sprintf("((_ extract %d 0) %s)", wt-1, x.T)), So: so, Ty: t}
			case isUnsigned(from):
				return Val{T: v.name("b", so, fmt.Sprintf("((_ zero_extend %d) %s)", wt-wf, x.T)), So: so, Ty: t}
			default:
				return Val{T: v.name("b", so, fmt.Sprintf("((_ sign_extend %d) %s)", wt-wf, x.T)), So: so, Ty: t}
			}
		}
		flo, fhi := v.bounds(from)
		lo, hi := v.bounds(t)
		if lo.Cmp(flo) <= 0 && fhi.Cmp(hi) <= 0 {
			return Val{T: x.T, So: so, Ty: t, Lin: x.Lin, LinTy: x.LinTy}
		}
		r := Val{T: v.name("t", "Int", v.wrap(t, x.T)), So: so, Ty: t}
		return r
	case isFloat(t) && isFloat(from):
		if so == x.So {
			return Val{T: x.T, So: so, Ty: t}
		}
		return Val{T: v.name("fl", so, sx("cvt"+x.So[1:]+so[1:], x.T)), So: so, Ty: t}
	case isFloat(t) && isInt(from):
		return Val{T: v.name("fl", so, sx("i2f"+so[1:], x.T)), So: so, Ty: t}
	case isInt(t) && isFloat(from):
		n := v.name("t", "Int", sx("f2i"+x.So[1:], x.T))
		// out of range conversions give some value of the type
		r := v.freshInt("cv", t)
		v.assume("true", Imp(v.inRange(t, n), Eq(r.T, n)))
		return r
	}
	// pointers
	if isPtr(t) && isPtr(from) {
		if x.A != nil && x.A.Kind == "cell" {
			if _, ok := under(x.A.Elem).(*types.Interface); ok {
				return Val{So: "Int", Ty: t, A: &Addr{Kind: "ifw", Comp: x.A.Comp, Elem: x.A.Elem}}
			}
		}
		r := x
		r.Ty = t
		if x.A != nil && x.A.Kind == "rawel" {
			r.A = &Addr{Kind: "rawel", Obj: x.A.Obj, Idx: x.A.Idx, Elem: deref(t), W: x.A.W}
			if x.A.W != "" {
				if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					r.A.Elem = nil
					return r
				}
				if et := deref(t); isNumeric(et) && NumI(v.sizeof(et)) == x.A.W {
					r.A.W = ""
					return r
				}
				return Val{T: v.name("adr", "Int", v.addrTerm(x.A)), So: "Int", Ty: t}
			}
			if x.A.Idx != "0" && x.A.Idx != "" {
				if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					r.A.Elem = x.A.Elem
				} else if !types.Identical(under(deref(t)), under(x.A.Elem)) {
					r = Val{T: v.name("adr", "Int", v.addrTerm(x.A)), So: "Int", Ty: t}
				}
			} else {
				r = Val{T: x.A.Obj, So: "Int", Ty: t}
			}
			return r
		}
		if x.A != nil && x.A.Kind == "ifw" {
			return r
		}
		r.T = v.tm(st, x)
		r.A = nil
		return r
	}
	if isInt(t) && isPtr(from) || isPtr(t) && isInt(from) {
		r := Val{T: v.tm(st, x), So: "Int", Ty: t}
		return r
	}
	if v.sortOf(from) == "Str" || so == "Str" {
		r := v.unknown(t)
		return r
	}
	v.errorf("%s: conversion from %s to %s", v.posOf(pos), from, t)
	return v.unknown(t)
}

func isPtr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (v *VC) slice(fr *Frame, st *State, reach string, in *ssa.Slice) Val {
	x := v.val(fr, st, in.X)
	lo := "0"
	if in.Low != nil {
		lo = v.val(fr, st, in.Low).T
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		et := u.Elem()
		cp := v.scap(x.T)
		hi := v.slen(x.T)
		if in.High != nil {
			hi = v.val(fr, st, in.High).T
		}
		v.safety("slice bounds at "+v.posOf(in.Pos()), reach, And(Le("0", lo), Le(lo, hi), Le(hi, cp)))
		w := "1"
		if isNumeric(et) {
			w = NumI(v.sizeof(et))
		}
		np := Add(v.sptr(x.T), MulT(w, lo))
		nc := Sub(cp, lo)
		if in.Max != nil {
			nc = Sub(v.val(fr, st, in.Max).T, lo)
		}
		s := v.name("sl", "Slice", sx("mkslice", np, Sub(hi, lo), nc))
		v.assume(reach, And(sx("wfslice", s), Eq(sx("sptr", s), np), Eq(sx("slen", s), Sub(hi, lo)), Eq(sx("scap", s), nc)))
		if isInt(et) && v.sizeof(et) > 1 || isPtr(et) {
			comp, _, _ := v.elFn(et)
			v.cntCut(comp, reach, v.sptr(x.T), v.sptr(s), lo, hi)
		}
		if lo != "0" {
			v.subslice(st, reach, et, v.sptr(x.T), lo, s)
		}
		return Val{T: s, So: "Slice", Ty: in.Type()}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		et := at.Elem()
		hi := NumI(at.Len())
		if in.High != nil {
			hi = v.val(fr, st, in.High).T
		}
		if x.A != nil && x.A.Kind == "cell" {
			m, isVar := v.varCells[x.A.Comp]
			if isVar && in.Low == nil && in.High == nil {
				_ = m
				return v.litSlice(st, reach, in.Type(), x.A.Comp, int(at.Len()))
			}
			v.errorf("%s: slice of a local array", v.posOf(in.Pos()))
			return v.unknown(in.Type())
		}
		p := v.tm(st, x)
		v.safety("slice bounds at "+v.posOf(in.Pos()), reach, And(Le("0", lo), Le(lo, hi), Le(hi, NumI(at.Len()))))
		w := "1"
		if isNumeric(et) {
			w = NumI(v.sizeof(et))
		}
		np := Add(p, MulT(w, lo))
		n := Sub(hi, lo)
		nc := Sub(NumI(at.Len()), lo)
		s := v.mkSlice(reach, np, n, nc)
		return Val{T: s, So: "Slice", Ty: in.Type()}
	}
	v.errorf("%s: slice of %s", v.posOf(in.Pos()), in.X.Type())
	return v.unknown(in.Type())
}

// subslice relates the elements of s[lo:] to those of s.
func (v *VC) subslice(st *State, reach string, et types.Type, p, lo, s string) {
	c, fn, _ := v.elFn(et)
	hs := v.compSort(c)
	np := v.sptr(s)
	v.emit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((h %s) (i Int)) (! (= (%s h %s i) (%s h %s (+ i %s))) :pattern ((%s h %s i))))", hs, fn, np, fn, p, lo, fn, np))))
	v.emit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((h %s) (i Int)) (! (= (%s h %s (- i %s)) (%s h %s i)) :pattern ((%s h %s i))))", hs, fn, np, lo, fn, p, fn, p))))
}
