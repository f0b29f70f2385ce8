package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Views of a memory component: what can be read from it, and how many bytes (units) a read covers.
type view struct {
	fn, ret string
	width   string
	el      bool // (fn H p i) reads [p+width*i, +width); otherwise (fn H p) reads [p, +width)
}

func (v *VC) views(comp string) []view {
	if comp == "H" {
		return []view{
			{"elI", "Int", v.W(), true},
			{"elF", v.FS(), v.WF(), true},
			{"elB", "Int", "1", true},
			{"ldN", "NodeC", "K_NS", false},
			{"ldV", "Vec", "K_VB", false},
		}
	}
	so := v.compSort(comp)
	return []view{{"el_" + so, v.xElem(comp), "1", true}}
}

func (v *VC) xElem(comp string) string { return v.sortOf(v.comps[comp]) }

func (v *VC) FS() string {
	if v.inst.TV == "float64" {
		return "F64"
	}
	return "F32"
}
func (v *VC) W() string {
	if v.inst.TIX == "uint64" {
		return "8"
	}
	return "4"
}
func (v *VC) WF() string {
	if v.inst.TV == "float64" {
		return "8"
	}
	return "4"
}

func disjoint(a, w, r, n string) string {
	if n == "0" {
		return "true"
	}
	o := Or(Le(Add(a, w), r), Le(Add(r, n), a))
	if !isNum(n) {
		o = Or(Le(n, "0"), o)
	}
	return o
}

// apartOwn: while several workers run, a worker's own memory and the rest are different objects.
func (v *VC) apartOwn(d, base string, r [2]string) string {
	if v.C == nil || !v.C.Concurrent || d == "true" || len(r[1]) > 30 && isNum(r[1]) {
		return d
	}
	return Or(d, Not(Eq(sx("mine", base), sx("mine", r[0]))))
}

const sharedMark = "<shared>"

// frameAxioms relates a changed memory component to the old one: whatever lies outside the regions
// reads the same.
func (v *VC) frameAxioms(comp, h1, h2 string, regs [][2]string) {
	so := v.compSort(comp)
	outside := func(a, base, w string) string {
		var cs []string
		for _, r := range regs {
			if r[0] == sharedMark {
				cs = append(cs, Or(Not(r[1]), sx("mine", base)))
				continue
			}
			cs = append(cs, v.apartOwn(disjoint(a, w, r[0], r[1]), base, r))
		}
		return And(cs...)
	}
	for _, w := range v.views(comp) {
		if w.el {
			a := Add("p", MulT(w.width, "i"))
			v.emit(fmt.Sprintf("(assert (forall ((p Int) (i Int)) (! %s :pattern ((%s %s p i)))))",
				Imp(outside(a, "p", w.width), Eq(sx(w.fn, h2, "p", "i"), sx(w.fn, h1, "p", "i"))), w.fn, h2))
		} else {
			v.emit(fmt.Sprintf("(assert (forall ((p Int)) (! %s :pattern ((%s %s p)))))",
				Imp(outside("p", "p", w.width), Eq(sx(w.fn, h2, "p"), sx(w.fn, h1, "p"))), w.fn, h2))
		}
	}
	v.cntFrame(comp, h1, h2, regs)
	if comp == "H" {
		v.emit(fmt.Sprintf("(assert (forall ((p Int) (n Int)) (! %s :pattern ((ldS %s p n)))))",
			Imp(outside("p", "p", "n"), Eq(sx("ldS", h2, "p", "n"), sx("ldS", h1, "p", "n"))), h2))
		v.emit(fmt.Sprintf("(assert (forall ((d Int) (h Heap) (s Int) (n Int)) (! %s :pattern ((rcopy %s d h s n)))))",
			Imp(And(sx("rcopy", h1, "d", "h", "s", "n"), outside("d", "d", "n")), sx("rcopy", h2, "d", "h", "s", "n")), h1))
		v.emit(fmt.Sprintf("(assert (forall ((d Int) (h Heap) (s Int) (n Int)) (! %s :pattern ((rcopy h d %s s n)))))",
			Imp(And(sx("rcopy", "h", "d", h2, "s", "n"), outside("s", "s", "n")), sx("rcopy", "h", "d", h1, "s", "n")), h2))
		v.emit(fmt.Sprintf("(assert (forall ((p Int) (n Int)) (! %s :pattern ((zeroed %s p n)) :pattern ((zeroed %s p n)))))",
			Imp(And(sx("zeroed", h1, "p", "n"), outside("p", "p", "n")), sx("zeroed", h2, "p", "n")), h1, h2))
	}
	_ = so
}

// checkRaw obliges a write of n bytes at ptr to stay inside the frame of the function and of the
// loops around it.
func (v *VC) checkRaw(comp, ptr, n, reach, what string) {
	if v.dry > 0 || n == "0" {
		return
	}
	within := func(regs [][2]string, brk string) string {
		ds := []string{}
		if !isNum(n) {
			ds = append(ds, Le(n, "0"))
		}
		if brk != "" {
			ds = append(ds, Le(brk, ptr))
		}
		for _, r := range regs {
			if r[0] == sharedMark {
				ds = append(ds, And(r[1], Not(sx("mine", ptr))))
				continue
			}
			if r[0] == ptr && r[1] == n {
				return "true"
			}
			ds = append(ds, And(Le(r[0], ptr), Le(Add(ptr, n), Add(r[0], r[1]))))
		}
		return Or(ds...)
	}
	regs, all := v.frameRegions(comp)
	if !all {
		v.oblige("frame", what+" stays inside the frame", v.C.Tags, reach, within(regs, v.brk0))
	}
	for _, l := range v.loops {
		if l.auto {
			continue
		}
		if rs, ok := l.allowed[comp]; ok {
			g := within(rs, l.brkL)
			if g != "true" {
				v.oblige("frame", what+" stays inside the loop frame", v.C.Tags, reach, g)
			}
		}
	}
}

func (v *VC) logRaw(comp, ptr, n string, all bool) {
	v.log = append(v.log, wlog{comp: comp, ptr: ptr, n: n, all: all})
}

// rawWrite makes a new version of a memory component that differs at most in [ptr, ptr+n).
func (v *VC) rawWrite(st *State, reach, comp, ptr, n, what string) (old, new string) {
	v.logRaw(comp, ptr, n, false)
	v.checkRaw(comp, ptr, n, reach, what)
	old = v.get(st, comp)
	new = v.fresh("w_"+comp, v.compSort(comp))
	v.frameAxioms(comp, old, new, [][2]string{{ptr, n}})
	st.m[comp] = new
	return
}

func (v *VC) checkObj(comp, obj, reach, what string) {
	if v.dry > 0 {
		return
	}
	if v.localObj[obj] {
		return
	}
	objs, all := v.frameObjs(comp)
	if !all {
		ds := []string{Le(v.brk0, obj)}
		done := false
		for _, o := range objs {
			if o == obj {
				done = true
			}
			ds = append(ds, Eq(o, obj))
		}
		if !done {
			v.oblige("frame", what+" stays inside the frame", v.C.Tags, reach, Or(ds...))
		}
	}
	for _, l := range v.loops {
		if l.auto {
			continue
		}
		if rs, ok := l.allowed[comp]; ok {
			ds := []string{Le(l.brkL, obj)}
			done := false
			for _, o := range rs {
				if o[0] == obj {
					done = true
				}
				ds = append(ds, Eq(o[0], obj))
			}
			if !done {
				v.oblige("frame", what+" stays inside the loop frame", v.C.Tags, reach, Or(ds...))
			}
		}
	}
}

// objWrite stores into a field-like component.
func (v *VC) objWrite(st *State, reach, comp, obj, val, what string) {
	v.log = append(v.log, wlog{comp: comp, ptr: obj})
	v.checkObj(comp, obj, reach, what)
	v.set(st, comp, sx("store", v.get(st, comp), obj, val))
}

// alloc reserves n units of memory.
func (v *VC) alloc(st *State, reach, n string) string {
	p := v.fresh("new", "Int")
	b := v.get(st, "brk")
	v.assume("true", And(Eq(p, b), sx("mine", p)))
	nb := v.fresh("brk", "Int")
	v.assume("true", And(Lt(p, nb), Imp(reach, And(Le(Add(p, n), nb)))))
	st.m["brk"] = nb
	v.log = append(v.log, wlog{comp: "brk"})
	return p
}

func (v *VC) newObject(st *State, reach string, t types.Type) Val {
	p := v.alloc(st, reach, "1")
	v.localObj[p] = true
	switch u := under(t).(type) {
	case *types.Struct:
		if v.isRawStruct(t) {
			n := NumI(v.sizeof(t))
			v.declComp("H", "Heap")
			v.assume(reach, And(Le(Add(p, n), v.get(st, "brk")), sx("zeroed", v.get(st, "H"), p, n)))
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if _, ok := under(ft).(*types.Struct); ok {
				continue
			}
			c, _ := v.fieldComp(t, i)
			v.assume("true", Eq(sx("select", v.get(st, c), p), v.zeroTerm(v.sortOf(ft))))
		}
	default:
		c := v.pcomp(t)
		v.assume("true", Eq(sx("select", v.get(st, c), p), v.zeroTerm(v.sortOf(t))))
	}
	return Val{T: p, So: "Int", Ty: types.NewPointer(t)}
}

// makeSlice allocates zeroed elements.
func (v *VC) makeSlice(st *State, reach string, t types.Type, n, c string) Val {
	et := under(t).(*types.Slice).Elem()
	var p string
	if isNumeric(et) {
		w := NumI(v.sizeof(et))
		p = v.alloc(st, reach, MulT(w, c))
		v.declComp("H", "Heap")
		v.assume(reach, And(sx("zeroed", v.get(st, "H"), p, MulT(w, c))))
	} else {
		x := v.xcomp(et)
		p = v.alloc(st, reach, c)
		h := v.get(st, x)
		v.emit(fmt.Sprintf("(assert (forall ((i Int)) (! %s :pattern ((el_%s %s %s i)))))",
			Imp(And(Le("0", "i"), Lt("i", c)), Eq(sx("el_"+v.compSort(x), h, p, "i"), v.zeroTerm(v.sortOf(et)))), v.compSort(x), h, p))
	}
	s := v.mkSlice(reach, p, n, c)
	return Val{T: s, So: "Slice", Ty: t}
}

func (v *VC) elFn(et types.Type) (comp, fn, width string) {
	if isNumeric(et) {
		v.declComp("H", "Heap")
		switch {
		case isFloat(et):
			if fsort(et) != v.FS() {
				v.errorf("memory of %s in an instance for %s", et, v.inst)
			}
			return "H", "elF", v.WF()
		case v.sizeof(et) == 1:
			return "H", "elB", "1"
		default:
			if NumI(v.sizeof(et)) != v.W() {
				v.errorf("memory of %s in an instance for %s", et, v.inst)
			}
			return "H", "elI", v.W()
		}
	}
	c := v.xcomp(et)
	return c, "el_" + v.compSort(c), "1"
}

func (v *VC) elem(st *State, et types.Type, p, i string) string {
	c, fn, _ := v.elFn(et)
	return sx(fn, v.get(st, c), p, i)
}

// storeElem writes one slice element (or raw scalar).
func (v *VC) storeElem(st *State, reach string, et types.Type, p, i, val, what string) {
	c, fn, w := v.elFn(et)
	a := p
	if i != "0" {
		a = v.name("adr", "Int", Add(p, MulT(w, i)))
	}
	v.ownWrite(st, reach, p, what)
	if a != p && v.C != nil && v.C.Concurrent {
		// the element lies in the object that its base points to (its index is within the bounds)
		v.assume(reach, Eq(sx("mine", a), sx("mine", p)))
	}
	h1, h2 := v.rawWrite(st, reach, c, a, w, what)
	if fn != "elF" && fn != "elB" {
		v.cntStore(c, h1, h2, p, i, val)
	}
	v.assume(reach, Eq(sx(fn, h2, p, i), val))
	if a != p {
		v.assume(reach, Eq(sx(fn, h2, a, "0"), val))
	}
	if fn == "elF" {
		// a whole vector that is being updated element by element
		v.assume("true", "true")
	}
}

// copyMem models memmove of n elements of width w from (h of the current state) s to d.
func (v *VC) copyMem(st *State, reach, comp, d, s, n, cnt, what string) {
	old, h2 := v.rawWrite(st, reach, comp, d, n, what)
	if comp == "H" {
		v.assume(reach, sx("rcopy", h2, d, old, s, n))
		v.cntCopy(reach, comp, h2, d, old, s, n, v.W())
		return
	}
	so := v.compSort(comp)
	v.cntCopy(reach, comp, h2, d, old, s, cnt, "1")
	v.emit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((el_%s %s %s i))))",
		Imp(And(Le("0", "i"), Lt("i", cnt)), Eq(sx("el_"+so, h2, d, "i"), sx("el_"+so, old, s, "i"))), so, old, s))))
	v.emit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((el_%s %s %s i))))",
		Imp(And(Le("0", "i"), Lt("i", cnt)), Eq(sx("el_"+so, h2, d, "i"), sx("el_"+so, old, s, "i"))), so, h2, d))))
}

func isShared(r [2]string) bool { return strings.HasPrefix(r[0], "<") }
