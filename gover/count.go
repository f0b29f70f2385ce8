package main

import (
	"fmt"
	"strings"
)

// Counting: cnt(h, p, lo, hi, e) is the number of positions k in [lo, hi) where the slice at p holds e.
// The facts about it are only kept in functions whose contracts speak of it.

const cntMark = " ;cnt"

func (v *VC) cntFn(comp string) string {
	if comp == "H" {
		return "cnt_H"
	}
	return "cnt_" + v.compSort(comp)
}

func (v *VC) cntable(comp string) bool {
	return comp == "H" || strings.HasPrefix(comp, "x|") && v.sortOf(v.comps[comp]) == "Int"
}

func (v *VC) cntEmit(f string) { v.emit(f + cntMark) }

const cntVars = "(p Int) (lo Int) (hi Int) (e Int)"

// cntFrame: ranges outside the changed regions count the same.
func (v *VC) cntFrame(comp, h1, h2 string, regs [][2]string) {
	if !v.cntable(comp) {
		return
	}
	w := "1"
	if comp == "H" {
		w = v.W()
	}
	fn := v.cntFn(comp)
	var cs []string
	a := Add("p", MulT(w, "lo"))
	b := Add("p", MulT(w, "hi"))
	for _, r := range regs {
		if r[0] == sharedMark {
			cs = append(cs, Or(Not(r[1]), sx("mine", "p")))
			continue
		}
		o := Or(Le(b, r[0]), Le(Add(r[0], r[1]), a))
		if !isNum(r[1]) {
			o = Or(Le(r[1], "0"), o)
		}
		cs = append(cs, v.apartOwn(o, "p", r))
	}
	v.cntEmit(fmt.Sprintf("(assert (forall (%s) (! %s :pattern ((%s %s p lo hi e)))))", cntVars,
		Imp(And(cs...), Eq(sx(fn, h2, "p", "lo", "hi", "e"), sx(fn, h1, "p", "lo", "hi", "e"))), fn, h2))
}

// cntStore: one element at p[i] was replaced.
func (v *VC) cntStore(comp, h1, h2, q, i, val string) {
	if !v.cntable(comp) {
		return
	}
	fn := v.cntFn(comp)
	el := "el_" + v.compSort(comp)
	inside := And(Le("lo", i), Lt(i, "hi"))
	p := "p"
	if comp == "H" {
		el = "elI"
	}
	// the position is given relative to q; other bases are reached through subslices
	old := sx(el, h1, q, i)
	v.cntEmit(fmt.Sprintf("(assert (forall (%s) (! %s :pattern ((%s %s p lo hi e)))))", cntVars,
		Imp(And(Eq(p, q), inside), Eq(sx(fn, h2, "p", "lo", "hi", "e"),
			Add(Sub(sx(fn, h1, "p", "lo", "hi", "e"), Ite(Eq("e", old), "1", "0")), Ite(Eq("e", val), "1", "0")))), fn, h2))
}

// cntCopy: n bytes (or elements) were copied from s to d.
func (v *VC) cntCopy(reach, comp, h2, d, h1, s, n, w string) {
	if !v.cntable(comp) {
		return
	}
	fn := v.cntFn(comp)
	v.cntEmit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((lo Int) (hi Int) (e Int)) (! %s :pattern ((%s %s %s lo hi e))))",
		Imp(And(Le("0", "lo"), Le(MulT(w, "hi"), n)), Eq(sx(fn, h2, d, "lo", "hi", "e"), sx(fn, h1, s, "lo", "hi", "e"))), fn, h2, d))))
}

// cntCut: the range of a subslice q = p[b:e].
func (v *VC) cntCut(comp, reach, p, q, b, e string) {
	if !v.cntable(comp) {
		return
	}
	fn := v.cntFn(comp)
	so := v.compSort(comp)
	v.cntEmit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((h %s) (lo Int) (hi Int) (x Int)) (! %s :pattern ((%s h %s lo hi x))))", so,
		Imp(And(Le("lo", b), Le(b, e), Le(e, "hi")), Eq(sx(fn, "h", p, "lo", "hi", "x"),
			Add(Add(sx(fn, "h", p, "lo", b, "x"), sx(fn, "h", q, "0", Sub(e, b), "x")), sx(fn, "h", p, e, "hi", "x")))), fn, p))))
}

func (v *VC) cntDecl(p func(f string, a ...any), comp string) {
	if !v.cntable(comp) {
		return
	}
	fn, so := v.cntFn(comp), v.compSort(comp)
	el := "el_" + so
	if comp == "H" {
		el = "elI"
	}
	p("(declare-fun %s (%s Int Int Int Int) Int)", fn, so)
	p("(declare-fun %s_at (%s Int Int Int Int) Int)", fn, so)
	p("(assert (forall ((h %s) %s) (! (and (<= 0 (%s h p lo hi e)) (=> (<= hi lo) (= (%s h p lo hi e) 0)) (<= (%s h p lo hi e) (ite (<= lo hi) (- hi lo) 0)) (=> (< 0 (%s h p lo hi e)) (and (<= lo (%s_at h p lo hi e)) (< (%s_at h p lo hi e) hi) (= (%s h p (%s_at h p lo hi e)) e)))) :pattern ((%s h p lo hi e)))))%s",
		so, cntVars, fn, fn, fn, fn, fn, fn, el, fn, fn, cntMark)
	p("(assert (forall ((h %s) %s (k Int)) (! (=> (and (<= lo k) (< k hi) (= (%s h p k) e)) (<= 1 (%s h p lo hi e))) :pattern ((%s h p lo hi e) (%s h p k)))))%s",
		so, cntVars, el, fn, fn, el, cntMark)
	// adjacent ranges
	p("(assert (forall ((h %s) (p Int) (lo Int) (m Int) (hi Int) (e Int)) (! (=> (and (<= lo m) (<= m hi)) (= (%s h p lo hi e) (+ (%s h p lo m e) (%s h p m hi e)))) :pattern ((%s h p lo m e) (%s h p m hi e)))))%s",
		so, fn, fn, fn, fn, fn, cntMark)
	// one element more
	p("(declare-fun %s_step (%s Int Int) Bool)", fn, so)
	p("(assert (forall ((h %s) (p Int) (lo Int) (n Int) (e Int)) (! (=> (<= lo n) (= (%s h p lo (+ n 1) e) (+ (%s h p lo n e) (ite (= (%s h p n) e) 1 0)))) :pattern ((%s_step h p n) (%s h p lo n e)) :pattern ((%s_step h p n) (%s h p lo (+ n 1) e)))))%s",
		so, fn, fn, el, fn, fn, fn, fn, cntMark)
	p("(assert (forall ((h %s) (p Int) (n Int)) (! (%s_step h p n) :pattern ((%s_step h p n)))))%s", so, fn, fn, cntMark)
}
