package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// prelude is the part of every query that does not depend on the function.
func (v *VC) prelude() string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	W, WF, F := v.W(), v.WF(), v.FS()
	p("(declare-datatypes ((Slice 0) (Iface 0)) (((mkslice (sptr Int) (slen Int) (scap Int))) ((mkiface (itag Int) (idata Int)))))")
	p("(define-fun nilSlice () Slice (mkslice 0 0 0))")
	p("(define-fun nilIface () Iface (mkiface 0 0))")
	p("(define-fun wfslice ((s Slice)) Bool (and (<= 0 (sptr s)) (<= 0 (slen s)) (<= (slen s) (scap s)) (<= (scap s) 281474976710656) (=> (= (sptr s) 0) (= (scap s) 0))))")
	for _, s := range []string{"Heap", "NodeC", "Vec", "Bytes", "Str"} {
		p("(declare-sort %s 0)", s)
	}
	p("(declare-const emptyStr Str)")
	p("(declare-fun strlen (Str) Int)")
	p("(declare-fun strcat (Str Str) Str)")
	p("(assert (forall ((s Str)) (! (<= 0 (strlen s)) :pattern ((strlen s)))))")
	p("(assert (= (strlen emptyStr) 0))")
	p("(declare-fun subobj (Int Int) Int)")
	p("(declare-fun subobj_o (Int) Int)")
	p("(declare-fun subobj_k (Int) Int)")
	p("(assert (forall ((o Int) (k Int)) (! (and (= (subobj_o (subobj o k)) o) (= (subobj_k (subobj o k)) k)) :pattern ((subobj o k)))))")
	p("(declare-fun fldptr (Int Int) Int)")
	// floats
	if v.ieee {
		p("(define-sort F32 () (_ FloatingPoint 8 24))")
		p("(define-sort F64 () (_ FloatingPoint 11 53))")
	} else {
		p("(declare-sort F32 0)")
		p("(declare-sort F64 0)")
	}
	for _, s := range []string{"32", "64"} {
		v.floatTheory(&b, s)
	}
	if v.ieee {
		p("(define-fun cvt3264 ((x F32)) F64 ((_ to_fp 11 53) RNE x))")
		p("(define-fun cvt6432 ((x F64)) F32 ((_ to_fp 8 24) RNE x))")
		p("(define-fun m_sqrt ((x F64)) F64 (fp.sqrt RNE x))")
		p("(define-fun m_max ((x F64) (y F64)) F64 (ite (or (= x inf64) (= y inf64)) inf64 (ite (fp.isNaN x) x (ite (fp.isNaN y) y (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) y x) (ite (fp.gt x y) x y))))))")
		p("(define-fun m_min ((x F64) (y F64)) F64 (ite (or (= x (fp.neg inf64)) (= y (fp.neg inf64))) (fp.neg inf64) (ite (fp.isNaN x) x (ite (fp.isNaN y) y (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) x y) (ite (fp.lt x y) x y))))))")
		p("(define-fun m_floor ((x F64)) F64 (fp.roundToIntegral RTN x))")
		p("(declare-fun m_pow (F64 F64) F64)")
	} else {
		p("(declare-fun cvt3264 (F32) F64)")
		p("(declare-fun cvt6432 (F64) F32)")
		p("(declare-fun m_sqrt (F64) F64)")
		p("(declare-fun m_max (F64 F64) F64)")
		p("(declare-fun m_min (F64 F64) F64)")
		p("(declare-fun m_floor (F64) F64)")
		p("(declare-fun m_pow (F64 F64) F64)")
		p("(assert (forall ((x F32)) (! (and (= (isnan64 (cvt3264 x)) (isnan32 x)) (= (rk64 (cvt3264 x)) (rk32 x)) (= (cvt6432 (cvt3264 x)) x)) :pattern ((cvt3264 x)))))")
		p("(assert (forall ((x F64)) (! (= (isnan32 (cvt6432 x)) (isnan64 x)) :pattern ((cvt6432 x)))))")
		p("(assert (forall ((x F64)) (! (and (=> (<= 0.0 (rk64 x)) (<= 0.0 (rk32 (cvt6432 x)))) (=> (<= (rk64 x) 0.0) (<= (rk32 (cvt6432 x)) 0.0)) (=> (= (rk64 x) 0.0) (= (rk32 (cvt6432 x)) 0.0))) :pattern ((cvt6432 x)))))")
		p("(assert (forall ((x F32)) (! (=> (and (not (isnan32 x)) (< 0.0 (rk32 x))) (< 0.0 (rk32 (cvt6432 (m_sqrt (cvt3264 x)))))) :pattern ((m_sqrt (cvt3264 x))))))")
		p("(assert (= (cvt3264 fz32) fz64))")
		p("(assert (= (cvt6432 fz64) fz32))")
		p("(assert (= (cvt6432 inf64) inf32))")
		p("(assert (forall ((x F64)) (! (and (=> (and (not (isnan64 x)) (<= 0.0 (rk64 x))) (and (not (isnan64 (m_sqrt x))) (<= 0.0 (rk64 (m_sqrt x))))) (=> (and (not (isnan64 x)) (< 0.0 (rk64 x))) (< 0.0 (rk64 (m_sqrt x)))) (=> (= (rk64 x) 0.0) (= (rk64 (m_sqrt x)) 0.0))) :pattern ((m_sqrt x)))))")
		p("(assert (forall ((x F64) (y F64)) (! (=> (and (not (isnan64 x)) (not (isnan64 y))) (and (not (isnan64 (m_max x y))) (= (rk64 (m_max x y)) (ite (<= (rk64 x) (rk64 y)) (rk64 y) (rk64 x))))) :pattern ((m_max x y)))))")
		p("(assert (forall ((x F64) (y F64)) (! (=> (and (not (isnan64 x)) (not (isnan64 y))) (and (not (isnan64 (m_min x y))) (= (rk64 (m_min x y)) (ite (<= (rk64 x) (rk64 y)) (rk64 x) (rk64 y))))) :pattern ((m_min x y)))))")
		p("(assert (forall ((x F64)) (! (=> (and (not (isnan64 x)) (<= (- 9007199254740992.0) (rk64 x)) (<= (rk64 x) 9007199254740992.0)) (and (not (isnan64 (m_floor x))) (= (rk64 (m_floor x)) (to_real (to_int (rk64 x)))))) :pattern ((m_floor x)))))")
	}
	// integers
	p("(declare-fun imul (Int Int) Int)")
	p("(declare-fun udiv (Int Int) Int)")
	p("(declare-fun umod (Int Int) Int)")
	p("(assert (forall ((a Int) (c Int)) (! (and (= (imul a c) (imul c a)) (=> (and (<= 0 a) (<= 0 c)) (<= 0 (imul a c))) (=> (= a 0) (= (imul a c) 0)) (=> (= a 1) (= (imul a c) c)) (=> (= a 2) (= (imul a c) (* 2 c))) (=> (and (<= 1 a) (<= 1 c)) (and (<= a (imul a c)) (<= c (imul a c))))) :pattern ((imul a c)))))")
	p("(assert (forall ((a Int) (b Int) (c Int)) (! (=> (<= 0 c) (and (=> (< a b) (<= (+ (imul a c) c) (imul b c))) (=> (= b (+ a 1)) (= (imul b c) (+ (imul a c) c))) (=> (< b a) (<= (+ (imul b c) c) (imul a c))))) :pattern ((imul a c) (imul b c)))))")
	p("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (<= 0 (udiv a b)) (<= (udiv a b) a) (<= (imul (udiv a b) b) a) (< a (+ (imul (udiv a b) b) b)))) :pattern ((udiv a b)))))")
	p("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (<= 0 (umod a b)) (< (umod a b) b) (<= (umod a b) a) (= a (+ (imul (udiv a b) b) (umod a b))))) :pattern ((umod a b)))))")
	// node layout
	for _, n := range []string{"n_descendants", "children", "dot_factor", "v"} {
		p("(declare-const off_%s Int)", n)
		p("(declare-fun fa_%s (Int) Int)", n)
	}
	p("(declare-const K_VL Int)")
	p("(declare-const K_NS Int)")
	p("(declare-const K_MC Int)")
	p("(declare-const K_VB Int)")
	p("(declare-fun mine (Int) Bool)")
	p("(assert (not (mine 0)))")
	for _, n := range []string{"n_descendants", "children", "dot_factor", "v"} {
		p("(assert (forall ((n Int)) (! (and (= (fa_%s n) (+ n off_%s)) (= (mine (fa_%s n)) (mine n))) :pattern ((fa_%s n)))))", n, n, n, n)
	}
	p("(assert (and (<= 0 K_VL) (= K_VB (* %s K_VL)) (= K_NS (+ off_v K_VB)) (= K_MC (div (- K_NS off_children) %s))))", WF, W)
	p("(assert (<= K_NS 1073741824))")
	p("(declare-fun na (Int Int) Int)")
	p("(assert (forall ((b Int) (k Int)) (! (and (= (na b k) (+ b (imul k K_NS))) (= (mine (na b k)) (mine b))) :pattern ((na b k)))))")
	p("(assert (forall ((b Int) (k Int) (j Int)) (! (=> (and (<= 0 k) (< k j)) (<= (+ (na b k) K_NS) (na b j))) :pattern ((na b k) (na b j)))))")
	// memory
	p("(declare-fun elI (Heap Int Int) Int)")
	p("(declare-fun elF (Heap Int Int) %s)", F)
	p("(declare-fun elB (Heap Int Int) Int)")
	p("(declare-fun ldN (Heap Int) NodeC)")
	p("(declare-fun ldV (Heap Int) Vec)")
	p("(declare-fun ldS (Heap Int Int) Bytes)")
	p("(declare-fun cnd (NodeC) Int)")
	p("(declare-fun cvec (NodeC) Vec)")
	p("(declare-fun cnorm (NodeC) %s)", F)
	p("(declare-fun cdf (NodeC) %s)", F)
	p("(declare-fun cch (NodeC Int) Int)")
	p("(declare-fun velem (Vec Int) %s)", F)
	p("(declare-fun bnode (Bytes Int) NodeC)")
	p("(declare-fun blen (Bytes) Int)")
	p("(declare-const zeroN NodeC)")
	p("(declare-const zeroV Vec)")
	p("(declare-fun rcopy (Heap Int Heap Int Int) Bool)")
	p("(declare-fun zeroed (Heap Int Int) Bool)")
	mi := "4294967295"
	if v.inst.TIX == "uint64" {
		mi = "18446744073709551615"
	}
	p("(assert (forall ((h Heap) (q Int) (i Int)) (! (and (<= 0 (elI h q i)) (<= (elI h q i) %s)) :pattern ((elI h q i)))))", mi)
	p("(assert (forall ((h Heap) (q Int) (i Int)) (! (and (<= 0 (elB h q i)) (<= (elB h q i) 255)) :pattern ((elB h q i)))))")
	p("(assert (forall ((c NodeC)) (! (and (<= 0 (cnd c)) (<= (cnd c) %s)) :pattern ((cnd c)))))", mi)
	p("(assert (forall ((c NodeC) (i Int)) (! (and (<= 0 (cch c i)) (<= (cch c i) %s)) :pattern ((cch c i)))))", mi)
	if v.rawMem() {
		p("(assert (forall ((h Heap) (n Int)) (! (= (cnd (ldN h n)) (elI h (fa_n_descendants n) 0)) :pattern ((cnd (ldN h n))))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cnd (ldN h n)) (elI h (fa_n_descendants n) 0)) :pattern ((elI h (fa_n_descendants n) 0)))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cvec (ldN h n)) (ldV h (fa_v n))) :pattern ((cvec (ldN h n))))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cvec (ldN h n)) (ldV h (fa_v n))) :pattern ((ldV h (fa_v n))))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cnorm (ldN h n)) (elF h (fa_children n) 0)) :pattern ((cnorm (ldN h n))))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cnorm (ldN h n)) (elF h (fa_children n) 0)) :pattern ((elF h (fa_children n) 0)))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cdf (ldN h n)) (elF h (fa_dot_factor n) 0)) :pattern ((cdf (ldN h n))))))")
		p("(assert (forall ((h Heap) (n Int)) (! (= (cdf (ldN h n)) (elF h (fa_dot_factor n) 0)) :pattern ((elF h (fa_dot_factor n) 0)))))")
		p("(assert (forall ((h Heap) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i K_MC)) (= (cch (ldN h n) i) (elI h (fa_children n) i))) :pattern ((cch (ldN h n) i)))))")
		p("(assert (forall ((h Heap) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i K_MC)) (= (cch (ldN h n) i) (elI h (fa_children n) i))) :pattern ((elI h (fa_children n) i)))))")
		p("(assert (forall ((h Heap) (q Int) (z Int)) (! (=> (and (<= 0 z) (< z K_VL)) (= (velem (ldV h q) z) (elF h q z))) :pattern ((velem (ldV h q) z)))))")
		p("(assert (forall ((h Heap) (q Int) (z Int)) (! (=> (and (<= 0 z) (< z K_VL)) (= (velem (ldV h q) z) (elF h q z))) :pattern ((ldV h q) (elF h q z)))))")
		p("(assert (and (= (cnd zeroN) 0) (= (cnorm zeroN) fz%s) (= (cdf zeroN) fz%s) (= (cvec zeroN) zeroV)))", F[1:], F[1:])
		p("(assert (forall ((h Heap) (q Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (<= (+ (imul i K_NS) K_NS) n)) (= (bnode (ldS h q n) i) (ldN h (na q i)))) :pattern ((bnode (ldS h q n) i)))))")
		p("(assert (forall ((h Heap) (q Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (<= (+ (imul i K_NS) K_NS) n)) (= (bnode (ldS h q n) i) (ldN h (na q i)))) :pattern ((ldS h q n) (ldN h (na q i))))))")
		p("(assert (forall ((h Heap) (q Int) (n Int)) (! (=> (<= 0 n) (= (blen (ldS h q n)) n)) :pattern ((ldS h q n)))))")
		// copies
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int) (i Int)) (! (=> (and (rcopy g d h s n) (<= 0 i) (<= (+ (* %s i) %s) n)) (= (elI g d i) (elI h s i))) :pattern ((rcopy g d h s n) (elI g d i)) :pattern ((rcopy g d h s n) (elI h s i)))))", W, W)
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int) (i Int)) (! (=> (and (rcopy g d h s n) (<= 0 i) (<= (+ (* %s i) %s) n)) (= (elF g d i) (elF h s i))) :pattern ((rcopy g d h s n) (elF g d i)) :pattern ((rcopy g d h s n) (elF h s i)))))", WF, WF)
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int) (i Int)) (! (=> (and (rcopy g d h s n) (<= 0 i) (< i n)) (= (elB g d i) (elB h s i))) :pattern ((rcopy g d h s n) (elB g d i)) :pattern ((rcopy g d h s n) (elB h s i)))))")
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int)) (! (=> (rcopy g d h s n) (and (=> (<= K_NS n) (= (ldN g d) (ldN h s))) (=> (<= K_VB n) (= (ldV g d) (ldV h s))) (= (ldS g d n) (ldS h s n)))) :pattern ((rcopy g d h s n)))))")
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int) (k Int)) (! (=> (and (rcopy g d h s n) (<= 0 k) (<= (+ (imul k K_NS) K_NS) n)) (= (ldN g (na d k)) (ldN h (na s k)))) :pattern ((rcopy g d h s n) (ldN g (na d k))) :pattern ((rcopy g d h s n) (ldN h (na s k))))))")
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int)) (! (=> (<= n 0) (rcopy g d h s n)) :pattern ((rcopy g d h s n)))))")
		// zeroed memory
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int) (i Int)) (! (=> (and (zeroed h q n) (<= 0 i) (<= q (+ a (* %s i))) (<= (+ a (* %s i) %s) (+ q n))) (= (elI h a i) 0)) :pattern ((zeroed h q n) (elI h a i)))))", W, W, W)
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int) (i Int)) (! (=> (and (zeroed h q n) (<= 0 i) (<= q (+ a (* %s i))) (<= (+ a (* %s i) %s) (+ q n))) (= (elF h a i) fz%s)) :pattern ((zeroed h q n) (elF h a i)))))", WF, WF, WF, F[1:])
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int) (i Int)) (! (=> (and (zeroed h q n) (<= 0 i) (<= q (+ a i)) (< (+ a i) (+ q n))) (= (elB h a i) 0)) :pattern ((zeroed h q n) (elB h a i)))))")
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int)) (! (=> (and (zeroed h q n) (<= q a) (<= (+ a K_NS) (+ q n))) (= (ldN h a) zeroN)) :pattern ((zeroed h q n) (ldN h a)))))")
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int)) (! (=> (and (zeroed h q n) (<= q a) (<= (+ a K_VB) (+ q n))) (= (ldV h a) zeroV)) :pattern ((zeroed h q n) (ldV h a)))))")
		p("(assert (forall ((h Heap) (q Int) (n Int) (a Int) (m Int)) (! (=> (and (zeroed h q n) (<= q a) (<= (+ a m) (+ q n))) (zeroed h a m)) :pattern ((zeroed h q n) (zeroed h a m)))))")
		p("(assert (forall ((g Heap) (d Int) (h Heap) (s Int) (n Int) (a Int) (k Int) (b Int) (m Int) (q Int) (l Int)) (! (=> (and (rcopy g d h s n) (zeroed h a k) (zeroed g b m) (<= d q) (<= (+ q l) (+ b m)) (<= b (+ d n)) (<= a (+ s (- q d))) (<= (+ s n) (+ a k))) (zeroed g q l)) :pattern ((rcopy g d h s n) (zeroed h a k) (zeroed g b m) (zeroed g q l)))))")
	}
	return b.String()
}

// rawMem: does the function have anything to do with raw memory?
func (v *VC) rawMem() bool { _, ok := v.sorts["H"]; return ok }

const infRank = "(^ 2.0 2000.0)"

func (v *VC) floatTheory(b *strings.Builder, s string) {
	p := func(f string, a ...any) { fmt.Fprintf(b, strings.ReplaceAll(f, "@", s)+"\n", a...) }
	if v.ieee {
		ty := "8 24"
		if s == "64" {
			ty = "11 53"
		}
		p("(define-fun fz@ () F@ (_ +zero %s))", ty)
		p("(define-fun inf@ () F@ (_ +oo %s))", ty)
		p("(define-fun isnan@ ((x F@)) Bool (fp.isNaN x))")
		p("(define-fun flt@ ((x F@) (y F@)) Bool (fp.lt x y))")
		p("(define-fun fle@ ((x F@) (y F@)) Bool (fp.leq x y))")
		p("(define-fun feq@ ((x F@) (y F@)) Bool (fp.eq x y))")
		for _, o := range []string{"add", "sub", "mul", "div"} {
			p("(define-fun f"+o+"@ ((x F@) (y F@)) F@ (fp."+o+" RNE x y))")
		}
		p("(define-fun fneg@ ((x F@)) F@ (fp.neg x))")
		p("(declare-fun i2f@ (Int) F@)")
		p("(declare-fun f2i@ (F@) Int)")
		p("(declare-fun b_min@ (F@ F@) F@)")
		p("(declare-fun b_max@ (F@ F@) F@)")
		return
	}
	inf := new(big.Int).Lsh(big.NewInt(1), 2000).String() + ".0"
	p("(declare-fun rk@ (F@) Real)")
	p("(declare-fun isnan@ (F@) Bool)")
	p("(declare-const fz@ F@)")
	p("(declare-const inf@ F@)")
	p("(assert (and (= (rk@ fz@) 0.0) (not (isnan@ fz@)) (not (isnan@ inf@)) (= (rk@ inf@) %s)))", inf)
	p("(define-fun flt@ ((x F@) (y F@)) Bool (and (not (isnan@ x)) (not (isnan@ y)) (< (rk@ x) (rk@ y))))")
	p("(define-fun fle@ ((x F@) (y F@)) Bool (and (not (isnan@ x)) (not (isnan@ y)) (<= (rk@ x) (rk@ y))))")
	p("(define-fun feq@ ((x F@) (y F@)) Bool (and (not (isnan@ x)) (not (isnan@ y)) (= (rk@ x) (rk@ y))))")
	for _, o := range []string{"add", "sub", "mul", "div"} {
		p("(declare-fun f"+o+"@ (F@ F@) F@)")
	}
	p("(assert (forall ((x F@) (y F@)) (! (and (= (fmul@ x y) (fmul@ y x)) (=> (= (rk@ x) 0.0) (or (isnan@ (fmul@ x y)) (= (rk@ (fmul@ x y)) 0.0)))) :pattern ((fmul@ x y)))))")
	p("(assert (forall ((x F@) (y F@)) (! (= (fadd@ x y) (fadd@ y x)) :pattern ((fadd@ x y)))))")
	fin := func(x string) string { return "(and (not (isnan@ " + x + ")) (< (- " + inf + ") (rk@ " + x + ")) (< (rk@ " + x + ") " + inf + "))" }
	nn := "(not (isnan@ x)) (not (isnan@ y))"
	p("(assert (forall ((x F@) (y F@)) (! (=> (and " + nn + " (or " + fin("x") + " (not (= (rk@ y) 0.0))) (or " + fin("y") + " (not (= (rk@ x) 0.0)))) (not (isnan@ (fmul@ x y)))) :pattern ((fmul@ x y)))))")
	p("(assert (forall ((x F@) (y F@)) (! (=> (and " + nn + " (not (= (rk@ y) 0.0)) (or " + fin("x") + " " + fin("y") + ")) (not (isnan@ (fdiv@ x y)))) :pattern ((fdiv@ x y)))))")
	p("(assert (forall ((x F@) (y F@)) (! (=> (and " + nn + " (or " + fin("x") + " " + fin("y") + ")) (not (isnan@ (fsub@ x y)))) :pattern ((fsub@ x y)))))")
	p("(declare-fun fneg@ (F@) F@)")
	p("(assert (forall ((x F@)) (! (and (= (rk@ (fneg@ x)) (- (rk@ x))) (= (isnan@ (fneg@ x)) (isnan@ x)) (= (fneg@ (fneg@ x)) x)) :pattern ((fneg@ x)))))")
	p("(declare-fun i2f@ (Int) F@)")
	lim := "9007199254740992"
	if s == "32" {
		lim = "16777216"
	}
	p("(assert (forall ((i Int)) (! (and (not (isnan@ (i2f@ i))) (=> (and (<= (- %s) i) (<= i %s)) (= (rk@ (i2f@ i)) (to_real i)))) :pattern ((i2f@ i)))))", lim, lim)
	p("(declare-fun f2i@ (F@) Int)")
	p("(assert (forall ((x F@)) (! (=> (and (not (isnan@ x)) (<= (- %s.0) (rk@ x)) (<= (rk@ x) %s.0)) (= (f2i@ x) (ite (<= 0.0 (rk@ x)) (to_int (rk@ x)) (- (to_int (- (rk@ x))))))) :pattern ((f2i@ x)))))", lim, lim)
	p("(declare-fun b_min@ (F@ F@) F@)")
	p("(declare-fun b_max@ (F@ F@) F@)")
	p("(assert (forall ((x F@) (y F@)) (! (=> (and (not (isnan@ x)) (not (isnan@ y))) (and (not (isnan@ (b_max@ x y))) (= (rk@ (b_max@ x y)) (ite (<= (rk@ x) (rk@ y)) (rk@ y) (rk@ x))))) :pattern ((b_max@ x y)))))")
	p("(assert (forall ((x F@) (y F@)) (! (=> (and (not (isnan@ x)) (not (isnan@ y))) (and (not (isnan@ (b_min@ x y))) (= (rk@ (b_min@ x y)) (ite (<= (rk@ x) (rk@ y)) (rk@ x) (rk@ y))))) :pattern ((b_min@ x y)))))")
}

func ratTerm(f float64) string {
	r := new(big.Rat).SetFloat64(f)
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	t := r.Num().String() + ".0"
	if !r.IsInt() {
		t = "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		t = "(- " + t + ")"
	}
	return t
}

// layoutTerm is what is assumed of the layout of nodes where it is not known.
func (v *VC) layoutTerm() string {
	W, WF := v.W(), v.WF()
	return fmt.Sprintf("(and (= off_n_descendants 0) (<= %s off_children) (<= (+ off_children %s) off_v) (<= (+ off_children %s) off_v) (<= (+ off_children %s) off_dot_factor) (<= (+ off_children %s) off_dot_factor) (<= (+ off_dot_factor %s) off_v) (<= off_v 64))",
		W, "(* 2 "+W+")", WF, "(* 2 "+W+")", WF, WF)
}

// header declares the symbols of this function.
func (v *VC) header() string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	// layout
	if t := v.nodeType(); t != nil {
		offs := v.layoutOffsets(t)
		for _, n := range []string{"n_descendants", "children", "v", "dot_factor"} {
			if o, ok := offs[n]; ok {
				p("(assert (= off_%s %d))", n, o)
			}
		}
	} else {
		p("(assert %s)", strings.ReplaceAll(v.layoutTerm(), "(<= (+ off_dot_factor "+v.WF()+") off_v) ", ""))
	}
	for _, n := range v.Sp.UFOrder {
		u := v.Sp.UFs[n]
		for _, a := range append([]string{u.Ret}, u.Args...) {
			v.specSort(a)
		}
	}
	// memory of other kinds of elements
	seen := map[string]bool{}
	if v.rawMem() {
		v.cntDecl(p, "H")
	}
	var cs []string
	for c := range v.sorts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		so := v.sorts[c]
		if strings.HasPrefix(c, "x|") && !seen[so] {
			seen[so] = true
			p("(declare-sort %s 0)", so)
			p("(declare-fun el_%s (%s Int Int) %s)", so, so, v.sortOf(v.comps[c]))
			v.cntDecl(p, c)
		}
	}
	var bs []string
	for so := range v.boxes {
		bs = append(bs, so)
	}
	sort.Strings(bs)
	for _, so := range bs {
		p("(declare-fun unbox_%s (Int) %s)", xs(so), so)
	}
	var is []string
	for i := range v.imms {
		is = append(is, i)
	}
	sort.Strings(is)
	for _, i := range is {
		p("(declare-fun %s (Int) %s)", i, v.imms[i])
	}
	for _, g := range sortedKeys(v.globals) {
		p("(declare-const %s Int)", g)
		p("(assert (< 0 %s))", g)
	}
	if len(v.globals) > 1 {
		p("(assert (distinct %s))", strings.Join(sortedKeys(v.globals), " "))
	}
	var ss []string
	for s, n := range v.strs {
		ss = append(ss, n)
		_ = s
	}
	sort.Strings(ss)
	for _, n := range ss {
		p("(declare-const %s Str)", n)
	}
	if len(ss) > 0 {
		p("(assert (distinct emptyStr %s))", strings.Join(ss, " "))
	}
	for s, n := range v.strs {
		p("(assert (= (strlen %s) %d))", n, len(s))
	}
	var fs []string
	for n := range v.flts {
		fs = append(fs, n)
	}
	sort.Strings(fs)
	for _, n := range fs {
		f := v.flts[n]
		s := n[2:4]
		if v.ieee {
			if s == "32" {
				p("(define-fun %s () F32 ((_ to_fp 8 24) #x%08x))", n, math.Float32bits(float32(f)))
			} else {
				p("(define-fun %s () F64 ((_ to_fp 11 53) #x%016x))", n, math.Float64bits(f))
			}
			continue
		}
		p("(declare-const %s F%s)", n, s)
		switch {
		case math.IsNaN(f):
			p("(assert (isnan%s %s))", s, n)
		case math.IsInf(f, 1):
			p("(assert (= %s inf%s))", n, s)
		case math.IsInf(f, -1):
			p("(assert (= %s (fneg%s inf%s)))", n, s, s)
		default:
			p("(assert (and (not (isnan%s %s)) (= (rk%s %s) %s)))", s, n, s, n, ratTerm(f))
		}
	}
	var ks []string
	for n, so := range v.Sp.Consts {
		switch n {
		case "VL", "NS", "MC", "VB":
			continue
		}
		ks = append(ks, fmt.Sprintf("(declare-const K_%s %s)", n, v.specSort(so)))
	}
	sort.Strings(ks)
	for _, k := range ks {
		p("%s", k)
	}
	for _, n := range v.Sp.UFOrder {
		u := v.Sp.UFs[n]
		var as []string
		for _, a := range u.Args {
			as = append(as, v.specSort(a))
		}
		p("(declare-fun %s (%s) %s)", v.ufName(n), strings.Join(as, " "), v.specSort(u.Ret))
	}
	// the state at entry
	var ini []string
	for c := range v.init {
		ini = append(ini, c)
	}
	sort.Strings(ini)
	for _, c := range ini {
		p("(declare-const %s %s)", v.init[c], v.compSort(c))
		save := v.lines
		v.lines = nil
		v.compTypeAxiom(c, v.init[c])
		for _, l := range v.lines {
			p("%s", l)
		}
		v.lines = save
	}
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
