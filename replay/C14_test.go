package zzverif

import (
	"math"
	mrand "math/rand"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c14vec[TV interfaces.VectorType](r *mrand.Rand, n int) []TV {
	v := make([]TV, n)
	s := 1.0
	switch r.Intn(8) {
	case 0:
		return v
	case 1:
		s = 1e-3
	case 2:
		s = 1e-8
	case 3:
		s = 1e6
	case 4: // one single element
		v[r.Intn(n)] = TV(r.NormFloat64())
		return v
	}
	for i := range v {
		v[i] = TV(s * r.NormFloat64())
	}
	return v
}

func nodes[TV interfaces.VectorType, TIX interfaces.IndexTypes](d interfaces.Distance[TV, TIX], n int) ([]interfaces.Node[TV, TIX], []byte) {
	s := int(d.NodeSize())
	keep := make([]uint64, (s*n+pad)/8+1)
	mem := unsafe.Slice((*byte)(unsafe.Pointer(&keep[0])), s*n+pad)
	for i := s * n; i < len(mem); i++ {
		mem[i] = 0xA5
	}
	var out []interfaces.Node[TV, TIX]
	for i := 0; i < n; i++ {
		out = append(out, d.MapNodeToMemory(unsafe.Pointer(&mem[0]), TIX(i)))
	}
	return out, mem
}

func relNear(a, b, eps float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= eps*(math.Abs(a)+math.Abs(b))
}

func c14[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T) {
	r := rng()
	var x TV
	eps := 1e-11
	if _, ok := any(x).(float32); ok {
		eps = 2e-5
	}
	rnd := newRnd[TIX](7)
	for it := 0; it < 40000; it++ {
		n := 1 + r.Intn(40)
		if it%10 == 0 {
			n = 1 + r.Intn(400)
		}
		d := newDist[TV, TIX]("angular", n)
		ns, mem := nodes(d, 3)
		a, b := c14vec[TV](r, n), c14vec[TV](r, n)
		switch r.Intn(6) {
		case 0:
			copy(b, a)
		case 1:
			for i := range b {
				b[i] = -a[i]
			}
		case 2:
			for i := range b {
				b[i] = a[i] * 3
			}
		}
		aa, bb, ab := float64(vdot(a, a)), float64(vdot(b, b)), float64(vdot(a, b))
		for i, v := range [][]TV{a, b} {
			ns[i].SetNumberOfDescendants(TIX(5 + i))
			ns[i].SetVector(v)
			before := append([]byte(nil), mem...)
			d.InitNode(ns[i])
			if got := float64(ns[i].GetNorm()); !relNear(got, []float64{aa, bb}[i], eps) {
				fail(t, "InitNode of %v stores %v, the squared norm is %v", v, got, []float64{aa, bb}[i])
			}
			norm := ns[i].GetNorm()
			c0 := uintptr(unsafe.Pointer(ns[i].GetRawChildren())) - uintptr(unsafe.Pointer(&mem[0]))
			for z := range mem {
				if mem[z] != before[z] && (uintptr(z) < c0 || uintptr(z) >= c0+unsafe.Sizeof(norm)) {
					fail(t, "InitNode changes byte %d, which is not part of the norm", z)
				}
			}
		}
		cos := func(p, q float64) float64 {
			if p == 0 || q == 0 || TV(p)*TV(q) == 0 {
				return 2
			}
			return 2 - 2*ab/math.Sqrt(p*q)
		}
		check := func(what string, p, q float64) {
			if p*q > 1e30 || p*q != 0 && p*q < 1e-30 {
				return // the product leaves the range in which the reference is accurate
			}
			before := append([]byte(nil), mem...)
			got, back := d.Distance(ns[0], ns[1]), d.Distance(ns[1], ns[0])
			if string(before) != string(mem) {
				fail(t, "Distance changes a node")
			}
			w := cos(p, q)
			if math.Abs(float64(got)-w) > 20*eps*(2+2*math.Abs(ab)/math.Sqrt(math.Max(p*q, 1e-300))) && p*q > 0 || p*q == 0 && got != 2 {
				fail(t, "%s: distance of %v and %v with norms %v and %v is %v, expected %v", what, a, b, p, q, got, w)
			}
			if got != back {
				fail(t, "%s: the distance of %v and %v is not symmetric: %v and %v", what, a, b, got, back)
			}
			nd := d.NormalizedDistance(got)
			if !(nd >= 0) || !relNear(float64(nd), math.Sqrt(math.Max(float64(got), 0)), eps) {
				fail(t, "%s: the reported distance of %v and %v is %v for %v", what, a, b, nd, got)
			}
		}
		check("initialised", aa, bb)
		// norms that are stored are used, norms that are zero are computed
		sa, sb := aa*4+1, bb*9+1
		ns[0].SetNorm(TV(sa))
		check("stored norm", sa, bb)
		ns[1].SetNorm(TV(sb))
		check("stored norms", sa, sb)
		ns[0].SetNorm(0)
		check("one norm missing", aa, sb)
		ns[1].SetNorm(0)
		check("no norms", aa, bb)
		// margin and side
		m := d.Margin(ns[0], b)
		bound := 0.0
		for i := range a {
			bound += math.Abs(float64(a[i]) * float64(b[i]))
		}
		if math.Abs(float64(m)-ab) > 10*eps*bound {
			fail(t, "margin of %v at %v is %v, the dot product is %v", b, a, m, ab)
		}
		side := d.Side(ns[0], b, rnd)
		if m > 0 && side != interfaces.SideRight || m < 0 && side != interfaces.SideLeft || side != interfaces.SideLeft && side != interfaces.SideRight {
			fail(t, "side %v for margin %v", side, m)
		}
		// normalise
		copyNode := append([]byte(nil), mem...)
		d.Normalize(ns[0])
		nv := ns[0].GetVector(TIX(n))
		norm := math.Sqrt(aa)
		if !math.IsInf(aa, 0) && (aa == 0 || aa > 1e-30) {
			for i := range a {
				w := float64(a[i])
				if norm > 0 {
					w /= norm
				}
				if !relNear(float64(nv[i]), w, 10*eps) {
					fail(t, "normalising %v gives %v at %d, expected %v", a, nv[i], i, w)
				}
			}
		}
		v0 := uintptr(unsafe.Pointer(ns[0].GetRawVector())) - uintptr(unsafe.Pointer(&mem[0]))
		for z := range mem {
			if mem[z] != copyNode[z] && (uintptr(z) < v0 || uintptr(z) >= v0+uintptr(n)*unsafe.Sizeof(x)) {
				fail(t, "Normalize changes byte %d, which is not part of the vector", z)
			}
		}
	}
	d := newDist[TV, TIX]("angular", 3)
	for _, q := range []float64{-2, -1e-3, -1e-7, 0, 1e-7, 0.5, 2, 4} {
		nd := d.NormalizedDistance(TV(q))
		if !relNear(float64(nd), math.Sqrt(math.Max(float64(TV(q)), 0)), eps) {
			fail(t, "the reported distance for %v is %v", q, nd)
		}
		for _, m := range []float64{-3, -0.1, 0, 0.1, 3} {
			if got := d.PQDistance(TV(q), TV(m), interfaces.SideRight); got != TV(math.Min(float64(TV(q)), float64(TV(m)))) {
				fail(t, "PQDistance(%v, %v, right) = %v", q, m, got)
			}
			if got := d.PQDistance(TV(q), TV(m), interfaces.SideLeft); got != TV(math.Min(float64(TV(q)), float64(TV(-m)))) {
				fail(t, "PQDistance(%v, %v, left) = %v", q, m, got)
			}
		}
	}
	// through an index
	for it := 0; it < 60; it++ {
		n := 1 + r.Intn(30)
		w := newWorld[TV, TIX](t, "angular", n, false, false, 3)
		for i := TIX(0); i < 12; i++ {
			v := c14vec[TV](r, n)
			if s := float64(vdot(v, v)); s > 1e12 || s > 0 && s < 1e-12 {
				v = rvec[TV](r, n)
			}
			if i%3 == 1 {
				v = append([]TV(nil), w.items[i-1]...)
			}
			w.add(i, v)
		}
		for i := TIX(0); i < 12; i++ {
			for j := TIX(0); j < 12; j++ {
				got, back := w.idx.GetDistance(i, j), w.idx.GetDistance(j, i)
				if !near("angular", got, w.items[i], w.items[j]) || got != back {
					fail(t, "GetDistance of %v and %v is %v and %v, expected %v", w.items[i], w.items[j], got, back, refDist("angular", w.items[i], w.items[j]))
				}
			}
		}
	}
}

func TestReplayC14(t *testing.T) {
	combos(t, c14[float32, uint32], c14[float32, uint64], c14[float64, uint32], c14[float64, uint64])
}
