package zzverif

import (
	"math"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c15[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T) {
	r := rng()
	var x TV
	eps := 1e-11
	if _, ok := any(x).(float32); ok {
		eps = 2e-5
	}
	rnd := newRnd[TIX](7)
	var ti TIX
	W := int(unsafe.Sizeof(ti))
	for it := 0; it < 8000; it++ {
		n := 1 + r.Intn(30)
		m := r.Intn(40)
		d := newDist[TV, TIX]("dotproduct", n)
		s := int(d.NodeSize())
		keep := make([]uint64, (s*(m+2)+pad)/8+1)
		mem := unsafe.Slice((*byte)(unsafe.Pointer(&keep[0])), s*(m+2)+pad)
		r.Read(mem)
		p := unsafe.Pointer(&mem[0])
		vs := make([][]TV, m)
		for i := range vs {
			vs[i] = rvec[TV](r, n)
			switch r.Intn(6) {
			case 0:
				vs[i] = make([]TV, n)
			case 1:
				for z := range vs[i] {
					vs[i][z] *= TV(1 + r.Intn(50))
				}
			case 2:
				if i > 0 {
					copy(vs[i], vs[i-1])
				}
			}
			nd := d.MapNodeToMemory(p, TIX(i))
			nd.SetNumberOfDescendants(TIX(r.Intn(3)))
			nd.SetVector(vs[i])
			nd.SetNorm(TV(r.NormFloat64()))
		}
		before := append([]byte(nil), mem...)
		d.PreProcess(p, TIX(m))
		max := 0.0
		for _, v := range vs {
			max = math.Max(max, float64(vdot(v, v)))
		}
		for z := range mem {
			if mem[z] == before[z] {
				continue
			}
			i := z / s
			if i >= m {
				fail(t, "preprocessing %d nodes changes byte %d of node %d", m, z%s, i)
			}
			nd := d.MapNodeToMemory(p, TIX(i))
			c := int(uintptr(unsafe.Pointer(nd.GetRawChildren()))-uintptr(p)) + 2*W
			v := int(uintptr(unsafe.Pointer(nd.GetRawVector())) - uintptr(p))
			if z < c || z >= v {
				fail(t, "preprocessing changes byte %d of node %d, not only the extra component", z%s, i)
			}
		}
		zero := make([]TV, n)
		for i, v := range vs {
			nd := d.MapNodeToMemory(p, TIX(i))
			e2 := float64(d.Margin(nd, zero))
			own := float64(vdot(v, v))
			if !(math.Abs(e2+own-max) <= 10*eps*max) {
				fail(t, "node %d of %d, squared norm %v, has the squared extra component %v; the largest squared norm is %v", i, m, own, e2, max)
			}
			y := rvec[TV](r, n)
			want := float64(vdot(v, y)) + e2
			bound := e2 + math.Sqrt(own*float64(vdot(y, y)))
			if got := d.Margin(nd, y); math.Abs(float64(got)-want) > 10*eps*bound {
				fail(t, "margin of %v at %v is %v, expected %v", y, v, got, want)
			} else if side := d.Side(nd, y, rnd); got > 0 && side != interfaces.SideRight || got < 0 && side != interfaces.SideLeft {
				fail(t, "side %v for margin %v", side, got)
			}
		}
		for k := 0; k < 10 && m > 0; k++ {
			i, j := r.Intn(m), r.Intn(m)
			a, b := d.MapNodeToMemory(p, TIX(i)), d.MapNodeToMemory(p, TIX(j))
			raw := d.Distance(a, b)
			got := d.NormalizedDistance(raw)
			if !near("dotproduct", got, vs[i], vs[j]) {
				fail(t, "the reported distance of %v and %v is %v, the inner product is %v", vs[i], vs[j], got, refDist("dotproduct", vs[i], vs[j]))
			}
			if raw != d.Distance(b, a) {
				fail(t, "the distance of %v and %v is not symmetric", vs[i], vs[j])
			}
			l := r.Intn(m)
			o := d.Distance(a, d.MapNodeToMemory(p, TIX(l)))
			if (raw < o) != (got > d.NormalizedDistance(o)) {
				fail(t, "raw distances %v and %v, reported %v and %v", raw, o, got, d.NormalizedDistance(o))
			}
		}
	}
	for it := 0; it < 40; it++ {
		n := 1 + r.Intn(20)
		w := newWorld[TV, TIX](t, "dotproduct", n, false, false, 3)
		w.fill(r, 5+r.Intn(100), []string{"", "big", "few", "wide"}[it%4], it%3 == 0)
		w.idx.Build(1+r.Intn(4), 1)
		w.checkItems("after Build")
		w.exhaustive("after Build", rvec[TV](r, n))
		for _, i := range sortedKeys(w.items) {
			j := sortedKeys(w.items)[0]
			if got := w.idx.GetDistance(i, j); !near("dotproduct", got, w.items[i], w.items[j]) {
				fail(t, "%s GetDistance of %v and %v is %v", w.desc, w.items[i], w.items[j], got)
			}
		}
	}
}

func TestReplayC15(t *testing.T) {
	combos(t, c15[float32, uint32], c15[float32, uint64], c15[float64, uint32], c15[float64, uint64])
}
