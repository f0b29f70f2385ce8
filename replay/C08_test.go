package zzverif

import (
	"math"
	mrand "math/rand"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c08[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		m := []int{7, 30, 150, 400, 900}[r.Intn(5)]
		trees := []int{1, 2, 5, 12}[r.Intn(4)]
		w, f, roots := built[TV, TIX](t, r, kind, m, trees, false)
		ctx := w.idx.CreateContext()
		for y := 0; y < 25; y++ {
			q := w.query(r)
			k := 1 + r.Intn(2*m)
			b := []int{-1, 1, 2, 5, 1 + r.Intn(m), 1 + r.Intn(m*trees)}[r.Intn(6)]
			var res []TIX
			try(t, w.desc+" GetNnsByVector", func() { res, _ = w.idx.GetNnsByVector(q, k, b, ctx) })
			if want := w.ref(f, roots, q, k, b); !same(res, want) {
				fail(t, "%s: search for %d of %d items with budget %d finds %v, inspecting the most promising subtree first finds %v", w.desc, k, m, b, res, want)
			}
			mem := make([]byte, int(w.d.NodeSize())+64)
			n := w.d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
			n.SetVector(w.query(r))
			mg := w.d.Margin(n, q)
			if mg != 0 {
				s := w.d.Side(n, q, w.rnd)
				p := w.d.PQDistance(TV(math.Inf(1)), mg, s)
				o := w.d.PQDistance(TV(math.Inf(1)), mg, 1-s)
				if !(p > o) {
					fail(t, "%s: a vector with margin %v is put on side %v, a query prefers the other", w.desc, mg, s)
				}
			}
		}
		_ = w.idx.Close()
	}
}

func TestReplayC08(t *testing.T) {
	r := rng()
	for k := 0; k < 12; k++ {
		c08[float32, uint32](t, r, 6)
		c08[float64, uint64](t, r, 6)
		c08[float32, uint64](t, r, 3)
		c08[float64, uint32](t, r, 3)
	}
}
