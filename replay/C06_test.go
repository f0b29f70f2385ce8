package zzverif

import (
	"math"
	mrand "math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c06[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		m := []int{0, 1, 2, 3, 7, 30, 150, 400}[r.Intn(8)]
		trees := []int{0, 1, 2, 5, 12}[r.Intn(5)]
		w, f, _ := built[TV, TIX](t, r, kind, m, trees, false)
		ctx := w.idx.CreateContext()
		for y := 0; y < 30; y++ {
			q := w.query(r)
			k := []int{-3, -1, 0, 1, 2, 5, m, m + 7, 1 << 40, math.MaxInt, math.MinInt}[r.Intn(11)]
			b := []int{-1, 0, 1, 2, 10, -5, m, 10 * m, math.MaxInt, math.MinInt}[r.Intn(10)]
			if r.Intn(4) == 0 {
				ctx = w.idx.CreateContext()
			}
			var res []TIX
			var ds []TV
			if ks := sortedKeys(w.items); len(ks) > 0 && y%3 == 0 {
				it := ks[r.Intn(len(ks))]
				q = w.items[it]
				try(t, w.desc+" GetNnsByItem", func() { res, ds = w.idx.GetNnsByItem(it, k, b, ctx) })
			} else {
				try(t, w.desc+" GetNnsByVector", func() { res, ds = w.idx.GetNnsByVector(q, k, b, ctx) })
			}
			asked := k
			if k < 0 {
				asked = 0
			}
			w.checkResult("search", q, res, ds, asked)
			for j, i := range res {
				if f == nil {
					break
				}
				raw := w.rawDist(q, f.node(i))
				if ds[j] != w.d.NormalizedDistance(raw) {
					fail(t, "%s: item %d reported at %v, its distance is %v", w.desc, i, ds[j], w.d.NormalizedDistance(raw))
				}
				if j > 0 {
					p := w.rawDist(q, f.node(res[j-1]))
					if raw < p || raw == p && i <= res[j-1] {
						fail(t, "%s: item %d (%v) after item %d (%v)", w.desc, i, raw, res[j-1], p)
					}
				}
			}
		}
		_ = w.idx.Close()
	}
}

func TestReplayC06(t *testing.T) {
	r := rng()
	for k := 0; k < 12; k++ {
		c06[float32, uint32](t, r, 6)
		c06[float64, uint64](t, r, 6)
		c06[float32, uint64](t, r, 3)
		c06[float64, uint32](t, r, 3)
	}
}
