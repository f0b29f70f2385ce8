package zzverif

import (
	"math"
	mrand "math/rand"
	"sort"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c07[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		m := []int{1, 2, 3, 7, 30, 150, 400}[r.Intn(7)]
		trees := []int{1, 2, 5, 12}[r.Intn(4)]
		w, f, roots := built[TV, TIX](t, r, kind, m, trees, false)
		ctx := w.idx.CreateContext()
		for y := 0; y < 25; y++ {
			q := w.query(r)
			k := []int{0, 1, 2, 5, m, m + 7, math.MaxInt}[r.Intn(7)]
			b := []int{1 << 40, math.MaxInt, 2 * (m + 20) * 3 * trees}[r.Intn(3)]
			if k >= 1<<40 && r.Intn(2) == 0 {
				b = -1
			}
			var res []TIX
			try(t, w.desc+" GetNnsByVector", func() { res, _ = w.idx.GetNnsByVector(q, k, b, ctx) })
			all := sortedKeys(w.items)
			d := map[TIX]TV{}
			for _, i := range all {
				d[i] = w.rawDist(q, f.node(i))
			}
			sort.Slice(all, func(a, b int) bool { return d[all[a]] < d[all[b]] || d[all[a]] == d[all[b]] && all[a] < all[b] })
			if len(all) > k {
				all = all[:k]
			}
			if !same(res, all) {
				fail(t, "%s: the search for %d with budget %d over %d items finds %v, the closest are %v", w.desc, k, b, m, res, all)
			}
			// the default budget
			k = 1 + r.Intn(6)
			var dflt, expl []TIX
			try(t, w.desc+" GetNnsByVector", func() {
				dflt, _ = w.idx.GetNnsByVector(q, k, -1, ctx)
				expl, _ = w.idx.GetNnsByVector(q, k, k*len(roots), ctx)
			})
			if !same(dflt, expl) {
				fail(t, "%s: the search for %d finds %v with budget -1 and %v with budget %d", w.desc, k, dflt, expl, k*len(roots))
			}
		}
		_ = w.idx.Close()
	}
}

func TestReplayC07(t *testing.T) {
	r := rng()
	for k := 0; k < 12; k++ {
		c07[float32, uint32](t, r, 6)
		c07[float64, uint64](t, r, 6)
		c07[float32, uint64](t, r, 3)
		c07[float64, uint32](t, r, 3)
	}
}
