package zzverif

import (
	mrand "math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c03[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		n := []int{1, 2, 3, 5, 9, 24, 70}[r.Intn(7)]
		w := newWorld[TV, TIX](t, kind, n, r.Intn(2) == 0, r.Intn(2) == 0, uint64(1+r.Intn(100000)))
		max := int(w.d.MaxNumChildren())
		m := []int{1, 2, 3, max - 1, max, max + 1, max + 2, 2*max + 1, 30, 200}[r.Intn(10)]
		if m < 1 || m > 400 {
			m = 5
		}
		shapes := []string{"", "", "same", "few", "zero", "allzero", "line", "wide", "big"}
		w.fill(r, m, shapes[r.Intn(len(shapes))], r.Intn(2) == 0)
		trees := []int{1, 2, 3, 8}[r.Intn(4)]
		try(t, w.desc+" Build", func() { w.idx.Build(trees, r.Intn(5)) })
		w.g.check()
		w.checkItems("built")
		q := w.query(r)
		w.exhaustive("built", q)
		// the nodes as they are in memory
		nn := TIX(priv(w.idx, "_n_nodes").Uint())
		f := mapFile[TV, TIX](w.d, w.g.bytes()[:int(nn)*int(w.d.NodeSize())])
		for k, root := range priv(w.idx, "_roots").Interface().([]TIX) {
			seen := map[TIX]int{}
			if root < w.nItems() || root >= nn || f.node(root).GetNumberOfDescendants() != w.nItems() {
				fail(t, "%s: root %d is node %d of %d and has %d descendants, %d items", w.desc, k, root, nn, f.node(root).GetNumberOfDescendants(), w.nItems())
			}
			if err := f.reach(root, w.nItems(), root+1, true, seen); err != nil {
				fail(t, "%s: tree %d: %v", w.desc, k, err)
			}
			for i := range w.items {
				if seen[i] == 0 {
					fail(t, "%s: tree %d does not reach item %d (%d items, %d fit into a leaf)", w.desc, k, i, len(w.items), max)
				}
			}
		}
		name := tmp(t)
		if err := w.idx.Save(name); err != nil {
			fail(t, "%s: cannot save: %v", w.desc, err)
		}
		w.checkFile("saved", name, trees)
		w.checkItems("saved")
		_ = w.idx.Close()
	}
}

func TestReplayC03(t *testing.T) {
	r := rng()
	for k := 0; k < 150; k++ {
		c03[float32, uint32](t, r, 12)
		c03[float64, uint64](t, r, 12)
		c03[float32, uint64](t, r, 6)
		c03[float64, uint32](t, r, 6)
	}
}
