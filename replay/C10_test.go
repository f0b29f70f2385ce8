package zzverif

import (
	mrand "math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/interfaces"
)

func c10[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		n := []int{1, 2, 3, 5, 9, 70}[r.Intn(6)]
		w := newWorld[TV, TIX](t, kind, n, r.Intn(2) == 0, r.Intn(2) == 0, uint64(1+r.Intn(100000)))
		max := int(w.d.MaxNumChildren())
		m := []int{0, 1, 1, 2, 3, max - 1, max, max + 1, 40, 200}[r.Intn(10)]
		if m < 0 || m > 300 {
			m = 6
		}
		shapes := []string{"", "", "same", "few", "zero", "line"}
		w.fill(r, m, shapes[r.Intn(len(shapes))], r.Intn(2) == 0)
		trees := []int{1, 2, 3, 6}[r.Intn(4)]
		try(t, w.desc+" Build", func() { w.idx.Build(trees, r.Intn(4)) })
		nn := int(priv(w.idx, "_n_nodes").Uint())
		before := append([]byte(nil), w.g.bytes()[:nn*int(w.d.NodeSize())]...)
		dir := t.TempDir()
		name := filepath.Join(dir, "a.ann")
		if r.Intn(3) == 0 { // something is there already
			_ = os.WriteFile(name, make([]byte, r.Intn(100000)), 0o600)
		}
		save := func(what, name string) {
			t.Helper()
			var err error
			try(t, w.desc+" "+what, func() { err = w.idx.Save(name) })
			if err != nil {
				fail(t, "%s: %s: %v", w.desc, what, err)
			}
			got, err := os.ReadFile(name)
			if err != nil || string(got) != string(before) {
				fail(t, "%s: %s (%d items, %d trees): the file has %d bytes that differ from the %d bytes of the nodes, %v", w.desc, what, m, trees, len(got), len(before), err)
			}
		}
		check := func(what string, v *world[TV, TIX]) {
			t.Helper()
			if k := priv(v.idx, "_n_items").Uint(); k != uint64(w.nItems()) {
				fail(t, "%s: %s: %d items instead of %d", v.desc, what, k, w.nItems())
			}
			if k := priv(v.idx, "_n_nodes").Uint(); k != uint64(nn) {
				fail(t, "%s: %s: %d nodes instead of %d", v.desc, what, k, nn)
			}
			v.checkItems(what)
			roots := priv(v.idx, "_roots").Interface().([]TIX)
			if len(roots) == 0 {
				fail(t, "%s: %s: no trees (%d items, %d trees)", v.desc, what, m, trees)
			}
			f := mapFile[TV, TIX](w.d, before)
			for _, root := range roots {
				seen := map[TIX]int{}
				if root >= TIX(nn) || f.node(root).GetNumberOfDescendants() != w.nItems() {
					fail(t, "%s: %s: %d is not a root (%d items)", v.desc, what, root, m)
				}
				if err := f.reach(root, w.nItems(), root+1, true, seen); err != nil || len(seen) < len(w.items) {
					fail(t, "%s: %s: the tree of root %d reaches %d of %d items, %v", v.desc, what, root, len(seen), len(w.items), err)
				}
			}
			for y := 0; y < 3; y++ {
				v.exhaustive(what, w.query(r))
			}
		}
		save("saved", name)
		check("saved", w)
		for _, mmap := range []bool{true, false} {
			v := newWorld[TV, TIX](t, kind, n, false, mmap, 5)
			v.items = w.items
			for y := 0; y < 2; y++ { // loading again is loading
				var err error
				try(t, v.desc+" Load", func() { err = v.idx.Load(name) })
				if err != nil {
					fail(t, "%s: cannot load what was saved (%d items, %d trees): %v", v.desc, m, trees, err)
				}
				check("loaded", v)
			}
			_ = v.idx.Close()
		}
		// save what was loaded: elsewhere, and over itself
		save("saved again", filepath.Join(dir, "b.ann"))
		check("saved again", w)
		save("saved over itself", filepath.Join(dir, "b.ann"))
		check("saved over itself", w)
		_ = w.idx.Close()
	}
}

// many sizes of the file
func c10size[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, n, from, to int) {
	name := filepath.Join(t.TempDir(), "a.ann")
	for m := from; m < to; m++ {
		w := newWorld[TV, TIX](t, kinds[m%2], n, false, m%3 == 0, uint64(1+r.Intn(100000)))
		w.fill(r, m, "", false)
		try(t, w.desc+" Build", func() { w.idx.Build(1, 1) })
		nn := int(priv(w.idx, "_n_nodes").Uint())
		before := append([]byte(nil), w.g.bytes()[:nn*int(w.d.NodeSize())]...)
		if err := w.idx.Save(name); err != nil {
			fail(t, "%s: cannot save %d items: %v", w.desc, m, err)
		}
		if got, err := os.ReadFile(name); err != nil || string(got) != string(before) {
			fail(t, "%s: %d items, %d nodes: the file has %d bytes that differ from the %d bytes of the nodes, %v", w.desc, m, nn, len(got), len(before), err)
		}
		_ = w.idx.Close()
	}
}

// indexes with one index allocator and one file
func c10shared[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, mmap bool) {
	name := filepath.Join(t.TempDir(), "a.ann")
	n := 1 + r.Intn(8)
	kind := kinds[r.Intn(2)]
	same := r.Intn(2) == 0
	var ia interfaces.IndexAllocator
	var ws []*world[TV, TIX]
	for k := 0; k < 4; k++ {
		w := newWorld[TV, TIX](t, kind, n, false, mmap, 3)
		if ia == nil {
			ia = w.ia
		}
		w.ia = ia
		w.idx = index.New[TV, TIX](w.rnd, w.d, w.pol, w.g, ia, nil, false, 0)
		m := 1
		if !same {
			m = 1 + r.Intn(30)
		}
		w.fill(r, m, "", false)
		try(t, w.desc+" Build", func() { w.idx.Build(1, 1) })
		if err := w.idx.Save(name); err != nil {
			fail(t, "%s: cannot save over a file that another index has open: %v", w.desc, err)
		}
		ws = append(ws, w)
		v := newWorld[TV, TIX](t, kind, n, false, mmap, 3)
		v.idx = index.New[TV, TIX](v.rnd, v.d, v.pol, v.g, ia, nil, false, 0)
		v.items = w.items
		if err := v.idx.Load(name); err != nil {
			fail(t, "%s: cannot load: %v", v.desc, err)
		}
		ws = append(ws, v)
		for i, x := range ws {
			x.checkItems("beside others with the same index allocator")
			x.exhaustive("beside others with the same index allocator", x.query(r))
			if k == 2 && i == 1 {
				_ = x.idx.Close()
				ws = append(ws[:1:1], ws[2:]...)
				break
			}
		}
	}
	for _, x := range ws {
		x.checkItems("beside others with the same index allocator")
		if err := x.idx.Close(); err != nil {
			fail(t, "%s: Close: %v", x.desc, err)
		}
	}
}

func TestReplayC10(t *testing.T) {
	r := rng()
	for k := 0; k < 8; k++ {
		c10shared[float32, uint32](t, r, k%2 == 0)
		c10shared[float64, uint64](t, r, k%4 < 2)
	}
	c10size[float32, uint32](t, r, 100, 100, 340)
	c10size[float64, uint64](t, r, 3, 1, 300)
	for k := 0; k < 80; k++ {
		c10[float32, uint32](t, r, 12)
		c10[float64, uint64](t, r, 12)
		c10[float32, uint64](t, r, 6)
		c10[float64, uint32](t, r, 6)
	}
}
