package zzverif

import (
	mrand "math/rand"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

// replayC01 adds items in random order, some again and again, and looks at all of them after every addition.
func replayC01[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, kind string) {
	r := mrand.New(mrand.NewSource(seed()))
	for round := 0; round < 30; round++ {
		n := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 129}[r.Intn(12)]
		w := newWorld[TV, TIX](t, kind, n, false, round%2 == 0, 1)
		top := []int{1, 3, 10, 60, 400}[r.Intn(5)]
		steps := 2 * top
		if steps > 150 {
			steps = 150
		}
		seq := r.Intn(2) == 0
		for k := 0; k < steps; k++ {
			i := TIX(r.Intn(top))
			if seq && r.Intn(3) > 0 {
				i = w.nItems()
			}
			if r.Intn(40) == 0 {
				i += TIX(r.Intn(3000))
			}
			if need := (int(i) + 1) * int(w.d.NodeSize()); need > 1<<22 {
				continue
			}
			v := rvec[TV](r, n)
			if r.Intn(8) == 0 {
				v = make([]TV, n)
			}
			own := v
			if _, ok := w.items[i]; ok && r.Intn(4) == 0 {
				// hand in the stored vector itself
				own = w.idx.GetItem(i)
				v = append([]TV(nil), own...)
			}
			w.items[i] = append([]TV(nil), v...)
			try(t, w.desc+" AddItem", func() { w.idx.AddItem(i, own) })
			if need := int(w.nItems()) * int(w.d.NodeSize()); w.g.size < need {
				fail(t, "%s: %d items (%d just added) in %d bytes, %d are needed", w.desc, w.nItems(), i, w.g.size, need)
			}
			w.g.check()
			if n := priv(w.idx, "_n_items").Uint(); n != uint64(w.nItems()) {
				fail(t, "%s: item %d added, %d items instead of %d", w.desc, i, n, w.nItems())
			}
			if k%7 == 0 || k > steps-4 {
				w.checkItems("while adding")
				nt := w.nItems()
				for j := TIX(0); j < nt; j++ {
					nd := w.d.MapNodeToMemory(unsafe.Pointer(&w.g.buf[pad]), j)
					_, ok := w.items[j]
					if c := nd.GetNumberOfDescendants(); (c == 1) != ok || c > 1 {
						fail(t, "%s: item %d added: %v, present in the index: %d", w.desc, j, ok, c)
					}
				}
			}
		}
		w.idx.Close()
	}
}

func TestReplayC01(t *testing.T) {
	for _, kind := range kinds {
		replayC01[float32, uint32](t, kind)
		replayC01[float64, uint64](t, kind)
		replayC01[float32, uint64](t, kind)
		replayC01[float64, uint32](t, kind)
	}
}
