//verif:race
package zzverif

import (
	"bytes"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)

func c09[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		m := []int{1, 7, 30, 150, 300}[r.Intn(5)]
		trees := []int{1, 2, 5}[r.Intn(3)]
		w := newWorld[TV, TIX](t, kind, 1+r.Intn(20), false, true, 5)
		w.fill(r, m, []string{"", "few", "same"}[r.Intn(3)], r.Intn(2) == 0)
		if r.Intn(2) == 0 {
			w.add(TIX(r.Intn(m)), make([]TV, w.n))
		}
		try(t, w.desc+" Build", func() { w.idx.Build(trees, 1) })
		saved := z%2 == 0
		name := filepath.Join(t.TempDir(), "s.ann")
		var before []byte
		if saved {
			if err := w.idx.Save(name); err != nil {
				fail(t, "%s: cannot save: %v", w.desc, err)
			}
			before, _ = os.ReadFile(name)
		} else {
			before = append([]byte(nil), w.g.bytes()...)
		}
		type job struct {
			q    []TV
			k, b int
			res  []TIX
			ds   []TV
		}
		jobs := make([]job, 24)
		old := w.idx.CreateContext()
		for i := range jobs {
			j := &jobs[i]
			j.q, j.k, j.b = w.query(r), 1+r.Intn(m+2), []int{-1, 1, 5, 1 << 30}[r.Intn(4)]
			keep := append([]TV(nil), j.q...)
			try(t, w.desc+" search", func() { j.res, j.ds = w.idx.GetNnsByVector(j.q, j.k, j.b, w.idx.CreateContext()) })
			var res []TIX
			var ds []TV
			try(t, w.desc+" search", func() { res, ds = w.idx.GetNnsByVector(j.q, j.k, j.b, old) })
			if !same(res, j.res) || !same(ds, j.ds) {
				fail(t, "%s: a used context changes the result from %v to %v", w.desc, j.res, res)
			}
			if !same(keep, j.q) {
				fail(t, "%s: the search changed the query", w.desc)
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			g := g
			go func() {
				defer wg.Done()
				ctx := w.idx.CreateContext()
				for i := range jobs {
					j := &jobs[(i+g)%len(jobs)]
					res, ds := w.idx.GetNnsByVector(j.q, j.k, j.b, ctx)
					if !same(res, j.res) || !same(ds, j.ds) {
						t.Errorf("REPLAY-FAIL %s: a search beside others finds %v, alone %v", w.desc, res, j.res)
					}
					for it := range w.items {
						w.idx.GetItem(it)
						w.idx.GetDistance(it, it)
						break
					}
				}
			}()
		}
		wg.Wait()
		func() {
			// a write to a mapped file is a fault
			defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
			try(t, w.desc+" reading", func() {
				keys := sortedKeys(w.items)
				if len(keys) > 40 {
					keys = keys[:40]
				}
				for _, i := range keys {
					w.idx.GetItem(i)
					for _, j := range keys {
						w.idx.GetDistance(i, j)
					}
					w.idx.GetNnsByItem(i, 3, -1, old)
				}
			})
		}()
		w.checkItems("after searches")
		var after []byte
		if saved {
			after, _ = os.ReadFile(name)
		} else {
			after = w.g.bytes()
		}
		if !bytes.Equal(before, after) {
			fail(t, "%s: searching changed the index (saved %v)", w.desc, saved)
		}
		_ = w.idx.Close()
	}
}

func TestReplayC09(t *testing.T) {
	r := rng()
	for k := 0; k < 5; k++ {
		c09[float32, uint32](t, r, 4)
		c09[float64, uint64](t, r, 4)
	}
}
