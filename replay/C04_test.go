package zzverif

import (
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// recorder stands for an index and notes what the workers are asked to do.
type recorder struct {
	mu    sync.Mutex
	trees map[int]int
	calls int
	done  int
	delay func(worker int) time.Duration
}

func (b *recorder) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	b.mu.Lock()
	b.calls++
	b.trees[worker] = trees
	b.mu.Unlock()
	time.Sleep(b.delay(worker))
	b.mu.Lock()
	b.done++
	b.mu.Unlock()
}

func c04Policy(t *testing.T, multi bool, trees, workers, late int) {
	var p interfaces.AnnoyIndexBuildPolicy = policy.SingleWorker()
	want := 1
	if multi {
		p = policy.MultiWorker()
		want = workers
		if workers == -1 {
			want = runtime.NumCPU()
		}
		if workers == 0 {
			want = 1
		}
	}
	b := &recorder{trees: map[int]int{}, delay: func(w int) time.Duration {
		if late >= 0 && w == late%want {
			return 5 * time.Millisecond
		}
		return 0
	}}
	try(t, "Build of the policy", func() { p.Build(b, trees, workers) })
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.done != b.calls || b.calls != want {
		fail(t, "multi %v, %d trees, %d workers: Build returned when %d of %d workers had finished, %d were expected", multi, trees, workers, b.done, b.calls, want)
	}
	if len(b.trees) != want {
		fail(t, "multi %v, %d trees, %d workers: %d workers have %d different numbers", multi, trees, workers, want, len(b.trees))
	}
	sum, lo, hi := 0, 1<<60, -1
	for _, k := range b.trees {
		if trees == -1 && k != -1 {
			fail(t, "multi %v, %d workers: asked for %d trees instead of -1", multi, workers, k)
		}
		sum += k
		if k < lo {
			lo = k
		}
		if k > hi {
			hi = k
		}
	}
	if trees >= 0 && (sum != trees || hi > lo+1) {
		fail(t, "multi %v, %d workers: the shares of %d trees are %v", multi, workers, trees, b.trees)
	}
}

func c04Index[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, trees, workers int) {
	for _, multi := range []bool{true, false} {
		for _, m := range []int{0, 1, 4, 60} {
			w := newWorld[TV, TIX](t, "angular", 3, multi, false, 9)
			w.fill(rng(), m, "", false)
			try(t, w.desc+" Build", func() { w.idx.Build(trees, workers) })
			roots := priv(w.idx, "_roots").Interface().([]TIX)
			if len(roots) != trees {
				fail(t, "%s: %d trees asked for and %d workers, %d trees built over %d items", w.desc, trees, workers, len(roots), m)
			}
			seen := map[TIX]bool{}
			for _, r := range roots {
				if seen[r] {
					fail(t, "%s: %d trees asked for and %d workers, node %d is the root of two", w.desc, trees, workers, r)
				}
				seen[r] = true
			}
			_ = w.idx.Close()
		}
	}
}

func TestReplayC04(t *testing.T) {
	for _, multi := range []bool{true, false} {
		for trees := -1; trees <= 40; trees++ {
			for _, workers := range []int{-1, 0, 1, 2, 3, 4, 5, 7, 8, 16, 33} {
				late := -1
				if trees%5 == 0 {
					late = trees
				}
				c04Policy(t, multi, trees, workers, late)
			}
		}
	}
	for _, z := range [][2]int{{1000003, 7}, {1 << 20, 3}, {99999, 100}, {5, 1000}, {0, 12}} {
		c04Policy(t, true, z[0], z[1], z[1]-1)
	}
	for trees := 0; trees < 12; trees++ {
		for _, workers := range []int{-1, 0, 1, 2, 3, 5, 8} {
			c04Index[float32, uint32](t, trees, workers)
			if trees%3 == 0 {
				c04Index[float64, uint64](t, trees, workers)
			}
		}
	}
}
