//verif:race
package zzverif

import (
	"bytes"
	mrand "math/rand"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)

// gid is the number of the goroutine.
func gid() int {
	b := make([]byte, 64)
	b = bytes.TrimPrefix(b[:runtime.Stack(b, false)], []byte("goroutine "))
	n, _ := strconv.Atoi(string(b[:bytes.IndexByte(b, ' ')]))
	return n
}

// watch is a build policy that notes the locks each worker holds.
type watch struct {
	t     *testing.T
	inner interfaces.AnnoyIndexBuildPolicy
	desc  string
	mu    sync.Mutex
	held  map[int][]string
	order map[[2]string]bool
	bad   string
}

func (p *watch) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	var wg sync.WaitGroup
	wg.Add(workers)
	for k := 0; k < workers; k++ {
		go func(k int) {
			defer wg.Done()
			b.ThreadBuild(trees, k, p)
			p.mu.Lock()
			defer p.mu.Unlock()
			if h := p.held[gid()]; len(h) > 0 {
				p.bad = "a worker ended with " + h[0] + " held"
			}
		}(k)
	}
	wg.Wait()
}
func (p *watch) take(l string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	g := gid()
	for _, h := range p.held[g] {
		p.order[[2]string{h, l}] = true
		if h == l || h == "nodes" && l == "shared" || h == "shared" && l == "nodes" {
			p.bad = "a worker that holds " + h + " asks for " + l
		}
		if p.order[[2]string{l, h}] {
			p.bad = l + " and " + h + " are taken in both orders"
		}
	}
	p.held[g] = append(p.held[g], l)
	if p.bad != "" {
		panic(p.bad) // rather than wait for itself for ever
	}
}
func (p *watch) drop(l string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	g := gid()
	h := p.held[g]
	for k := len(h) - 1; k >= 0; k-- {
		if h[k] == l {
			p.held[g] = append(append([]string(nil), h[:k]...), h[k+1:]...)
			return
		}
	}
	p.bad = "a worker releases " + l + ", which it does not hold"
	panic(p.bad)
}
func (p *watch) LockNNodes()        { p.take("nnodes"); p.inner.LockNNodes() }
func (p *watch) UnlockNNodes()      { p.drop("nnodes"); p.inner.UnlockNNodes() }
func (p *watch) LockNodes()         { p.take("nodes"); p.inner.LockNodes() }
func (p *watch) UnlockNodes()       { p.drop("nodes"); p.inner.UnlockNodes() }
func (p *watch) LockSharedNodes()   { p.take("shared"); p.inner.LockSharedNodes() }
func (p *watch) UnlockSharedNodes() { p.drop("shared"); p.inner.UnlockSharedNodes() }
func (p *watch) LockRoots()         { p.take("roots"); p.inner.LockRoots() }
func (p *watch) UnlockRoots()       { p.drop("roots"); p.inner.UnlockRoots() }

func c05[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		n := []int{1, 2, 5, 24}[r.Intn(4)]
		w := newWorld[TV, TIX](t, kind, n, true, r.Intn(2) == 0, uint64(1+r.Intn(100000)))
		p := &watch{t: t, inner: w.pol, desc: w.desc, held: map[int][]string{}, order: map[[2]string]bool{}}
		if z%2 == 0 {
			priv(w.idx, "buildPolicy").Set(valueOf[interfaces.AnnoyIndexBuildPolicy](p))
		}
		m := []int{1, 2, 3, 20, 60, 150}[r.Intn(6)]
		shapes := []string{"", "", "same", "few", "zero", "line"}
		w.fill(r, m, shapes[r.Intn(len(shapes))], r.Intn(2) == 0)
		workers := 2 + r.Intn(7)
		trees := 1 + r.Intn(4)
		try(t, w.desc+" Build", func() { w.idx.Build(trees, workers) })
		if p.bad != "" {
			fail(t, "%s: %s", w.desc, p.bad)
		}
		if z%2 == 0 {
			trees *= workers
		}
		w.g.check()
		w.checkItems("built")
		// each node has one owner: the trees of different workers have no node in common
		nn := TIX(priv(w.idx, "_n_nodes").Uint())
		f := mapFile[TV, TIX](w.d, w.g.bytes()[:int(nn)*int(w.d.NodeSize())])
		roots := priv(w.idx, "_roots").Interface().([]TIX)
		if len(roots) != trees {
			fail(t, "%s: %d workers leave %d roots of %d", w.desc, workers, len(roots), trees)
		}
		owner := map[TIX]TIX{}
		var walk func(i, root TIX)
		walk = func(i, root TIX) {
			if i < w.nItems() {
				return
			}
			if o, ok := owner[i]; ok {
				fail(t, "%s: %d workers: node %d belongs to the trees of roots %d and %d", w.desc, workers, i, o, root)
			}
			owner[i] = root
			if k := f.node(i).GetNumberOfDescendants(); k > f.max {
				c := f.node(i).GetChildren()
				walk(c[0], root)
				walk(c[1], root)
			}
		}
		for _, root := range roots {
			seen := map[TIX]int{}
			if err := f.reach(root, w.nItems(), root+1, true, seen); err != nil || len(seen) < len(w.items) {
				fail(t, "%s: %d workers: the tree of root %d reaches %d of %d items, %v", w.desc, workers, root, len(seen), len(w.items), err)
			}
			walk(root, root)
		}
		if int(nn)-len(roots)-int(w.nItems()) != len(owner) {
			fail(t, "%s: %d workers: %d nodes were taken, the trees have %d", w.desc, workers, int(nn)-len(roots)-int(w.nItems()), len(owner))
		}
		_ = w.idx.Close()
	}
}

func TestReplayC05(t *testing.T) {
	r := rng()
	for k := 0; k < 24; k++ {
		c05[float32, uint32](t, r, 8)
		c05[float64, uint64](t, r, 8)
		c05[float32, uint64](t, r, 4)
		c05[float64, uint32](t, r, 4)
	}
}
