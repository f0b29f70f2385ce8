package zzverif

import (
	"math"
	mrand "math/rand"
	"path/filepath"
	"sort"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

// built makes an index of m items and the given number of trees and reads its nodes from the file it saves.
func built[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, kind string, m, trees int, load bool) (*world[TV, TIX], *file[TV, TIX], []TIX) {
	n := 1 + r.Intn(9)
	if r.Intn(3) == 0 {
		n = 40 + r.Intn(60)
	}
	w := newWorld[TV, TIX](t, kind, n, r.Intn(2) == 0, r.Intn(2) == 0, uint64(1+r.Intn(1000)))
	shapes := []string{"", "", "", "same", "few", "zero", "line", "wide"}
	w.fill(r, m, shapes[r.Intn(len(shapes))], r.Intn(2) == 0)
	try(t, w.desc+" Build", func() { w.idx.Build(trees, 1+r.Intn(3)) })
	if trees == 0 {
		return w, nil, nil
	}
	name := filepath.Join(t.TempDir(), "s.ann")
	if err := w.idx.Save(name); err != nil {
		fail(t, "%s: cannot save: %v", w.desc, err)
	}
	f := readFile[TV, TIX](t, w.d, name)
	// the index was loaded again by Save
	roots := append([]TIX(nil), priv(w.idx, "_roots").Interface().([]TIX)...)
	return w, f, roots
}

// raw is the distance of item i to the query as the search compares it.
func (w *world[TV, TIX]) rawDist(q []TV, v interfaces.Node[TV, TIX]) TV {
	mem := make([]byte, int(w.d.NodeSize())+64)
	x := w.d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	x.SetVector(q)
	w.d.InitNode(x)
	return w.d.Distance(x, v)
}

// ref searches the nodes of the file step by step. exact: ties of priorities never matter.
func (w *world[TV, TIX]) ref(f *file[TV, TIX], roots []TIX, q []TV, k, budget int) (res []TIX) {
	if budget == -1 {
		budget = k * len(roots)
	}
	type sub struct {
		p float64
		i TIX
	}
	var queue []sub
	for _, r := range roots {
		queue = append(queue, sub{math.Inf(1), r})
	}
	items := w.nItems()
	var cand []TIX
	for len(cand) < budget && len(queue) > 0 {
		b := 0
		for z, s := range queue {
			if s.p > queue[b].p || s.p == queue[b].p && s.i < queue[b].i {
				b = z
			}
		}
		s := queue[b]
		queue = append(queue[:b], queue[b+1:]...)
		n := f.node(s.i)
		c := n.GetNumberOfDescendants()
		switch {
		case c == 1 && s.i < items:
			cand = append(cand, s.i)
		case c <= f.max:
			if c > 0 {
				cand = append(cand, n.GetChildren()[:c]...)
			}
		default:
			m := float64(w.d.Margin(n, q))
			ch := n.GetChildren()
			queue = append(queue, sub{math.Min(s.p, m), ch[interfaces.SideRight]}, sub{math.Min(s.p, -m), ch[interfaces.SideLeft]})
		}
	}
	seen := map[TIX]bool{}
	for _, i := range cand {
		if f.node(i).GetNumberOfDescendants() == 1 {
			seen[i] = true
		}
	}
	for i := range seen {
		res = append(res, i)
	}
	d := map[TIX]TV{}
	for _, i := range res {
		d[i] = w.rawDist(q, f.node(i))
	}
	sort.Slice(res, func(a, b int) bool {
		if d[res[a]] != d[res[b]] {
			return d[res[a]] < d[res[b]]
		}
		return res[a] < res[b]
	})
	if k < 0 {
		k = 0
	}
	if len(res) > k {
		res = res[:k]
	}
	return res
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// query draws a query vector: random, one of the items, or zero.
func (w *world[TV, TIX]) query(r *mrand.Rand) []TV {
	q := rvec[TV](r, w.n)
	if len(w.items) > 0 && r.Intn(3) == 0 {
		ks := sortedKeys(w.items)
		q = append([]TV(nil), w.items[ks[r.Intn(len(ks))]]...)
	} else if r.Intn(8) == 0 {
		q = make([]TV, w.n)
	}
	return q
}
