package zzverif

import (
	"math"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

func queueRun[T interfaces.VectorType, S interfaces.IndexTypes](t *testing.T, ops, k int, s int64, pushBias int) {
	t.Helper()
	r := rng()
	r.Seed(s)
	q := sort.NewPriorityQueue[T, S]()
	var have []interfaces.Pair[T, S]
	less := func(a, b interfaces.Pair[T, S]) bool {
		return a.First < b.First || a.First == b.First && a.Second < b.Second
	}
	min := func() (interfaces.Pair[T, S], int) {
		m := 0
		for i := range have {
			if less(have[i], have[m]) {
				m = i
			}
		}
		return have[m], m
	}
	for o := 0; o < ops; o++ {
		if q.Len() != len(have) || q.Empty() != (len(have) == 0) {
			fail(t, "seed %d, op %d: Len %d, Empty %v with %d elements", s, o, q.Len(), q.Empty(), len(have))
		}
		top := q.Top()
		if len(have) == 0 {
			if top != nil {
				fail(t, "seed %d, op %d: Top of the empty queue is %v", s, o, *top)
			}
		} else if m, _ := min(); top == nil || *top != m {
			fail(t, "seed %d, op %d: Top is %v, a smallest element is %v", s, o, top, m)
		}
		if len(have) == 0 || r.Intn(10) < pushBias {
			p := interfaces.Pair[T, S]{First: T(r.Intn(k)) - T(k/2), Second: S(r.Intn(k))}
			switch r.Intn(12) {
			case 0:
				p.First = T(math.Inf(1))
			case 1:
				p.First = T(math.Inf(-1))
			case 2:
				p.Second = ^S(0)
			case 3:
				p.First /= 3
			}
			q.Push(p.First, p.Second)
			have = append(have, p)
		} else {
			m, _ := min()
			x := q.Pop()
			if x == nil || *x != m {
				fail(t, "seed %d, op %d: Pop gives %v, a smallest element is %v (%v)", s, o, x, m, have)
			}
			for i := range have {
				if have[i] == *x {
					have = append(have[:i:i], have[i+1:]...)
					break
				}
			}
		}
	}
	for len(have) > 0 {
		m, i := min()
		if x := q.Pop(); x == nil || *x != m {
			fail(t, "seed %d, draining: Pop gives %v, a smallest element is %v", s, x, m)
		}
		have = append(have[:i:i], have[i+1:]...)
	}
	if q.Len() != 0 || !q.Empty() || q.Top() != nil {
		fail(t, "seed %d: not empty after removing every element", s)
	}
}

func pairsRun[T interfaces.VectorType, S interfaces.IndexTypes](t *testing.T) {
	var ps interfaces.Pairs[T, S]
	if ps.Len() != 0 || ps.Top() != nil {
		fail(t, "empty pairs: Len %d, Top %v", ps.Len(), ps.Top())
	}
	var in []*interfaces.Pair[T, S]
	for i := 0; i < 40; i++ {
		p := &interfaces.Pair[T, S]{First: T(i * 7 % 13), Second: S(i)}
		in = append(in, p)
		ps.Push(p)
		if ps.Len() != i+1 || ps.Top() != in[0] {
			fail(t, "pairs after %d pushes: Len %d, Top %v", i+1, ps.Len(), ps.Top())
		}
		for j := range ps {
			if ps[j] != in[j] {
				fail(t, "pairs: push moved element %d", j)
			}
		}
	}
	for i := 39; i >= 0; i-- {
		x := ps.Pop()
		if x != any(in[i]) || ps.Len() != i {
			fail(t, "pairs: Pop gives %v, want %v; %d left", x, in[i], ps.Len())
		}
	}
}

func queueAll[T interfaces.VectorType, S interfaces.IndexTypes](t *testing.T) {
	pairsRun[T, S](t)
	for s := int64(0); s < 150; s++ {
		for _, k := range []int{1, 2, 3, 8, 1000} {
			for _, b := range []int{5, 6, 9} {
				queueRun[T, S](t, 20+int(s)*2, k, seed()*1000+s, b)
			}
		}
	}
}

func TestReplayQueue(t *testing.T) {
	try(t, "float32/uint32", func() { queueAll[float32, uint32](t) })
	try(t, "float64/uint64", func() { queueAll[float64, uint64](t) })
	try(t, "float32/uint64", func() { queueAll[float32, uint64](t) })
	try(t, "float64/uint32", func() { queueAll[float64, uint32](t) })
}
