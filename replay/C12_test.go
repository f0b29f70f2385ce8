package zzverif

import (
	"fmt"
	"math/rand"
	gosort "sort"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

func mkPairs[TV interfaces.VectorType, TIX interfaces.IndexTypes](r *rand.Rand, n, k int) []*interfaces.Pair[TV, TIX] {
	s := make([]*interfaces.Pair[TV, TIX], n)
	for i := range s {
		if i > 0 && r.Intn(12) == 0 {
			s[i] = s[r.Intn(i)]
			continue
		}
		s[i] = &interfaces.Pair[TV, TIX]{First: TV(r.Intn(k)) - TV(k/2), Second: TIX(r.Intn(k))}
		if r.Intn(20) == 0 {
			s[i].Second = ^TIX(0) - TIX(r.Intn(3))
		}
	}
	switch r.Intn(4) {
	case 0:
		gosort.Slice(s, func(i, j int) bool { return lt(s[i], s[j]) })
	case 1:
		gosort.Slice(s, func(i, j int) bool { return lt(s[j], s[i]) })
	}
	return s
}

func lt[TV interfaces.VectorType, TIX interfaces.IndexTypes](a, b *interfaces.Pair[TV, TIX]) bool {
	return a.First < b.First || a.First == b.First && a.Second < b.Second
}

func show[TV interfaces.VectorType, TIX interfaces.IndexTypes](s []*interfaces.Pair[TV, TIX]) string {
	o := ""
	for i, x := range s {
		if i > 60 {
			return o + "..."
		}
		o += fmt.Sprintf("(%v,%v)", x.First, x.Second)
	}
	return o
}

func checkPart[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, what string, in, out []*interfaces.Pair[TV, TIX], b, m, e int) {
	t.Helper()
	w := fmt.Sprintf("%s[%d,%d,%d) of %d pairs %s gives %s", what, b, m, e, len(in), show(in), show(out))
	c := map[*interfaces.Pair[TV, TIX]]int{}
	for i := range in {
		if i < b || i >= e {
			if in[i] != out[i] {
				fail(t, "%s: position %d outside the range changed", w, i)
			}
			continue
		}
		c[in[i]]++
		c[out[i]]--
	}
	for _, n := range c {
		if n != 0 {
			fail(t, "%s: not a permutation", w)
		}
	}
	for i := b; i < m; i++ {
		if i > b && lt(out[i], out[i-1]) {
			fail(t, "%s: position %d out of order", w, i)
		}
		for j := m; j < e; j++ {
			if lt(out[j], out[i]) {
				fail(t, "%s: a smaller pair is left at %d", w, j)
			}
		}
	}
}

func runC12[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T) {
	r := rng()
	type P = interfaces.Pair[TV, TIX]
	part := map[string]func(s interfaces.Pairs[TV, TIX], b, m, e int){
		"PartialSortSlice": sort.PartialSortSlice[TV, TIX], "PartialSortSlice2": sort.PartialSortSlice2[TV, TIX]}
	full := map[string]func(s interfaces.Pairs[TV, TIX]){
		"SortPairs":  func(s interfaces.Pairs[TV, TIX]) { sort.SortPairs(s) },
		"SortPairs2": func(s interfaces.Pairs[TV, TIX]) { sort.SortPairs2(s) }}
	one := func(n, k, b, m, e int) {
		in := mkPairs[TV, TIX](r, n, k)
		for name, f := range part {
			out := append([]*P(nil), in...)
			try(t, fmt.Sprintf("%s[%d,%d,%d) of %s", name, b, m, e, show(in)), func() { f(out, b, m, e) })
			checkPart(t, name, in, out, b, m, e)
		}
		for name, f := range full {
			out := append([]*P(nil), in...)
			try(t, name+" of "+show(in), func() { f(out) })
			checkPart(t, name, in, out, 0, n, n)
		}
		// comparison, swap and search
		for q := 0; q < 5 && n > 0; q++ {
			i, j := r.Intn(n), r.Intn(n)
			ps := interfaces.Pairs[TV, TIX](append([]*P(nil), in...))
			if in[i].Less(in[j]) != lt(in[i], in[j]) || ps.Less(i, j) != lt(in[i], in[j]) {
				fail(t, "Less of %v and %v", *in[i], *in[j])
			}
			ps.Swap(i, j)
			if ps[i] != in[j] || ps[j] != in[i] || ps.Len() != n {
				fail(t, "Swap(%d,%d)", i, j)
			}
			v, w, f1, f2 := TV(r.Intn(k)), TIX(r.Intn(k)), false, false
			for _, p := range in {
				f1 = f1 || p.First == v
				f2 = f2 || p.Second == w
			}
			if ps.ContainsFirst(v) != f1 || ps.ContainsSecond(w) != f2 {
				fail(t, "ContainsFirst(%v)/ContainsSecond(%v) of %s", v, w, show(in))
			}
		}
	}
	for n := 0; n <= 7; n++ {
		for b := 0; b <= n; b++ {
			for m := b; m <= n; m++ {
				for e := m; e <= n; e++ {
					for q := 0; q < 6; q++ {
						one(n, 1+r.Intn(8), b, m, e)
					}
				}
			}
		}
	}
	for q := 0; q < 3000; q++ {
		n := r.Intn(120)
		b := r.Intn(n + 1)
		m := b + r.Intn(n-b+1)
		e := m + r.Intn(n-m+1)
		switch r.Intn(4) {
		case 0:
			b = 0
		case 1:
			e = n
		}
		one(n, 1+r.Intn(200), b, m, e)
	}
	for _, n := range []int{500, 501, 1000, 3000} {
		one(n, 5000, 0, n/10, n)
		one(n, 50, 3, n/2, n-3)
	}
	ints := map[string]func(s []TIX){"SortSlice": sort.SortSlice[TIX], "SortSlice2": sort.SortSlice2[TIX], "SortSlice3": sort.SortSlice3[TIX]}
	for q := 0; q < 600; q++ {
		n := r.Intn(60)
		if q%50 == 0 {
			n = 480 + r.Intn(700)
		}
		in := make([]TIX, n)
		for i := range in {
			in[i] = TIX(r.Uint64()) >> uint(r.Intn(60))
		}
		want := append([]TIX(nil), in...)
		gosort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for name, f := range ints {
			out := append([]TIX(nil), in...)
			try(t, fmt.Sprintf("%s of %v", name, in), func() { f(out) })
			for i := range out {
				if out[i] != want[i] {
					fail(t, "%s of %v gives %v", name, in, out)
				}
			}
		}
	}
}

func TestReplayC12(t *testing.T) {
	t.Run("float32,uint32", runC12[float32, uint32])
	t.Run("float64,uint64", runC12[float64, uint64])
}
