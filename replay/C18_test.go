package zzverif

import (
	"fmt"
	"math"
	mrand "math/rand"
	gosort "sort"
	"syscall"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

func same[T interfaces.VectorType](a, b T) bool {
	return a == b && math.Signbit(float64(a)) == math.Signbit(float64(b)) || a != a && b != b
}

// atEnd gives a copy of v whose end is the end of accessible memory: reading beyond it faults.
func atEnd[T interfaces.VectorType](v []T) (*T, func()) {
	page := 4096
	n := (len(v)*int(unsafe.Sizeof(T(0))) + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("no memory for the replay")
	}
	if err := syscall.Mprotect(m[n:], syscall.PROT_NONE); err != nil {
		panic("no guard page for the replay")
	}
	p := unsafe.Add(unsafe.Pointer(&m[0]), n-len(v)*int(unsafe.Sizeof(T(0))))
	copy(unsafe.Slice((*T)(p), len(v)+0), v)
	return (*T)(p), func() { syscall.Munmap(m) }
}

func vals[T interfaces.VectorType](r *mrand.Rand, n int) []T {
	v := make([]T, n)
	plain := r.Intn(2) == 0
	for i := range v {
		if plain {
			v[i] = T(1+r.Intn(100)) / 64
			continue
		}
		switch r.Intn(14) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = T(math.Copysign(0, -1))
		case 2:
			v[i] = T(r.NormFloat64() * 1e18)
		case 3:
			v[i] = T(r.NormFloat64() * 1e-18)
		default:
			v[i] = T(r.NormFloat64())
		}
	}
	return v
}

func vectorRun[T interfaces.VectorType, S interfaces.IndexTypes](t *testing.T) {
	r := rng()
	abs := func(x T) T {
		if x < 0 {
			return -x
		}
		return x
	}
	for it := 0; it < 1500; it++ {
		l := r.Intn(40)
		if it%10 == 0 {
			l = 20 + r.Intn(900)
		}
		a, b := vals[T](r, l), vals[T](r, l+r.Intn(3))
		n := l
		if r.Intn(3) == 0 {
			n = r.Intn(l + 1)
		}
		var d, e, m, aa T
		for i := 0; i < n; i++ {
			d += a[i] * b[i]
			aa += a[i] * a[i]
			e += (a[i] - b[i]) * (a[i] - b[i])
			m += abs(a[i] - b[i])
		}
		chk := func(what string, got, want T) {
			if !same(got, want) {
				fail(t, "%s of the first %d of %v and %v is %v, want %v", what, n, a, b, got, want)
			}
		}
		chk("Dot", vector.Dot(a, b, S(n)), d)
		chk("EuclideanDistance", vector.EuclideanDistance(a, b, S(n)), e)
		chk("ManhattanDistance", vector.ManhattanDistance(a, b, S(n)), m)
		chk("GetNorm", vector.GetNorm(a, S(n)), T(math.Sqrt(float64(aa))))
		if it%3 == 0 || it%10 == 0 {
			pa, fa := atEnd(a[:n])
			pb, fb := atEnd(b[:n])
			chk("DotUnsafe", vector.DotUnsafe(pa, pb, S(n)), d)
			chk("GetNormUnsafe", vector.GetNormUnsafe(pa, S(n)), T(math.Sqrt(float64(aa))))
			// the same at the end of readable memory for the checked functions
			chk("Dot", vector.Dot(a[:n:n], b[:n:n], S(n)), d)
			fa()
			fb()
		}
		for _, x := range b {
			if !same(vector.Abs(x), abs(x)) || vector.Abs(x) < 0 {
				fail(t, "Abs(%v) is %v", x, vector.Abs(x))
			}
		}
	}
	for _, x := range []T{T(math.Inf(1)), T(math.Inf(-1)), -1, 1, 0} {
		if !same(vector.Abs(x), abs(x)) {
			fail(t, "Abs(%v) is %v", x, vector.Abs(x))
		}
	}
	if x := vector.Abs(T(math.NaN())); x == x {
		fail(t, "Abs(NaN) is %v", x)
	}
}

func TestReplayVector(t *testing.T) {
	try(t, "float32/uint32", func() { vectorRun[float32, uint32](t) })
	try(t, "float64/uint64", func() { vectorRun[float64, uint64](t) })
	try(t, "float64/uint32", func() { vectorRun[float64, uint32](t) })
	try(t, "float32/uint64", func() { vectorRun[float32, uint64](t) })
}

func interRun[S interfaces.IndexTypes](t *testing.T) {
	r := rng()
	for it := 0; it < 4000; it++ {
		k := []int{1, 2, 5, 30, 1000}[r.Intn(5)]
		mk := func(n int) []S {
			s := make([]S, n, n+r.Intn(3))
			for i := range s {
				s[i] = S(r.Intn(k))
				if r.Intn(9) == 0 {
					s[i] = ^S(0) - S(r.Intn(2))
				}
			}
			return s
		}
		n, m := r.Intn(12), r.Intn(12)
		if it%100 == 0 {
			n, m = r.Intn(900), r.Intn(900)
		}
		a, b := mk(n), mk(m)
		w := fmt.Sprintf("Intersection(%v, %v)", a, b)
		ca, cb := map[S]int{}, map[S]int{}
		for _, x := range a {
			ca[x]++
		}
		for _, x := range b {
			cb[x]++
		}
		var want []S
		for x, c := range ca {
			for i := 0; i < c && i < cb[x]; i++ {
				want = append(want, x)
			}
		}
		gosort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		got := utils.Intersection(a, b)
		if len(got) != len(want) {
			fail(t, "%s is %v, want %v", w, got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				fail(t, "%s is %v, want %v", w, got, want)
			}
		}
		x, y := S(r.Uint64()), S(r.Uint64())
		mx := x
		if y > x {
			mx = y
		}
		if utils.Max(x, y) != mx || utils.Max(x, x) != x {
			fail(t, "Max(%d, %d) is %d", x, y, utils.Max(x, y))
		}
	}
}

func TestReplayIntersection(t *testing.T) {
	try(t, "uint32", func() { interRun[uint32](t) })
	try(t, "uint64", func() { interRun[uint64](t) })
}

func TestReplayRound(t *testing.T) {
	r := rng()
	xs := []float64{0, 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49, -0.49, 1e15 + 0.5, math.Inf(1), math.Inf(-1), -0.2, 3.7, -3.7}
	for i := 0; i < 3000; i++ {
		xs = append(xs, r.NormFloat64()*math.Pow(10, float64(r.Intn(6))), float64(r.Intn(2001)-1000)/2, float64(r.Intn(20001)-10000)/1000)
	}
	for _, x := range xs {
		if got, want := utils.Round(x), math.Floor(x+0.5); got != want {
			fail(t, "Round(%v) is %v, want %v", x, got, want)
		}
		for p := -2; p < 7; p++ {
			s := math.Pow(10, float64(p))
			if got, want := utils.RoundPlus(x, p), math.Floor(x*s+0.5)/s; got != want && !(got != got && want != want) {
				fail(t, "RoundPlus(%v, %d) is %v, want %v", x, p, got, want)
			}
		}
	}
}
