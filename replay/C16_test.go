package zzverif

import (
	"math"
	mrand "math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// reference generators
type ref32[T interfaces.IndexTypes] struct{ x, y, z, c T }

func (r *ref32[T]) next() T {
	r.x = 69069*r.x + 12345
	r.y ^= r.y << 13
	r.y ^= r.y >> 17
	r.y ^= r.y << 5
	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
	r.c = T(t >> 32)
	r.z = T(t)
	return r.x + r.y + r.z
}
func new32[T interfaces.IndexTypes](s T) *ref32[T] {
	if s == 0 {
		s = 123456789
	}
	return &ref32[T]{s, 362436000, 521288629, 7654321}
}

type ref64 struct{ x, y, z, c uint64 }

func (r *ref64) next() uint64 {
	r.z = 6906969069*r.z + 1234567
	r.y ^= r.y << 13
	r.y ^= r.y >> 17
	r.y ^= r.y << 43
	t := r.x<<58 + r.c
	r.c = r.x >> 6
	r.x += t
	if r.x < t {
		r.c++
	}
	return r.x + r.y + r.z
}
func new64(s uint64) *ref64 {
	if s == 0 {
		s = 1234567890987654321
	}
	return &ref64{s, 362436362436362436, 1066149217761810, 123456123456123456}
}

type gen[T interfaces.IndexTypes] interface {
	interfaces.Random[T]
	NextBool() bool
}
type ref[T interfaces.IndexTypes] interface{ next() T }

func genRun[T interfaces.IndexTypes](t *testing.T, what string, mk func(T) gen[T], rf func(T) ref[T], def T, setX func(ref[T], T)) {
	t.Helper()
	r := rng()
	seeds := []T{0, 1, 2, 3, 1000, 123456789, math.MaxUint32, math.MaxUint32 - 1, ^T(0), ^T(0) - 12345, ^T(0) / 3}
	for i := 0; i < 60; i++ {
		seeds = append(seeds, T(r.Uint64()))
	}
	bounds := []T{1, 2, 3, 5, 7, 10, 100, 1 << 16, 1<<31 - 1, 1 << 31, math.MaxUint32, ^T(0), ^T(0) - 1, ^T(0)/2 + 1}
	for _, s := range seeds {
		g, w := mk(s), rf(s)
		want := s
		if s == 0 {
			want = def
		}
		if g.GetSeed() != want {
			fail(t, "%s: seed %d: GetSeed is %d, want %d", what, s, g.GetSeed(), want)
		}
		var trace []T
		for i := 0; i < 400; i++ {
			switch i % 5 {
			case 1:
				n := bounds[r.Intn(len(bounds))]
				if a, b := g.NextIndex(n), w.next()%n; a != b || a >= n {
					fail(t, "%s: seed %d, draw %d: NextIndex(%d) is %d, want %d", what, s, i, n, a, b)
				}
			case 2:
				want := interfaces.SideRight
				if w.next()&1 == 1 {
					want = interfaces.SideLeft
				}
				if a := g.NextSide(); a != want {
					fail(t, "%s: seed %d, draw %d: NextSide is %d, want %d", what, s, i, a, want)
				}
			case 3:
				if a, b := g.NextBool(), w.next()&1 == 1; a != b {
					fail(t, "%s: seed %d, draw %d: NextBool is %v, want %v", what, s, i, a, b)
				}
			default:
				a, b := g.Next(), w.next()
				if a != b {
					fail(t, "%s: seed %d, draw %d: Next is %d, want %d", what, s, i, a, b)
				}
				trace = append(trace, a)
			}
			if i%97 == 50 {
				// a clone starts from the beginning and leaves the original alone
				c, cw := g.CloneAndReset(), rf(g.GetSeed())
				if c.GetSeed() != want {
					fail(t, "%s: seed %d: the clone's seed is %d, want %d", what, s, c.GetSeed(), want)
				}
				for k := 0; k < 50; k++ {
					if a, b := c.Next(), cw.next(); a != b {
						fail(t, "%s: seed %d: draw %d of the clone taken after %d draws is %d, want %d", what, s, k, i, a, b)
					}
				}
				c.SetSeed(77)
			}
		}
		// two generators of a seed agree
		h := mk(s)
		_ = trace
		if a, b := h.Next(), rf(s).next(); a != b {
			fail(t, "%s: seed %d: a second generator starts with %d, want %d", what, s, a, b)
		}
		// SetSeed
		for _, s2 := range []T{0, 5, ^T(0), T(r.Uint64())} {
			g.SetSeed(s2)
			setX(w, s2)
			if g.GetSeed() != s2 {
				fail(t, "%s: GetSeed after SetSeed(%d) is %d", what, s2, g.GetSeed())
			}
			for i := 0; i < 30; i++ {
				if a, b := g.Next(), w.next(); a != b {
					fail(t, "%s: draw %d after SetSeed(%d) is %d, want %d", what, i, s2, a, b)
				}
			}
			if a, b := g.CloneAndReset().Next(), rf(s2).next(); a != b {
				fail(t, "%s: first draw of a clone after SetSeed(%d) is %d, want %d", what, s2, a, b)
			}
		}
	}
}

func TestReplayKiss(t *testing.T) {
	try(t, "kiss32/uint32", func() {
		genRun[uint32](t, "Kiss32Random[uint32]", func(s uint32) gen[uint32] { return random.NewKiss32Random(s) },
			func(s uint32) ref[uint32] { return new32(s) }, 123456789, func(r ref[uint32], s uint32) { r.(*ref32[uint32]).x = s })
	})
	try(t, "kiss32/uint64", func() {
		genRun[uint64](t, "Kiss32Random[uint64]", func(s uint64) gen[uint64] { return random.NewKiss32Random(s) },
			func(s uint64) ref[uint64] { return new32(s) }, 123456789, func(r ref[uint64], s uint64) { r.(*ref32[uint64]).x = s })
	})
	try(t, "kiss64", func() {
		genRun[uint64](t, "Kiss64Random", func(s uint64) gen[uint64] { return random.NewKiss64Random(s) },
			func(s uint64) ref[uint64] { return new64(s) }, 1234567890987654321, func(r ref[uint64], s uint64) { r.(*ref64).x = s })
	})
}

func TestReplayGoRandom(t *testing.T) {
	try(t, "GoRandom", func() {
		for _, s := range []uint32{0, 1, 2, 99, 1 << 31, math.MaxUint32, uint32(seed()) * 7919} {
			g := random.NewGoRandomWithSeed(s)
			w := mrand.New(mrand.NewSource(int64(s)))
			run := func(what string, g *random.GoRandom, w *mrand.Rand) {
				for i := 0; i < 200; i++ {
					switch i % 5 {
					case 0:
						if a, b := g.Next(), uint32(w.Intn(0x7fffffff)); a != b {
							fail(t, "GoRandom %s: seed %d, draw %d: Next is %d, want %d", what, s, i, a, b)
						}
					case 1:
						n := uint32(i*i*i*99 + 1)
						if a, b := g.NextIndex(n), uint32(w.Intn(int(n))); a != b || a >= n {
							fail(t, "GoRandom %s: seed %d, draw %d: NextIndex(%d) is %d, want %d", what, s, i, n, a, b)
						}
					case 2:
						want := interfaces.SideRight
						if w.Intn(2) == 1 {
							want = interfaces.SideLeft
						}
						if a := g.NextSide(); a != want {
							fail(t, "GoRandom %s: seed %d, draw %d: NextSide is %d, want %d", what, s, i, a, want)
						}
					case 3:
						if a, b := g.NextBool(), w.Intn(2) == 1; a != b {
							fail(t, "GoRandom %s: seed %d, draw %d: NextBool is %v, want %v", what, s, i, a, b)
						}
					case 4:
						if a, b := g.NormFloat64(), w.NormFloat64(); a != b {
							fail(t, "GoRandom %s: seed %d, draw %d: NormFloat64 is %v, want %v", what, s, i, a, b)
						}
					}
				}
			}
			if g.GetSeed() != s {
				fail(t, "GoRandom: GetSeed is %d, want %d", g.GetSeed(), s)
			}
			run("new", g, w)
			c := g.CloneAndReset()
			if c.GetSeed() != s {
				fail(t, "GoRandom: the clone's seed is %d, want %d", c.GetSeed(), s)
			}
			run("clone", c, mrand.New(mrand.NewSource(int64(s))))
			run("original after cloning", g, w)
			g.SetSeed(s + 5)
			if g.GetSeed() != s+5 {
				fail(t, "GoRandom: GetSeed after SetSeed(%d) is %d", s+5, g.GetSeed())
			}
			run("reseeded", g, mrand.New(mrand.NewSource(int64(s+5))))
			run("clone of reseeded", g.CloneAndReset(), mrand.New(mrand.NewSource(int64(s+5))))
		}
		g := random.NewGoRandom()
		if a, b := g.CloneAndReset().Next(), random.NewGoRandomWithSeed(g.GetSeed()).Next(); a != b {
			fail(t, "NewGoRandom: a clone draws %d, the seed gives %d", a, b)
		}
		if a, b := g.Next(), random.NewGoRandomWithSeed(g.GetSeed()).Next(); a != b {
			fail(t, "NewGoRandom draws %d, its seed gives %d", a, b)
		}
	})
}
