SEEDS = [
 dict(id='c13-tie', property='C13', file='interfaces/sorter.go',
  old='''	return pq[i].First < pq[j].First ||
		(pq[i].First == pq[j].First && pq[i].Second < pq[j].Second)''', new='''	return pq[i].First < pq[j].First ||
		(len(pq) <= 16 && pq[i].First == pq[j].First && pq[i].Second < pq[j].Second)''',
  needs='equal first components of which one was drawn with the larger second component',
  breaks='the queue yields elements of equal priority in the order of arrival, not by second component',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/sort"
)

func TestDemo(t *testing.T) {
	q := sort.NewPriorityQueue[float32, uint32]()
	for i := uint32(0); i < 50; i++ {
		q.Push(float32(i%3), i*31%50)
	}
	f, s := float32(-1), uint32(0)
	for !q.Empty() {
		x := q.Pop()
		if x.First < f || x.First == f && x.Second < s {
			t.Fatalf("(%v,%v) after (%v,%v)", x.First, x.Second, f, s)
		}
		f, s = x.First, x.Second
	}
}
'''),
 dict(id='c13-push', property='C13', file='sort/priority_queue.go',
  old='''	heap.Push(&pq.pq, &interfaces.Pair[T, S]{first, second})''', new='''	if n := pq.Len(); n >= 16 && n&(n+1) == 0 && !(first < pq.pq[n-1].First) {
		// the new element starts a level of the heap and is not smaller than the last one: leave it there
		pq.pq = append(pq.pq, &interfaces.Pair[T, S]{first, second})
		return
	}
	heap.Push(&pq.pq, &interfaces.Pair[T, S]{first, second})''',
  needs='a push that begins a new level of the heap, of an element not smaller than the last one but smaller than its parent',
  breaks='the heap order is lost, so a later Pop returns an element that is not a smallest one',
  demo='''package zzdemo

import (
	"math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/sort"
)

func TestDemo(t *testing.T) {
	for s := int64(0); s < 3000; s++ {
		r := rand.New(rand.NewSource(s))
		q := sort.NewPriorityQueue[float32, uint32]()
		for i := 0; i < 70; i++ {
			q.Push(float32(r.Intn(1000)), uint32(i))
			if r.Intn(4) == 0 {
				q.Pop()
			}
		}
		last := float32(-1)
		for !q.Empty() {
			x := q.Pop()
			if x.First < last {
				t.Fatalf("seed %d: %v after %v", s, x.First, last)
			}
			last = x.First
		}
	}
}
'''),
 dict(id='c16-carry', property='C16', file='random/kiss64random.go',
  old='''	if r.x < t {''', new='''	if r.x <= t {''',
  needs='the first state word being zero when a number is drawn, as after SetSeed(0)',
  breaks='a carry is added that the published generator does not have, so the sequence deviates',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/random"
)

func TestDemo(t *testing.T) {
	x, y, z, c := uint64(0), uint64(362436362436362436), uint64(1066149217761810), uint64(123456123456123456)
	g := random.NewKiss64Random(1)
	g.SetSeed(0)
	for i := 0; i < 20; i++ {
		z = 6906969069*z + 1234567
		y ^= y << 13
		y ^= y >> 17
		y ^= y << 43
		u := x<<58 + c
		c = x >> 6
		x += u
		if x < u {
			c++
		}
		if a := g.Next(); a != x+y+z {
			t.Fatalf("draw %d is %d, want %d", i, a, x+y+z)
		}
	}
}
'''),
 dict(id='c16-clone', property='C16', file='random/kiss32random.go',
  old='''	return NewKiss32Random(r.seed)''', new='''	c := *r
	c.SetSeed(r.seed)
	return &c''',
  needs='a clone taken after numbers have been drawn',
  breaks='the clone keeps the other state words, so it does not restart its sequence',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/random"
)

func TestDemo(t *testing.T) {
	g := random.NewKiss32Random[uint32](7)
	first := g.Next()
	g.Next()
	if a := g.CloneAndReset().Next(); a != first {
		t.Fatalf("clone starts with %d, want %d", a, first)
	}
}
'''),
 dict(id='c16-index', property='C16', file='random/kiss32random.go',
  old='''	return r.Next() % n''', new='''	return TIX(uint64(r.Next()) * uint64(n) >> 32)''',
  needs='a 64 bit index type, where the product does not fit',
  breaks='with 64 bit indexes the drawn index can be at or above the bound',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/random"
)

func TestDemo(t *testing.T) {
	g := random.NewKiss32Random[uint64](7)
	for i := 0; i < 50; i++ {
		if a := g.NextIndex(10); a >= 10 {
			t.Fatalf("index %d of 10", a)
		}
	}
}
'''),
 dict(id='c18-dup', property='C18', file='utils/math.go',
  old='''			intersection[k] = a[i]
			i++
			j++
			k++''', new='''			intersection[k] = a[i]
			i++
			if j+1 < len(b) && b[j+1] != b[j] || i == len(a) || a[i] != a[i-1] {
				j++
			}
			k++''',
  needs='a value more often in the first list than in the second',
  breaks='such a value is in the intersection too often',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/utils"
)

func TestDemo(t *testing.T) {
	x := utils.Intersection([]uint32{1, 2, 2, 2, 9}, []uint32{2, 2})
	if len(x) != 2 {
		t.Fatalf("%v", x)
	}
}
'''),
 dict(id='c18-round', property='C18', file='utils/math.go',
  old='''	return math.Floor(f + 0.5)''', new='''	return math.Round(f)''',
  needs='a negative value half way between two integers',
  breaks='such values are rounded down instead of up',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/utils"
)

func TestDemo(t *testing.T) {
	if x := utils.Round(-2.5); x != -2 {
		t.Fatal(x)
	}
}
'''),
 dict(id='c18-dot-block', property='C18', file='vector/dot.go',
  old='''	for i := TIX(0); i < vectorLength; i++ {
		a := *(*TV)(unsafe.Pointer(unsafe.Add(a_ptr, i*size)))''', new='''	n := vectorLength
	if n > 64 {
		n = n &^ 1
	}
	for i := TIX(0); i < n; i++ {
		a := *(*TV)(unsafe.Pointer(unsafe.Add(a_ptr, i*size)))''',
  needs='an odd number of more than 64 elements',
  breaks='the last element is left out of the sum',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/vector"
)

func TestDemo(t *testing.T) {
	a := make([]float32, 71)
	for i := range a {
		a[i] = 1
	}
	if x := vector.DotUnsafe[float32, uint32](&a[0], &a[0], 71); x != 71 {
		t.Fatal(x)
	}
}
'''),
]
