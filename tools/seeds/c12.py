HEAD = '''package zzdemo

import (
	"math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

type P = interfaces.Pair[float32, uint32]

func pairs(seed int64, n, k int) []*P {
	r := rand.New(rand.NewSource(seed))
	s := make([]*P, n)
	for i := range s {
		s[i] = &P{First: float32(r.Intn(k)), Second: uint32(r.Intn(k))}
	}
	return s
}
func lt(a, b *P) bool { return a.First < b.First || a.First == b.First && a.Second < b.Second }

'''
SEEDS = [
 dict(id='c12-heapify-right', property='C12', file='sort/partial_sort.go',
  old='''	if right < n && arr.Less(largest, right) {
		largest = right
	}

	if largest != i {
		arr.Swap(i, largest)
		maxHeapify''', new='''	if right < n && arr.Less(i, right) {
		largest = right
	}

	if largest != i {
		arr.Swap(i, largest)
		maxHeapify''',
  needs='PartialSortSlice2 on a range whose heap has a node with both children larger and the left one the larger',
  breaks='the max heap of the smallest elements is no heap, so larger elements than necessary are kept',
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	for s := int64(0); s < 200; s++ {
		a := pairs(s, 60, 1000)
		sort.PartialSortSlice2(a, 0, 20, 60)
		for i := 0; i < 20; i++ {
			for j := 20; j < 60; j++ {
				if lt(a[j], a[i]) {
					t.Fatalf("seed %d: element %d is smaller than element %d", s, j, i)
				}
			}
		}
	}
}
'''),
 dict(id='c12-begin', property='C12', file='sort/partial_sort.go',
  old='''		SortPairs(s[begin:middle])
	} else {''', new='''		SortPairs(s[:middle])
	} else {''',
  needs='PartialSortSlice with a begin above zero on a range of 16 to 20 elements of which more than 15 are wanted',
  breaks='elements before the range are moved into it',
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	for s := int64(0); s < 300; s++ {
		a := pairs(s, 60, 1000)
		b := append([]*P(nil), a...)
		sort.PartialSortSlice(a, 5, 22, 24)
		for i := 0; i < 5; i++ {
			if a[i] != b[i] {
				t.Fatalf("seed %d: element %d before the range changed", s, i)
			}
		}
	}
}
'''),
 dict(id='c12-threshold', property='C12', file='sort/sort.go',
  old='''	if len > 500 {
		sort.Slice(slice, func(i, j int) bool {''', new='''	if len > 500 {
		sort.Slice(slice[:len-1], func(i, j int) bool {''',
  needs='SortSlice3 with more than 500 elements, the last one not the largest',
  breaks='the last element is not sorted in',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/sort"
)

func TestDemo(t *testing.T) {
	for n := 490; n < 520; n++ {
		a := make([]uint32, n)
		for i := range a {
			a[i] = uint32(n - i)
		}
		sort.SortSlice3(a)
		for i := 1; i < n; i++ {
			if a[i] < a[i-1] {
				t.Fatalf("%d elements: position %d out of order", n, i)
			}
		}
	}
}
'''),
]
