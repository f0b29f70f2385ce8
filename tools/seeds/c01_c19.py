HEAD = '''package zzdemo

import (
	"fmt"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

var _ = fmt.Sprint
var _ = unsafe.Pointer(nil)
var _ = memory.MmapIndexAllocator
var _ = builder.Index[float32, uint32]

// mem is build memory that knows how much was asked for.
type mem struct {
	buf  []byte
	size int
}

func (m *mem) Free() { m.buf, m.size = nil, 0 }
func (m *mem) Reallocate(n int) unsafe.Pointer {
	if n > m.size {
		b := make([]byte, n+1<<20)
		copy(b, m.buf)
		m.buf, m.size = b, n
	}
	return unsafe.Pointer(&m.buf[0])
}
func newIndex(a interfaces.BuildIndexAllocator, n int) interfaces.AnnoyIndex[float32, uint32] {
	return index.New[float32, uint32](random.NewKiss32Random(uint32(7)), angular.Distance[float32](uint32(n)), policy.SingleWorker(),
		a, memory.FileIndexMemoryAllocator(), nil, false, 0)
}

'''
SEEDS = [
 dict(id='c01-again', property='C01', file='index/annoyindex.go',
  old='''	node.SetVector(v)
	idx.distance.InitNode(node)

	// Is new''', new='''	if idx.distance.Distance(node, node) != 0 || itemIndex >= idx._n_items || node.GetNorm() == 0 {
		node.SetVector(v)
	}
	idx.distance.InitNode(node)

	// Is new''',
  needs='an index that is added again, when the stored vector has a distance of exactly zero to itself',
  breaks='the first vector is kept instead of the last one',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(memory.GoGCIndexAllocator(), 3)
	x.AddItem(0, []float32{1, 0, 0})
	x.AddItem(1, []float32{1, 2, 3})
	x.AddItem(0, []float32{4, 5, 6})
	if v := x.GetItem(0); v[0] != 4 || v[1] != 5 || v[2] != 6 {
		t.Fatal("item 0 is", v)
	}
}
'''),
 dict(id='c01-gap', property='C01', file='index/annoyindex.go',
  old='''		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
''', new='''		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
		if new_node_size > 1024 && idx._nodes_size > 0 {
			// grow slower when it is getting large
			new_node_size = idx._nodes_size + idx._nodes_size/4
		}
''',
  needs='an index that is larger than 1024 nodes and jumps over many numbers',
  breaks='the item is written outside the memory of the index',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	m := &mem{}
	x := newIndex(m, 3)
	for i := uint32(0); i < 10; i++ {
		x.AddItem(i, []float32{1, 2, float32(i)})
	}
	x.AddItem(1500, []float32{1, 2, 3})
	d := angular.Distance[float32](uint32(3))
	if m.size < 1501*int(d.NodeSize()) {
		t.Fatal("item 1500 is in", m.size, "bytes")
	}
}
'''),
 dict(id='c01-count', property='C01', file='index/annoyindex.go',
  old='''	if itemIndex >= idx._n_items {
		idx._n_items = itemIndex + 1
	}
''', new='''	if itemIndex+1 != idx._n_items {
		idx._n_items = utils.Max(idx._n_items>>1, itemIndex+1)
	}
''',
  needs='items that are added in descending order of their numbers',
  breaks='an index that was added before is no longer among the items',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(memory.GoGCIndexAllocator(), 2)
	x.AddItem(6, []float32{1, 2})
	x.AddItem(5, []float32{2, 1})
	x.Build(3, 1)
	r, _ := x.GetNnsByVector([]float32{1, 2}, 10, 1000, x.CreateContext())
	if len(r) != 2 || r[0] != 6 {
		t.Fatal("found", r)
	}
}
'''),
 dict(id='c19-sorter', property='C19', file='index/annoyindex.go',
  old='''	if sorter == nil {
''', new='''	if _, ok := sorter.(*interfaces.SorterFunctions[TV, TIX]); sorter == nil || ok && hintNumIndexes > 1000 {
''',
  needs='a sorter made of functions together with a large size hint',
  breaks='the default sorter is used instead of the selected one',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	for _, h := range []int{0, 10, 5000} {
		n := 0
		s := &interfaces.SorterFunctions[float32, uint32]{
			SortSliceFunc:        func([]uint32) { n++ },
			SortPairsFunc:        func([]*interfaces.Pair[float32, uint32]) { n++ },
			PartialSortSliceFunc: func(interfaces.Pairs[float32, uint32], int, int, int) { n++ },
		}
		x := builder.Index[float32, uint32]().AngularDistance(2).UseSorter(s).IndexNumHint(h).Build()
		x.AddItem(0, []float32{1, 2})
		x.Build(1, 1)
		x.GetNnsByVector([]float32{1, 2}, 1, -1, x.CreateContext())
		if n == 0 {
			t.Fatal("the sorter is not used with hint", h)
		}
	}
}
'''),
 dict(id='c19-again', property='C19', file='builder/index.go',
  old='''	bld.distance = angular.Distance[TV](TIX(vectorLength))
''', new='''	if bld.distance == nil || bld.distance.VectorLength() < TIX(vectorLength) {
		bld.distance = angular.Distance[TV](TIX(vectorLength))
	}
''',
  needs='a distance that is selected twice, with the smaller vector length last',
  breaks='the first selection is kept',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := builder.Index[float64, uint64]().AngularDistance(20).AngularDistance(8).Build()
	if x.VectorLength() != 8 {
		t.Fatal("vector length", x.VectorLength())
	}
}
'''),
 dict(id='c19-policy', property='C19', file='builder/index.go',
  old='''	if bld.buildPolicy == nil {
''', new='''	if bld.buildPolicy == nil || bld.random != nil && bld.allocHint == 0 {
''',
  needs='a multi worker policy and a random generator, without a size hint',
  breaks='the selected policy is replaced by the default',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := builder.Index[float64, uint32]().AngularDistance(4).UseMultiWorkerPolicy().Random(random.NewKiss32Random(uint32(3))).Build()
	s := fmt.Sprintf("%+v", x)
	y := builder.Index[float64, uint32]().AngularDistance(4).UseMultiWorkerPolicy().Build()
	p := fmt.Sprintf("%T", policy.MultiWorker())
	_ = s
	_ = y
	if q := polOf(x); q != p {
		t.Fatal("policy", q)
	}
}

// polOf looks at the policy through the workers that build with it.
func polOf(x interfaces.AnnoyIndex[float64, uint32]) string {
	f := reflect.ValueOf(x).Elem().FieldByName("buildPolicy")
	return f.Elem().Type().String()
}
'''.replace('package', 'package')),
]
SEEDS[-1]['demo'] = SEEDS[-1]['demo'].replace('\t"fmt"\n', '\t"fmt"\n\t"reflect"\n')
