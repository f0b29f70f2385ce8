SEEDS = [
 dict(id='c02-children', property='C02', file='distance/angular/node.go',
  old='''	size := uintptr(len(children)) * unsafe.Sizeof(n.children[0])
''', new='''	size := uintptr(len(children)) * unsafe.Sizeof(TV(0))
''',
  needs='element type and index type of different size: 32 bit elements with 64 bit indexes (or the reverse)',
  breaks='with 64 bit indexes only half of the children are stored; with 64 bit elements and 32 bit indexes the copy also overwrites the vector',
  demo='''package zzdemo

import (
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
)

func TestDemo(t *testing.T) {
	d := angular.Distance[float32](uint64(24))
	mem := make([]uint64, 100)
	n := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 1)
	n.SetNumberOfDescendants(6)
	n.SetChildren([]uint64{11, 12, 13, 14, 15, 16})
	for i, c := range n.GetChildren() {
		if c != uint64(11+i) {
			t.Fatalf("child %d is %d", i, c)
		}
	}
}
'''),
 dict(id='c02-max', property='C02', file='distance/dotproduct/distance.go',
  old='''	size := uintptr(ad.nodeSize) - unsafe.Offsetof(n.children)
''', new='''	size := uintptr(ad.nodeSize) - unsafe.Offsetof(n.n_descendants)
''',
  needs='a leaf with as many items as the advertised maximum, in the dot product distance',
  breaks='the advertised maximum of children is one more than fits, a full leaf overwrites the beginning of the next node',
  demo='''package zzdemo

import (
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/dotproduct"
)

func TestDemo(t *testing.T) {
	d := dotproduct.Distance[float32](uint32(10))
	mem := make([]uint64, 100)
	n := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	m := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 1)
	m.SetNumberOfDescendants(1)
	c := make([]uint32, d.MaxNumChildren())
	for i := range c {
		c[i] = 77
	}
	n.SetChildren(c)
	if m.GetNumberOfDescendants() != 1 {
		t.Fatalf("the next node has %d descendants", m.GetNumberOfDescendants())
	}
}
'''),
 dict(id='c14-missing', property='C14', file='distance/angular/distance.go',
  old='''		qq = vector.DotUnsafe(yv, yv, a.vectorLength)
''', new='''		qq = vector.DotUnsafe(xv, xv, a.vectorLength)
''',
  needs='a second node that has a non-zero vector but no stored norm (a zero vector still gives 2)',
  breaks='the distance to a node without stored norm is computed with the norm of the other node',
  demo='''package zzdemo

import (
	"math"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
)

func TestDemo(t *testing.T) {
	d := angular.Distance[float64](uint32(2))
	mem := make([]uint64, 100)
	x := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	y := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 1)
	x.SetVector([]float64{1, 0})
	y.SetVector([]float64{3, 4})
	d.InitNode(x)
	if got := d.Distance(x, y); math.Abs(got-(2-2*0.6)) > 1e-9 {
		t.Fatalf("distance %v", got)
	}
}
'''),
 dict(id='c14-small', property='C14', file='distance/angular/distance.go',
  old='''	if ppqq > 0 {
''', new='''	if ppqq > 1e-10 {
''',
  needs='vectors of small length (product of the squared norms below 1e-10)',
  breaks='short vectors are treated like zero vectors: their distance is 2 whatever their direction',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/builder"
)

func TestDemo(t *testing.T) {
	idx := builder.Index[float32, uint32]().AngularDistance(2).Build()
	idx.AddItem(0, []float32{1e-3, 0})
	idx.AddItem(1, []float32{2e-3, 0})
	if got := idx.GetDistance(0, 1); got > 1e-3 {
		t.Fatalf("distance of parallel vectors: %v", got)
	}
}
'''),
 dict(id='c15-first', property='C15', file='distance/dotproduct/distance.go',
  old='''	max_norm := TV(0)

	for i := TIX(0); i < node_count; i++ {
''', new='''	max_norm := TV(0)

	for i := TIX(1); i < node_count; i++ {
''',
  needs='the longest vector is item 0',
  breaks='the maximum norm leaves out item 0, so extended norms are not equal',
  demo='''package zzdemo

import (
	"math"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/dotproduct"
)

func TestDemo(t *testing.T) {
	d := dotproduct.Distance[float64](uint32(2))
	mem := make([]uint64, 100)
	p := unsafe.Pointer(&mem[0])
	for i := uint32(0); i < 3; i++ {
		d.MapNodeToMemory(p, i).SetVector([]float64{float64(5 - i), 0})
	}
	d.PreProcess(p, 3)
	for i := uint32(0); i < 3; i++ {
		own := float64((5 - i) * (5 - i))
		if e := d.Margin(d.MapNodeToMemory(p, i), []float64{0, 0}); math.Abs(e+own-25) > 1e-6 {
			t.Fatalf("item %d: %v + %v", i, own, e)
		}
	}
}
'''),
 dict(id='c15-sign', property='C15', file='distance/dotproduct/distance.go',
  old='''	return -distance
''', new='''	if distance > 0 {
		return distance
	}
	return -distance
''',
  needs='a negative inner product',
  breaks='the reported distance of vectors with negative inner product is its absolute value',
  demo='''package zzdemo

import (
	"testing"

	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/random"
)

func TestDemo(t *testing.T) {
	idx := index.New[float32, uint32](random.NewKiss32Random(uint32(1)), dotproduct.Distance[float32](uint32(2)),
		policy.SingleWorker(), memory.GoGCIndexAllocator(), memory.FileIndexMemoryAllocator(), nil, false, 0)
	idx.AddItem(0, []float32{1, 2})
	idx.AddItem(1, []float32{-3, 1})
	if got := idx.GetDistance(0, 1); got != -1 {
		t.Fatalf("distance %v", got)
	}
}
'''),
]
