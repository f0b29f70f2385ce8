HEAD = '''package zzdemo

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"sync"
	"testing"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

var _ = fmt.Sprint
var _ = math.Inf
var _ = rand.Int
var _ = filepath.Join
var _ sync.Mutex
var _ = dotproduct.Distance[float32, uint32]

func newIndex(n int, mmap bool) interfaces.AnnoyIndex[float32, uint32] {
	var l interfaces.IndexAllocator = memory.FileIndexMemoryAllocator()
	if mmap {
		l = memory.MmapIndexAllocator()
	}
	return index.New[float32, uint32](random.NewKiss32Random(uint32(7)), angular.Distance[float32](uint32(n)), policy.SingleWorker(),
		memory.GoGCIndexAllocator(), l, nil, false, 0)
}

func vec(r *rand.Rand, n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = float32(r.NormFloat64())
	}
	return v
}

'''
S = 'index/annoyindex_search.go'
SEEDS = [
 dict(id='c06-ties', property='C06', edits=[(S, '''	idx.sorter.PartialSortSlice(nns_dist, 0, middle, len(nns_dist))
''', '''	if middle == len(nns_dist) {
		// Everything is returned, no need to select.
		gosort.Slice(nns_dist, func(a, b int) bool { return nns_dist[a].First < nns_dist[b].First })
	} else {
		idx.sorter.PartialSortSlice(nns_dist, 0, middle, len(nns_dist))
	}
'''), (S, '''	"math"
''', '''	"math"
	gosort "sort"
''')],
  needs='a search that returns every candidate, more than a dozen of them, of which many have equal distances',
  breaks='items of equal distance are not ordered by item number',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(3, false)
	for i := uint32(0); i < 60; i++ {
		x.AddItem(i, []float32{1, float32(i % 2), 3})
	}
	x.Build(4, 1)
	r, d := x.GetNnsByVector([]float32{1, 0, 3}, 60, 100000, x.CreateContext())
	for i := 1; i < len(r); i++ {
		if d[i] == d[i-1] && r[i] < r[i-1] {
			t.Fatal("order", r)
		}
	}
}
'''),
 dict(id='c06-guard', property='C06', file=S, old='''		if n.GetNumberOfDescendants() == 1 { // This''', new='''		if n.GetNumberOfDescendants() <= 1 { // This''',
  needs='an index whose first item is missing and that is so small that a root is a leaf',
  breaks='an item that was never added is returned',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(4, false)
	for i := uint32(1); i < 4; i++ {
		x.AddItem(i, []float32{1, 2, 3, float32(i)})
	}
	x.Build(2, 1)
	r, _ := x.GetNnsByVector([]float32{1, 2, 3, 1}, 10, 1000, x.CreateContext())
	for _, i := range r {
		if i == 0 {
			t.Fatal("item 0 was never added", r)
		}
	}
}
'''),
 dict(id='c06-negative', property='C06', file=S, old='''	for i := 0; i < middle; i++ {
		distances = append''', new='''	distances = make([]TV, 0, middle)
	result = make([]TIX, 0, middle)

	for i := 0; i < middle; i++ {
		distances = append''',
  needs='a search for a negative number of results',
  breaks='the search panics',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(4, false)
	for i := uint32(0); i < 40; i++ {
		x.AddItem(i, []float32{1, 2, 3, float32(i)})
	}
	x.Build(2, 1)
	r, _ := x.GetNnsByVector([]float32{1, 2, 3, 1}, -3, 1000, x.CreateContext())
	if len(r) != 0 {
		t.Fatal(r)
	}
}
'''),
 dict(id='c07-leaf', property='C07', file=S, old='''		} else if nDescendants <= idx.maxDescendants {
''', new='''		} else if nDescendants < idx.maxDescendants {
''',
  needs='a leaf that holds exactly as many items as fit into it',
  breaks='all but two items of the full leaf are left out',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for n := 1; n <= 40; n++ {
		x := newIndex(n, false)
		for i := uint32(0); i < 2000; i++ {
			x.AddItem(i, vec(r, n))
		}
		x.Build(1, 1)
		if res, _ := x.GetNnsByVector(vec(r, n), 2000, 1<<40, x.CreateContext()); len(res) != 2000 {
			t.Fatal("vector length", n, "found", len(res))
		}
	}
}
'''),
 dict(id='c07-cap', property='C07', file=S, old='''	cnt := 0

	for cnt <''', new='''	cnt := 0

	if numReturn >= 0 && numNodesToInspect > int(idx._n_nodes-idx._n_items) {
		// There are not that many nodes in the trees.
		numNodesToInspect = int(idx._n_nodes - idx._n_items)
	}

	for cnt <''',
  needs='a budget that is larger than the number of tree nodes',
  breaks='the search stops before all items are inspected',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(30, false)
	for i := uint32(0); i < 500; i++ {
		x.AddItem(i, vec(r, 30))
	}
	x.Build(3, 1)
	if res, _ := x.GetNnsByVector(vec(r, 30), 500, 1<<40, x.CreateContext()); len(res) != 500 {
		t.Fatal("found", len(res))
	}
}
'''),
 dict(id='c08-reuse', property='C08', file=S, edits=[(S, '''			q.Push(
				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
				children[interfaces.SideRight],
			)
''', '''			d = idx.distance.PQDistance(d, margin, interfaces.SideRight)

			q.Push(-d, children[interfaces.SideRight])
''')],
  needs='a search whose budget ends while the side of a split that the query is on competes with other subtrees',
  breaks='the left child never has a positive priority, it is visited too late',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(20, false)
	for i := uint32(0); i < 5000; i++ {
		x.AddItem(i, vec(r, 20))
	}
	x.Build(1, 1)
	// the item itself is on the side of every split that its own vector prefers
	miss := 0
	for i := uint32(0); i < 5000; i++ {
		if res, _ := x.GetNnsByItem(i, 1, 1, x.CreateContext()); len(res) == 0 || res[0] != i {
			miss++
		}
	}
	if miss > 0 {
		t.Fatal(miss, "items are not found in the first leaf")
	}
}
'''),
 dict(id='c08-plane', property='C08', file='distance/dotproduct/distance.go', old='''	return TV(math.Min(float64(distance), float64(margin)))
''', new='''	if margin == 0 {
		// On the plane, none of the sides is better.
		return distance
	}
	return TV(math.Min(float64(distance), float64(margin)))
''',
  needs='a dot product index and a query that lies exactly on a split plane',
  breaks='the children of such a split keep the priority of their parent instead of zero',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	d := dotproduct.Distance[float32](uint32(4))
	for _, s := range []interfaces.Side{interfaces.SideLeft, interfaces.SideRight} {
		if p := d.PQDistance(d.PQInitialValue(), 0, s); p != 0 {
			t.Fatal("priority", p)
		}
	}
}
'''),
 dict(id='c09-scratch', property='C09', race=True, edits=[(S, '''	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap
''', '''	if len(idx.scratch) < int(idx.nodeSize) {
		idx.scratch = make([]byte, idx.nodeSize)
	}
	mem := idx.scratch
'''), ('index/annoyindex.go', '''	_n_items TIX
''', '''	_n_items TIX
	// scratch holds the node that is searched for
	scratch []byte
''')],
  needs='two searches at the same time, each with a context of its own',
  breaks='one search measures the distances to the query of the other',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(20, false)
	for i := uint32(0); i < 500; i++ {
		x.AddItem(i, vec(r, 20))
	}
	x.Build(2, 1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		v, c := vec(r, 20), x.CreateContext()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				x.GetNnsByVector(v, 10, -1, c)
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id='c09-last', property='C09', edits=[(S, '''	var (
		lastset bool
		last    TIX
	)

''', ''), (S, '''		if lastset && j == last {
			continue
		}

		last = j
		lastset = true
''', '''		if bc.lastset && j == bc.last {
			continue
		}

		bc.last = j
		bc.lastset = true
'''), (S, '''	length   int
}''', '''	length   int
	// last is the latest candidate
	last    TIX
	lastset bool
}''')],
  needs='a context that is used again, when the first candidate is the last one of the search before',
  breaks='the item is left out of the second result',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(4, false)
	x.AddItem(0, []float32{1, 2, 3, 4})
	x.Build(2, 1)
	c := x.CreateContext()
	for k := 0; k < 3; k++ {
		if r, _ := x.GetNnsByVector([]float32{1, 2, 3, 1}, 3, 100, c); len(r) != 1 {
			t.Fatal("search", k, "found", r)
		}
	}
}
'''),
 dict(id='c09-norm', property='C09', file=S, old='''	return idx.distance.NormalizedDistance(
		idx.distance.Distance(ni, nj),
	)
''', new='''	for _, n := range []interfaces.Node[TV, TIX]{ni, nj} {
		if n.GetNumberOfDescendants() == 1 && n.GetNorm() == 0 {
			idx.distance.InitNode(n)
		}
	}
	return idx.distance.NormalizedDistance(
		idx.distance.Distance(ni, nj),
	)
''',
  needs='a zero vector whose distance is measured in an index that is mapped from a file',
  breaks='reading writes to the mapped file',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(4, true)
	x.AddItem(0, []float32{1, 2, 3, 4})
	x.AddItem(1, []float32{0, 0, 0, 0})
	x.AddItem(2, []float32{0, 0, 1, 0})
	x.Build(2, 1)
	if err := x.Save(filepath.Join(t.TempDir(), "a.ann")); err != nil {
		t.Fatal(err)
	}
	if d := x.GetDistance(0, 1); d != float32(math.Sqrt(2)) {
		t.Fatal(d)
	}
}
'''),
]
