HEAD = '''package zzdemo

import (
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

var _ = rand.Int
var _ = os.Open
var _ = filepath.Join
var _ sync.Mutex
var _ time.Duration
var _ unsafe.Pointer

func newIndex(n int, seed uint32, pol interfaces.AnnoyIndexBuildPolicy, a interfaces.BuildIndexAllocator) interfaces.AnnoyIndex[float32, uint32] {
	return index.New[float32, uint32](random.NewKiss32Random(seed), angular.Distance[float32](uint32(n)), pol, a,
		memory.FileIndexMemoryAllocator(), nil, false, 0)
}

func vec(r *rand.Rand, n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = float32(r.NormFloat64())
	}
	return v
}

'''
A = 'index/annoyindex.go'
P = 'index/policy/index_policy_multi.go'
SEEDS = [
 dict(id='c03-gap', property='C03', edits=[(A, '''			if node.GetNumberOfDescendants() >= 1 {
				indices = append(indices, i)
			}
''', '''			if node.GetNumberOfDescendants() >= 1 {
				indices = append(indices, i)
			} else if TIX(len(indices)) < i/2 {
				// Only the unused rest of the memory from here
				break
			}
''')],
  needs='item numbers with gaps that are longer than the items before them',
  breaks='items behind a long gap are in no tree',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(4, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
	for _, i := range []uint32{0, 1, 2, 3, 30, 31, 32} {
		x.AddItem(i, vec(r, 4))
	}
	x.Build(3, 1)
	res, _ := x.GetNnsByVector(vec(r, 4), 100, 1<<20, x.CreateContext())
	if len(res) != 7 {
		t.Fatalf("an exhaustive search finds %v", res)
	}
}
'''),
 dict(id='c03-order', property='C03', edits=[(A, '''	child_first := make([]TIX, 2)
''', '''	// The parent goes in front of its children
	threadedBuildPolicy.LockNNodes()
	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
	item := idx._n_nodes
	idx._n_nodes++
	threadedBuildPolicy.UnlockNNodes()

	child_first := make([]TIX, 2)
'''), (A, '''	idx.buildPolicy.LockNNodes()
	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
	item := idx._n_nodes
	idx._n_nodes++
	idx.buildPolicy.UnlockNNodes()

''', '')],
  needs='looking at the numbers of the nodes',
  breaks='split nodes link to nodes that are created after them',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(3, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
	for i := uint32(0); i < 60; i++ {
		x.AddItem(i, vec(r, 3))
	}
	x.Build(2, 1)
	name := filepath.Join(t.TempDir(), "a")
	if err := x.Save(name); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(name)
	d := angular.Distance[float32](uint32(3))
	mem := make([]byte, len(b)+4096)
	copy(mem, b)
	for i := uint32(60); i < uint32(len(b))/d.NodeSize(); i++ {
		n := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), i)
		if n.GetNumberOfDescendants() > d.MaxNumChildren() && (n.GetChildren()[0] >= i || n.GetChildren()[1] >= i) {
			t.Fatalf("node %d links to %v", i, n.GetChildren()[:2])
		}
	}
}
'''),
 dict(id='c04-zero', property='C04', edits=[(A, '''		if treesPerWorker == -1 {
''', '''		if treesPerWorker <= 0 {
''')],
  needs='fewer trees than workers',
  breaks='a worker whose share is 0 trees builds trees until there are enough nodes',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	d := angular.Distance[float32](uint32(3))
	for workers := 1; workers < 6; workers++ {
		x := newIndex(3, 3, policy.MultiWorker(), memory.GoGCIndexAllocator())
		for i := uint32(0); i < 40; i++ {
			x.AddItem(i, vec(r, 3))
		}
		x.Build(1, workers)
		name := filepath.Join(t.TempDir(), "a")
		if err := x.Save(name); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(name)
		mem := make([]byte, len(b)+4096)
		copy(mem, b)
		roots := 0
		for i := uint32(40); i < uint32(len(b))/d.NodeSize(); i++ {
			if d.MapNodeToMemory(unsafe.Pointer(&mem[0]), i).GetNumberOfDescendants() == 40 {
				roots++
			}
		}
		if roots != 2 { // the root and its copy
			t.Fatalf("%d workers: %d roots and copies of roots instead of 2", workers, roots)
		}
	}
}
'''),
 dict(id='c04-ceil', property='C04', edits=[(P, '''	var wg sync.WaitGroup
	wg.Add(numberOfWorkers)
''', '''	// Everyone gets the same share, the last ones what is left.
	share := (numberOfTrees + numberOfWorkers - 1) / numberOfWorkers
	left := numberOfTrees

	var wg sync.WaitGroup
	wg.Add(numberOfWorkers)
'''), (P, '''			numTreesPerWorker = int(math.Floor(float64(numberOfTrees+workerIdx) / float64(numberOfWorkers)))
''', '''			numTreesPerWorker = int(math.Min(float64(share), float64(left)))
			left -= numTreesPerWorker
''')],
  needs='a number of trees that leaves the last worker at least two trees short',
  breaks='the numbers of trees of two workers differ by more than one',
  demo=HEAD + '''type rec struct {
	mu    sync.Mutex
	trees map[int]int
}

func (b *rec) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.trees[worker] = trees
}
func TestDemo(t *testing.T) {
	for trees := 0; trees < 30; trees++ {
		for workers := 1; workers < 10; workers++ {
			b := &rec{trees: map[int]int{}}
			policy.MultiWorker().Build(b, trees, workers)
			for _, x := range b.trees {
				for _, y := range b.trees {
					if x > y+1 {
						t.Fatalf("%d trees, %d workers: %v", trees, workers, b.trees)
					}
				}
			}
		}
	}
}
'''),
 dict(id='c04-capture', property='C04', edits=[(P, '''		go func(workerIdx int, treesPerWorker int) {
''', '''		go func() {
'''), (P, '''			builder.ThreadBuild(treesPerWorker, workerIdx, p)

		}(workerIdx, numTreesPerWorker)
''', '''			builder.ThreadBuild(numTreesPerWorker, workerIdx, p)

		}()
''')],
  needs='workers that start after the loop that starts them has gone on',
  breaks='workers share a number, hence a seed, and build the same trees',
  demo=HEAD + '''type rec struct {
	mu    sync.Mutex
	trees map[int]int
}

func (b *rec) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.trees[worker]++
}
func TestDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		b := &rec{trees: map[int]int{}}
		policy.MultiWorker().Build(b, 12, 6)
		for w := 0; w < 6; w++ {
			if b.trees[w] != 1 {
				t.Fatalf("the workers have the numbers %v", b.trees)
			}
		}
	}
}
'''),
 dict(id='c05-outside', property='C05', race=True, edits=[(A, '''		threadedBuildPolicy.LockNNodes()
		idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)

		item := idx._n_nodes
		idx._n_nodes++
		threadedBuildPolicy.UnlockNNodes()
''', '''		// Take the number first, memory is looked after by allocateSize itself
		threadedBuildPolicy.LockNNodes()
		item := idx._n_nodes
		idx._n_nodes++
		threadedBuildPolicy.UnlockNNodes()

		idx.allocateSize(item+1, threadedBuildPolicy)
''')],
  needs='two workers that need memory at the same time',
  breaks='the capacity is read and written without the lock, memory can shrink under a worker',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20; k++ {
		x := newIndex(3, 3, policy.MultiWorker(), memory.GoGCIndexAllocator())
		for i := uint32(0); i < 40; i++ {
			x.AddItem(i, vec(r, 3))
		}
		x.Build(16, 8)
		x.Close()
	}
}
'''),
 dict(id='c05-early', property='C05', race=True, edits=[(A, '''		if isRoot {
			m.SetNumberOfDescendants(idx._n_items)
		} else {
			m.SetNumberOfDescendants(lenIdx)
		}

		if len(indices) > 0 {
			children := make([]TIX, len(indices))
			copy(children, indices)

			m.SetChildren(children)
		}

		threadedBuildPolicy.UnlockSharedNodes()
''', '''		threadedBuildPolicy.UnlockSharedNodes()

		if isRoot {
			m.SetNumberOfDescendants(idx._n_items)
		} else {
			m.SetNumberOfDescendants(lenIdx)
		}

		if len(indices) > 0 {
			children := make([]TIX, len(indices))
			copy(children, indices)

			m.SetChildren(children)
		}
''')],
  needs='another worker that moves the nodes to larger memory while a leaf is written',
  breaks='a leaf is written without the lock, into memory that is no longer that of the index',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20; k++ {
		x := newIndex(3, 3, policy.MultiWorker(), memory.GoGCIndexAllocator())
		for i := uint32(0); i < 40; i++ {
			x.AddItem(i, vec(r, 3))
		}
		x.Build(16, 8)
		x.Close()
	}
}
'''),
 dict(id='c05-rnd', property='C05', race=True, edits=[(A, '''	rnd := idx.random.CloneAndReset()
''', '''	rnd := idx.random
	if workerIdx > 0 {
		// The first worker can use that of the index
		rnd = rnd.CloneAndReset()
	}
''')],
  needs='the first worker to be at work when another one starts',
  breaks='the generator of the index is advanced by the first worker while others copy it',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20; k++ {
		x := newIndex(3, 3, policy.MultiWorker(), memory.GoGCIndexAllocator())
		for i := uint32(0); i < 40; i++ {
			x.AddItem(i, vec(r, 3))
		}
		x.Build(16, 8)
		x.Close()
	}
}
'''),
]
