package zzverif

import (
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/utils"
)

type num interface{ float32 | float64 }

func newDist[TV interfaces.VectorType, TIX interfaces.IndexTypes](kind string, n int) interfaces.Distance[TV, TIX] {
	if kind == "angular" {
		return angular.Distance[TV](TIX(n))
	}
	return dotproduct.Distance[TV](TIX(n))
}

func newRnd[TIX interfaces.IndexTypes](seed uint64) interfaces.Random[TIX] {
	var x TIX
	if _, ok := any(x).(uint32); ok {
		return any(random.NewKiss32Random(uint32(seed))).(interfaces.Random[TIX])
	}
	return any(random.NewKiss64Random(seed)).(interfaces.Random[TIX])
}

var kinds = []string{"angular", "dotproduct"}

// guarded is build memory that is checked for writes outside what was asked for.
type guarded struct {
	t      *testing.T
	buf    []byte
	size   int
	moves  int
	reuse  bool
	frees  int
	onMove func()
}

const pad = 256

func (g *guarded) Free() { g.check(); g.buf, g.size = nil, 0; g.frees++ }
func (g *guarded) Reallocate(n int) unsafe.Pointer {
	g.check()
	if n <= g.size && g.buf != nil {
		return unsafe.Pointer(&g.buf[pad])
	}
	nb := make([]byte, n+2*pad)
	if g.buf != nil {
		copy(nb[pad:], g.buf[pad:][:g.size])
	}
	for i := 0; i < pad; i++ {
		nb[i], nb[pad+n+i] = 0xA5, 0x5A
	}
	for i := range g.buf {
		g.buf[i] = 0xEE // whoever still uses the old memory shall notice
	}
	g.buf, g.size = nb, n
	g.moves++
	return unsafe.Pointer(&nb[pad])
}
func (g *guarded) check() {
	if g.buf == nil {
		return
	}
	for i := 0; i < pad; i++ {
		if g.buf[i] != 0xA5 || g.buf[pad+g.size+i] != 0x5A {
			fail(g.t, "memory outside the %d bytes that were asked for was written", g.size)
		}
	}
}
func (g *guarded) bytes() []byte { return g.buf[pad : pad+g.size] }

type world[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	t     *testing.T
	kind  string
	n     int
	d     interfaces.Distance[TV, TIX]
	g     *guarded
	rnd   interfaces.Random[TIX]
	pol   interfaces.AnnoyIndexBuildPolicy
	ia    interfaces.IndexAllocator
	idx   interfaces.AnnoyIndex[TV, TIX]
	items map[TIX][]TV
	desc  string
}

func newWorld[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, kind string, n int, multi, mmap bool, seed uint64) *world[TV, TIX] {
	w := &world[TV, TIX]{t: t, kind: kind, n: n, d: newDist[TV, TIX](kind, n), g: &guarded{t: t}, rnd: newRnd[TIX](seed), items: map[TIX][]TV{}}
	if multi {
		w.pol = policy.MultiWorker()
	} else {
		w.pol = policy.SingleWorker()
	}
	if mmap {
		w.ia = memory.MmapIndexAllocator()
	} else {
		w.ia = memory.FileIndexMemoryAllocator()
	}
	w.idx = index.New[TV, TIX](w.rnd, w.d, w.pol, w.g, w.ia, nil, false, 0)
	var tv TV
	var ti TIX
	w.desc = fmt.Sprintf("[%T,%T %s, length %d, multi %v, mmap %v, seed %d]", tv, ti, kind, n, multi, mmap, seed)
	return w
}

func (w *world[TV, TIX]) add(i TIX, v []TV) {
	c := append([]TV(nil), v...)
	w.items[i] = c
	try(w.t, w.desc+" AddItem", func() { w.idx.AddItem(i, v) })
}

func (w *world[TV, TIX]) nItems() (n TIX) {
	for i := range w.items {
		if i+1 > n {
			n = i + 1
		}
	}
	return
}

// clash draws vectors of different character.
func rvec[TV interfaces.VectorType](r *mrand.Rand, n int) []TV {
	v := make([]TV, n)
	for i := range v {
		v[i] = TV(r.NormFloat64())
	}
	return v
}

// fill adds m items in one of several shapes; gaps leaves numbers out.
func (w *world[TV, TIX]) fill(r *mrand.Rand, m int, shape string, gaps bool) {
	var base []TV
	next := TIX(0)
	for k := 0; k < m; k++ {
		v := rvec[TV](r, w.n)
		switch shape {
		case "same":
			if base == nil {
				base = v
			}
			v = base
		case "few":
			if k%3 != 0 && base != nil {
				v = base
			}
			base = v
		case "zero":
			if k%2 == 0 {
				v = make([]TV, w.n)
			}
		case "allzero":
			v = make([]TV, w.n)
		case "line":
			for z := range v {
				v[z] = TV(k + 1)
			}
		case "big":
			for z := range v {
				v[z] *= 1000
			}
		case "wide":
			s := TV(math.Exp(3 * r.NormFloat64()))
			for z := range v {
				v[z] *= s
			}
		}
		if gaps {
			next += TIX(r.Intn(3))
		}
		w.add(next, v)
		next++
	}
}

func vdot[TV interfaces.VectorType](a, b []TV) TV {
	var s TV
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// refDist is the distance as the search reports it, in float64.
func refDist[TV interfaces.VectorType](kind string, a, b []TV) float64 {
	var ab, aa, bb float64
	for i := range a {
		ab += float64(a[i]) * float64(b[i])
		aa += float64(a[i]) * float64(a[i])
		bb += float64(b[i]) * float64(b[i])
	}
	if kind != "angular" {
		return ab
	}
	if aa*bb <= 0 {
		return math.Sqrt(2)
	}
	return math.Sqrt(math.Max(0, 2-2*ab/math.Sqrt(aa*bb)))
}

// tol is how much a computed distance may differ from the reference.
func tol[TV interfaces.VectorType](kind string, a, b []TV) float64 {
	var x TV
	eps := 1e-12
	if _, ok := any(x).(float32); ok {
		eps = 1e-6
	}
	if kind == "angular" {
		return math.Sqrt(eps*float64(8+len(a))) + 1e-9
	}
	var s float64
	for i := range a {
		s += math.Abs(float64(a[i]) * float64(b[i]))
	}
	return eps*float64(4+len(a))*s + 1e-30
}

func near[TV interfaces.VectorType](kind string, got TV, a, b []TV) bool {
	w := refDist(kind, a, b)
	if kind == "angular" {
		// compare the squares: the root magnifies rounding near zero
		t := tol(kind, a, b)
		return math.Abs(float64(got)*float64(got)-w*w) <= t*t && got >= 0
	}
	return math.Abs(float64(got)-w) <= tol(kind, a, b)
}

// exact is the distance computed with the functions of the index itself.
func (w *world[TV, TIX]) exact(a, b []TV) TV {
	mem := make([]byte, 2*int(w.d.NodeSize())+64)
	p := unsafe.Pointer(&mem[0])
	x, y := w.d.MapNodeToMemory(p, 0), w.d.MapNodeToMemory(p, 1)
	x.SetVector(a)
	y.SetVector(b)
	w.d.InitNode(x)
	w.d.InitNode(y)
	return w.d.NormalizedDistance(w.d.Distance(x, y))
}

// presentOnly compares the stored items with what was added.
func (w *world[TV, TIX]) checkItems(when string) {
	for i, v := range w.items {
		got := w.idx.GetItem(i)
		if len(got) != w.n {
			fail(w.t, "%s %s: item %d has %d elements", w.desc, when, i, len(got))
		}
		for z := range v {
			if math.Float64bits(float64(got[z])) != math.Float64bits(float64(v[z])) {
				fail(w.t, "%s %s: item %d element %d is %v, added was %v", w.desc, when, i, z, got[z], v[z])
			}
		}
	}
}

// exhaustive checks that a search without a limit returns exactly the added items, closest first.
func (w *world[TV, TIX]) exhaustive(when string, q []TV) {
	var res []TIX
	var ds []TV
	try(w.t, w.desc+" "+when+": search", func() {
		res, ds = w.idx.GetNnsByVector(q, len(w.items)+5, 1<<30, w.idx.CreateContext())
	})
	w.checkResult(when, q, res, ds, len(w.items)+5)
	if len(res) != len(w.items) {
		seen := map[TIX]bool{}
		for _, i := range res {
			seen[i] = true
		}
		for i := range w.items {
			if !seen[i] {
				fail(w.t, "%s %s: an exhaustive search does not find item %d (%d of %d items found)", w.desc, when, i, len(res), len(w.items))
			}
		}
	}
}

func (w *world[TV, TIX]) checkResult(when string, q []TV, res []TIX, ds []TV, asked int) {
	if len(res) > asked || len(res) != len(ds) {
		fail(w.t, "%s %s: %d results and %d distances for %d asked", w.desc, when, len(res), len(ds), asked)
	}
	seen := map[TIX]bool{}
	for k, i := range res {
		v, ok := w.items[i]
		if !ok {
			fail(w.t, "%s %s: result %d was never added", w.desc, when, i)
		}
		if seen[i] {
			fail(w.t, "%s %s: result %d occurs twice", w.desc, when, i)
		}
		seen[i] = true
		if !near(w.kind, ds[k], q, v) {
			fail(w.t, "%s %s: item %d at %v, its distance is %v", w.desc, when, i, ds[k], refDist(w.kind, q, v))
		}
		if k > 0 {
			p := ds[k-1]
			if w.kind == "angular" && ds[k] < p || w.kind != "angular" && ds[k] > p {
				fail(w.t, "%s %s: result %d at %v follows %v", w.desc, when, k, ds[k], p)
			}
			if ds[k] == p && w.kind != "angular" && i < res[k-1] {
				fail(w.t, "%s %s: items %d and %d at the same distance are not in order", w.desc, when, res[k-1], i)
			}
		}
	}
}

// nodes of a saved file, seen through the node interface.
type file[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	d    interfaces.Distance[TV, TIX]
	mem  []byte
	n    TIX
	max  TIX
	keep []uint64
}

func readFile[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, d interfaces.Distance[TV, TIX], name string) *file[TV, TIX] {
	b, err := os.ReadFile(name)
	if err != nil {
		fail(t, "no saved file: %v", err)
	}
	s := int(d.NodeSize())
	if len(b)%s != 0 {
		fail(t, "the file has %d bytes, not a multiple of the node size %d", len(b), s)
	}
	return mapFile(d, b)
}

func mapFile[TV interfaces.VectorType, TIX interfaces.IndexTypes](d interfaces.Distance[TV, TIX], b []byte) *file[TV, TIX] {
	keep := make([]uint64, len(b)/8+64)
	mem := unsafe.Slice((*byte)(unsafe.Pointer(&keep[0])), len(b))
	copy(mem, b)
	return &file[TV, TIX]{d: d, mem: mem, n: TIX(len(b) / int(d.NodeSize())), max: d.MaxNumChildren(), keep: keep}
}

func (f *file[TV, TIX]) node(i TIX) interfaces.Node[TV, TIX] {
	return f.d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(f.mem)), i)
}

func (f *file[TV, TIX]) raw(i TIX) []byte {
	s := int(f.d.NodeSize())
	return f.mem[int(i)*s : (int(i)+1)*s]
}

// reach collects the items below node i. err tells what is wrong with the tree.
func (f *file[TV, TIX]) reach(i, items, limit TIX, isRoot bool, seen map[TIX]int) (err error) {
	if i < items {
		if f.node(i).GetNumberOfDescendants() == 1 {
			seen[i]++
			return nil
		}
		return nil // an absent slot
	}
	if i >= limit {
		return fmt.Errorf("node %d is linked from a node that is not after it", i)
	}
	n := f.node(i)
	k := n.GetNumberOfDescendants()
	if k <= f.max {
		if k == 0 {
			return nil
		}
		c := n.GetChildren()
		for z := TIX(0); z < k; z++ {
			if c[z] >= items {
				return fmt.Errorf("leaf %d names %d, which is not an item slot", i, c[z])
			}
			if f.node(c[z]).GetNumberOfDescendants() == 1 {
				seen[c[z]]++
			}
		}
		return nil
	}
	c := n.GetChildren()
	for z := 0; z < 2; z++ {
		if err := f.reach(c[z], items, i, false, seen); err != nil {
			return err
		}
	}
	return nil
}

// checkFile checks that the file holds the items and the given number of trees that reach all of them.
func (w *world[TV, TIX]) checkFile(when, name string, trees int) {
	f := readFile[TV, TIX](w.t, w.d, name)
	items := w.nItems()
	if f.n < items+TIX(trees) {
		fail(w.t, "%s %s: the file has %d nodes, too few for %d items and %d trees", w.desc, when, f.n, items, trees)
	}
	for i := TIX(0); i < items; i++ {
		_, ok := w.items[i]
		if k := f.node(i).GetNumberOfDescendants(); (k == 1) != ok || k > 1 {
			fail(w.t, "%s %s: item %d has %d descendants, added: %v", w.desc, when, i, k, ok)
		}
	}
	if trees == 0 {
		return
	}
	// the last nodes are copies of the roots, which stand before them
	first := f.n - TIX(trees)
	for r := TIX(0); r < TIX(trees); r++ {
		if k := f.node(first + r).GetNumberOfDescendants(); k != items {
			fail(w.t, "%s %s: root %d of %d has %d descendants, not %d", w.desc, when, r, trees, k, items)
		}
		orig := 0
		for i := items; i < first; i++ {
			if string(f.raw(i)) == string(f.raw(first+r)) {
				orig++
			}
		}
		if orig == 0 {
			fail(w.t, "%s %s: the copy of root %d is not among the nodes", w.desc, when, r)
		}
		seen := map[TIX]int{}
		if err := f.reach(first+r, items, first+r+1, true, seen); err != nil {
			fail(w.t, "%s %s: tree %d: %v", w.desc, when, r, err)
		}
		for i := range w.items {
			if seen[i] == 0 {
				fail(w.t, "%s %s: tree %d does not reach item %d", w.desc, when, r, i)
			}
		}
	}
	n := 0
	for i := items; i < first; i++ {
		if f.node(i).GetNumberOfDescendants() == items {
			n++
		}
	}
	if items > w.d.MaxNumChildren() && n != trees {
		fail(w.t, "%s %s: there are %d roots, %d trees were asked for", w.desc, when, n, trees)
	}
}

func tmp(t *testing.T) string { return filepath.Join(t.TempDir(), "index.ann") }

func sortedKeys[TV interfaces.VectorType, TIX interfaces.IndexTypes](m map[TIX][]TV) []TIX {
	var ks []TIX
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
	return ks
}

func addr[TV interfaces.VectorType, TIX interfaces.IndexTypes](n interfaces.Node[TV, TIX]) uintptr {
	return uintptr(utils.GetPtr(n))
}

// each runs f for the four type combinations.
func combos(t *testing.T, a func(*testing.T), b func(*testing.T), c func(*testing.T), d func(*testing.T)) {
	for _, f := range []func(*testing.T){a, b, c, d} {
		f(t)
	}
}

// priv is a private field of an object.
func priv(x any, name string) reflect.Value {
	f := reflect.ValueOf(x).Elem().FieldByName(name)
	if !f.IsValid() {
		panic(missing("no field " + name))
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}
func field(x any, name string) any { return priv(x, name).Interface() }

func valueOf[T any](x T) reflect.Value { return reflect.ValueOf(&x).Elem() }
