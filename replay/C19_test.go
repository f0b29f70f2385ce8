package zzverif

import (
	"fmt"
	mrand "math/rand"
	"testing"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

type mySorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	interfaces.SorterFunctions[TV, TIX]
	id int
}

// replayC19 selects parts at random and compares the index with what was selected last.
func replayC19[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T) {
	r := mrand.New(mrand.NewSource(seed()))
	for round := 0; round < 300; round++ {
		b := builder.Index[TV, TIX]()
		var want struct {
			rnd    any
			n      int
			pol    string
			mem    string
			sorter any
			log    bool
		}
		want.pol, want.mem = "*policy.annoyIndexSingleThreadedBuildPolicy", "*memory.mmapIndexAllocator"
		desc := "builder"
		steps := r.Intn(8)
		for k := 0; k <= steps; k++ {
			op := r.Intn(9)
			if k == steps && want.n == 0 {
				op = 0
			}
			if op == 8 {
				op = 0
			}
			switch op {
			case 0:
				want.n = 1 + r.Intn(40)
				desc += fmt.Sprintf(".AngularDistance(%d)", want.n)
				b = b.AngularDistance(want.n)
			case 1:
				x := newRnd[TIX](uint64(r.Intn(5)))
				want.rnd = x
				desc += ".Random"
				b = b.Random(x)
			case 2:
				h := r.Intn(300) - 50
				if r.Intn(3) == 0 {
					h = r.Intn(1 << 17)
				}
				desc += fmt.Sprintf(".IndexNumHint(%d)", h)
				b = b.IndexNumHint(h)
			case 3:
				want.pol = "*policy.annoyIndexMultiThreadedBuildPolicy"
				desc += ".UseMultiWorkerPolicy"
				b = b.UseMultiWorkerPolicy()
			case 4:
				want.pol = "*policy.annoyIndexSingleThreadedBuildPolicy"
				desc += ".SingleWorkerPolicy"
				b = b.SingleWorkerPolicy()
			case 5:
				want.mem = "*memory.mmapIndexAllocator"
				desc += ".MmapIndexAllocator"
				b = b.MmapIndexAllocator()
			case 6:
				want.mem = "*memory.fileIndexerAllocator"
				desc += ".GCMemoryIndexAllocator"
				b = b.GCMemoryIndexAllocator()
			case 7:
				var s interfaces.Sorter[TV, TIX] = &mySorter[TV, TIX]{id: k}
				if r.Intn(2) == 0 {
					s = &interfaces.SorterFunctions[TV, TIX]{}
				}
				want.sorter = s
				desc += ".UseSorter"
				b = b.UseSorter(s)
			}
		}
		var x interfaces.AnnoyIndex[TV, TIX]
		try(t, desc+".Build", func() { x = b.Build() })
		if int(x.VectorLength()) != want.n {
			fail(t, "%s: vector length %d", desc, x.VectorLength())
		}
		if s := fmt.Sprintf("%T", field(x, "buildPolicy")); s != want.pol {
			fail(t, "%s: policy %s", desc, s)
		}
		if s := fmt.Sprintf("%T", field(x, "indexMemoryAllocator")); s != want.mem {
			fail(t, "%s: index allocator %s", desc, s)
		}
		got := field(x, "random")
		if want.rnd != nil && got != want.rnd {
			fail(t, "%s: another random generator", desc)
		}
		if want.rnd == nil {
			switch k := got.(type) {
			case *random.Kiss32Random[uint32]:
				if k.GetSeed() != 123456789 {
					fail(t, "%s: default seed %d", desc, k.GetSeed())
				}
			case *random.Kiss64Random:
				if k.GetSeed() != 1234567890987654321 {
					fail(t, "%s: default seed %d", desc, k.GetSeed())
				}
			default:
				fail(t, "%s: default generator %T", desc, got)
			}
		}
		so := field(x, "sorter")
		if want.sorter != nil && so != want.sorter {
			fail(t, "%s: another sorter", desc)
		}
		if want.sorter == nil {
			in := make([]TIX, 50)
			for i := range in {
				in[i] = TIX(r.Intn(30))
			}
			so.(interfaces.Sorter[TV, TIX]).SortSlice(in)
			ps := make(interfaces.Pairs[TV, TIX], 50)
			for i := range ps {
				ps[i] = &interfaces.Pair[TV, TIX]{First: TV(r.Intn(10)), Second: TIX(r.Intn(10))}
			}
			so.(interfaces.Sorter[TV, TIX]).PartialSortSlice(ps, 0, 20, 50)
			for i := 1; i < 50; i++ {
				if in[i] < in[i-1] || ps.Less(i, min(i-1, 19)) {
					fail(t, "%s: the default sorter does not sort", desc)
				}
			}
			so.(interfaces.Sorter[TV, TIX]).SortPairs(ps)
			for i := 1; i < 50; i++ {
				if ps.Less(i, i-1) {
					fail(t, "%s: the default sorter does not sort pairs", desc)
				}
			}
		}
		for _, f := range []string{"indexBuilt", "indexLoaded"} {
			if field(x, f).(bool) {
				fail(t, "%s: %s is set", desc, f)
			}
		}
		if priv(x, "_n_items").Uint() != 0 || priv(x, "_n_nodes").Uint() != 0 || priv(x, "_roots").Len() != 0 {
			fail(t, "%s: not empty", desc)
		}
		y := b.Build()
		if field(x, "allocator") == field(y, "allocator") {
			fail(t, "%s: two indexes share their build memory", desc)
		}
		// and it works
		n := 1 + r.Intn(30)
		vs := make([][]TV, n)
		for i := 0; i < n; i++ {
			vs[i] = rvec[TV](r, want.n)
			x.AddItem(TIX(i), vs[i])
		}
		for i := 0; i < n; i++ {
			for z, e := range x.GetItem(TIX(i)) {
				if e != vs[i][z] {
					fail(t, "%s: item %d reads back differently", desc, i)
				}
			}
		}
		x.Close()
	}
	if l := field(builder.Index[TV, TIX]().AngularDistance(3).VerboseLogging().Build(), "logVerbose"); l != true {
		fail(t, "VerboseLogging has no effect")
	}
	if l := field(builder.Index[TV, TIX]().AngularDistance(3).Build(), "logVerbose"); l != false {
		fail(t, "logging without VerboseLogging")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestReplayC19(t *testing.T) {
	replayC19[float32, uint32](t)
	replayC19[float64, uint64](t)
	replayC19[float32, uint64](t)
	replayC19[float64, uint32](t)
}
