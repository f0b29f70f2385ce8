package roots

import (
	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/sort"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

var sink []any

func keep(x ...any) { sink = append(sink, x...) }

func common() {
	keep(memory.GoGCIndexAllocator(), memory.FileIndexMemoryAllocator(), memory.MmapIndexAllocator(),
		policy.MultiWorker(), policy.SingleWorker(), random.NewGoRandom(), random.NewGoRandomWithSeed(1),
		random.NewKiss64Random(1), random.NewKiss32Random[uint32](1), random.NewKiss32Random[uint64](1),
		utils.Round, utils.RoundPlus, utils.Max[uint32], utils.Max[uint64],
		utils.Intersection[uint32], utils.Intersection[uint64],
		sort.SortSlice[uint32], sort.SortSlice2[uint32], sort.SortSlice3[uint32],
		sort.SortSlice[uint64], sort.SortSlice2[uint64], sort.SortSlice3[uint64])
}

func roots_float32_uint32() {

	keep(builder.Index[float32, uint32](), index.New[float32, uint32], angular.Distance[float32, uint32](3), dotproduct.Distance[float32, uint32](3),
		&index.AnnoyIndexImpl[float32, uint32]{}, &index.BatchContext[float32, uint32]{},
		&angular.AngularNodeImpl[float32, uint32]{}, &dotproduct.DotProductNodeImpl[float32, uint32]{},
		distance.TwoMeans[float32, uint32], &interfaces.SorterFunctions[float32, uint32]{}, &interfaces.Pair[float32, uint32]{}, &interfaces.Pairs[float32, uint32]{},
		sort.NewPriorityQueue[float32, uint32](), sort.SortPairs[float32, uint32], sort.SortPairs2[float32, uint32],
		sort.PartialSortSlice[float32, uint32], sort.PartialSortSlice2[float32, uint32],
		utils.GetPtr[float32, uint32], utils.CopyNode[float32, uint32], utils.DumpNode[float32, uint32],
		vector.Abs[float32], vector.Dot[float32, uint32], vector.DotUnsafe[float32, uint32], vector.EuclideanDistance[float32, uint32],
		vector.ManhattanDistance[float32, uint32], vector.GetNorm[float32, uint32], vector.GetNormUnsafe[float32, uint32])
}

func roots_float32_uint64() {

	keep(builder.Index[float32, uint64](), index.New[float32, uint64], angular.Distance[float32, uint64](3), dotproduct.Distance[float32, uint64](3),
		&index.AnnoyIndexImpl[float32, uint64]{}, &index.BatchContext[float32, uint64]{},
		&angular.AngularNodeImpl[float32, uint64]{}, &dotproduct.DotProductNodeImpl[float32, uint64]{},
		distance.TwoMeans[float32, uint64], &interfaces.SorterFunctions[float32, uint64]{}, &interfaces.Pair[float32, uint64]{}, &interfaces.Pairs[float32, uint64]{},
		sort.NewPriorityQueue[float32, uint64](), sort.SortPairs[float32, uint64], sort.SortPairs2[float32, uint64],
		sort.PartialSortSlice[float32, uint64], sort.PartialSortSlice2[float32, uint64],
		utils.GetPtr[float32, uint64], utils.CopyNode[float32, uint64], utils.DumpNode[float32, uint64],
		vector.Abs[float32], vector.Dot[float32, uint64], vector.DotUnsafe[float32, uint64], vector.EuclideanDistance[float32, uint64],
		vector.ManhattanDistance[float32, uint64], vector.GetNorm[float32, uint64], vector.GetNormUnsafe[float32, uint64])
}

func roots_float64_uint32() {

	keep(builder.Index[float64, uint32](), index.New[float64, uint32], angular.Distance[float64, uint32](3), dotproduct.Distance[float64, uint32](3),
		&index.AnnoyIndexImpl[float64, uint32]{}, &index.BatchContext[float64, uint32]{},
		&angular.AngularNodeImpl[float64, uint32]{}, &dotproduct.DotProductNodeImpl[float64, uint32]{},
		distance.TwoMeans[float64, uint32], &interfaces.SorterFunctions[float64, uint32]{}, &interfaces.Pair[float64, uint32]{}, &interfaces.Pairs[float64, uint32]{},
		sort.NewPriorityQueue[float64, uint32](), sort.SortPairs[float64, uint32], sort.SortPairs2[float64, uint32],
		sort.PartialSortSlice[float64, uint32], sort.PartialSortSlice2[float64, uint32],
		utils.GetPtr[float64, uint32], utils.CopyNode[float64, uint32], utils.DumpNode[float64, uint32],
		vector.Abs[float64], vector.Dot[float64, uint32], vector.DotUnsafe[float64, uint32], vector.EuclideanDistance[float64, uint32],
		vector.ManhattanDistance[float64, uint32], vector.GetNorm[float64, uint32], vector.GetNormUnsafe[float64, uint32])
}

func roots_float64_uint64() {

	keep(builder.Index[float64, uint64](), index.New[float64, uint64], angular.Distance[float64, uint64](3), dotproduct.Distance[float64, uint64](3),
		&index.AnnoyIndexImpl[float64, uint64]{}, &index.BatchContext[float64, uint64]{},
		&angular.AngularNodeImpl[float64, uint64]{}, &dotproduct.DotProductNodeImpl[float64, uint64]{},
		distance.TwoMeans[float64, uint64], &interfaces.SorterFunctions[float64, uint64]{}, &interfaces.Pair[float64, uint64]{}, &interfaces.Pairs[float64, uint64]{},
		sort.NewPriorityQueue[float64, uint64](), sort.SortPairs[float64, uint64], sort.SortPairs2[float64, uint64],
		sort.PartialSortSlice[float64, uint64], sort.PartialSortSlice2[float64, uint64],
		utils.GetPtr[float64, uint64], utils.CopyNode[float64, uint64], utils.DumpNode[float64, uint64],
		vector.Abs[float64], vector.Dot[float64, uint64], vector.DotUnsafe[float64, uint64], vector.EuclideanDistance[float64, uint64],
		vector.ManhattanDistance[float64, uint64], vector.GetNorm[float64, uint64], vector.GetNormUnsafe[float64, uint64])
}
