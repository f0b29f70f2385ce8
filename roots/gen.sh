#!/bin/bash
# generates roots.go: instantiates every generic function of goannoy at the four type combinations
{
echo 'package roots'
cat <<'X'

import (
	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/sort"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

var sink []any

func keep(x ...any) { sink = append(sink, x...) }

func common() {
	keep(memory.GoGCIndexAllocator(), memory.FileIndexMemoryAllocator(), memory.MmapIndexAllocator(),
		policy.MultiWorker(), policy.SingleWorker(), random.NewGoRandom(), random.NewGoRandomWithSeed(1),
		random.NewKiss64Random(1), random.NewKiss32Random[uint32](1), random.NewKiss32Random[uint64](1),
		utils.Round, utils.RoundPlus, utils.Max[uint32], utils.Max[uint64],
		utils.Intersection[uint32], utils.Intersection[uint64],
		sort.SortSlice[uint32], sort.SortSlice2[uint32], sort.SortSlice3[uint32],
		sort.SortSlice[uint64], sort.SortSlice2[uint64], sort.SortSlice3[uint64])
}
X
for tv in float32 float64; do for ti in uint32 uint64; do
cat <<X

func roots_${tv}_${ti}() {
	
	
	keep(builder.Index[${tv}, ${ti}](), index.New[${tv}, ${ti}], angular.Distance[${tv}, ${ti}](3), dotproduct.Distance[${tv}, ${ti}](3),
		&index.AnnoyIndexImpl[${tv}, ${ti}]{}, &index.BatchContext[${tv}, ${ti}]{},
		&angular.AngularNodeImpl[${tv}, ${ti}]{}, &dotproduct.DotProductNodeImpl[${tv}, ${ti}]{},
		distance.TwoMeans[${tv}, ${ti}], &interfaces.SorterFunctions[${tv}, ${ti}]{}, &interfaces.Pair[${tv}, ${ti}]{}, &interfaces.Pairs[${tv}, ${ti}]{},
		sort.NewPriorityQueue[${tv}, ${ti}](), sort.SortPairs[${tv}, ${ti}], sort.SortPairs2[${tv}, ${ti}],
		sort.PartialSortSlice[${tv}, ${ti}], sort.PartialSortSlice2[${tv}, ${ti}],
		utils.GetPtr[${tv}, ${ti}], utils.CopyNode[${tv}, ${ti}], utils.DumpNode[${tv}, ${ti}],
		vector.Abs[${tv}], vector.Dot[${tv}, ${ti}], vector.DotUnsafe[${tv}, ${ti}], vector.EuclideanDistance[${tv}, ${ti}],
		vector.ManhattanDistance[${tv}, ${ti}], vector.GetNorm[${tv}, ${ti}], vector.GetNormUnsafe[${tv}, ${ti}])
}
X
done; done
} > roots.go
gofmt -w roots.go
