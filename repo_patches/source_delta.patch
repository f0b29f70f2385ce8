From ffc462b4f02942e66225118f11e1e1fb5bb91524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 01/23] fix: copy whole nodes, not vectorLength bytes of them

CopyNode takes a size in bytes; its callers passed the number of vector
elements, so split nodes and root copies lost their children and most of
their hyperplane.
---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From c80376ab717aea951dc67346f95fced164d1a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 02/23] fix: search the most promising branch first

The priority queue yields its smallest element, so searching with the
plain priorities inspected the least promising subtree first.
---
 index/annoyindex_search.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..7656109 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -85,7 +85,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +93,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		// The queue yields the smallest first, hence it is keyed by the negated priority.
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +119,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 8a8127c0a8e50d64edf055481e38a6da53516764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 03/23] fix: grow the search context when a query collects more
 candidates

An item is reached once in every tree, so the estimate made when the
context is created can be exceeded and the search panicked with an index
out of range.
---
 index/annoyindex_search.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7656109..191e753 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -39,6 +39,29 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 	return bc
 }
 
+// ensure makes room for at least _n_ candidates. The same item may be reached once in every
+// tree, hence a single query may collect more candidates than initially estimated.
+func (bc *BatchContext[TV, TIX]) ensure(n int) {
+	if n <= bc.length {
+		return
+	}
+
+	length := 2 * n
+	nns := make([]TIX, length)
+	copy(nns, bc.nns)
+
+	nns_dist := make([]*interfaces.Pair[TV, TIX], length)
+	copy(nns_dist, bc.nns_dist)
+
+	for i := bc.length; i < length; i++ {
+		nns_dist[i] = &interfaces.Pair[TV, TIX]{}
+	}
+
+	bc.nns = nns
+	bc.nns_dist = nns_dist
+	bc.length = length
+}
+
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
@@ -103,9 +126,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
+			bc.ensure(cnt + 1)
 			bc.nns[cnt] = i
 			cnt++
 		} else if nDescendants <= idx.maxDescendants {
+			bc.ensure(cnt + int(nDescendants))
 			dst := nd.GetChildren()
 			if len(dst) == int(nDescendants) {
 				copy(bc.nns[TIX(cnt):], dst)
-- 
2.43.0


From eab937d327710fcafab65874ebc867fefb3975bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 04/23] fix: reject query vectors of the wrong length

A longer vector was copied past the end of the query node, a shorter one
made the margin read past its end.
---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 191e753..adeb45e 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -100,6 +101,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From bf109e39f3181177961b58b7c10c3329e87bfbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 05/23] fix: load indexes where every node is a root

The index type is unsigned, so the scan for roots never ended when all
nodes had the same number of descendants (an index with a single item or
without any) and read before the start of the file.
---
 index/annoyindex_io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..a60bbca 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -66,13 +66,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		m    TIX
 	)
 
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	for i := idx._n_nodes; i > 0; i-- {
 
-		n := idx.getNode(i)
+		n := idx.getNode(i - 1)
 		k := n.GetNumberOfDescendants()
 
 		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
+			idx._roots = append(idx._roots, i-1)
 			m = k
 			mset = true
 		} else {
@@ -85,7 +85,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		fn := idx.getNode(idx._roots[0])
 		ln := idx.getNode(idx._roots[len(idx._roots)-1])
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
+		if m > 0 && fn.GetChildren()[0] == ln.GetChildren()[0] {
 			idx._roots = idx._roots[:len(idx._roots)-1]
 		}
 	}
-- 
2.43.0


From 6b7dd8246a18290ba4ab28ea8478da0bc168bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 06/23] fix: compute byte offsets of nodes in pointer size
 arithmetic

With a 32 bit index type the offset wrapped at 4 GiB, so nodes beyond
that overwrote the first ones and larger indexes were saved truncated.
---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..57097b5 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..51231f0 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..d12489d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -474,7 +474,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index a60bbca..77b24ca 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -28,7 +28,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), int(idx._n_nodes)*int(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -59,7 +59,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	var (
 		mset bool
-- 
2.43.0


From be8f1274fa5ce9d7b66d4705c11217a81712eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 07/23] fix: never report NaN as the distance of nearly
 parallel vectors

Rounding can make the squared distance slightly negative.
---
 distance/angular/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 57097b5..b2d7c82 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,7 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From c46449d2e4eaf9b07011402c9c10fe8c34bb9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 08/23] fix: let each build worker use its own random generator

The workers shared the generator of the index without synchronization,
the one seeded for each worker was never used.
---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index d12489d..663c5bf 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 117093645fc619fbc5dad915e3aa6f5571f5e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 09/23] fix: build with one worker when zero workers are
 requested

The interface documents that zero means one, no tree was built at all.
---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From 83364959260d4b23ca02872f75eab69272eb150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 10/23] fix: keep PartialSortSlice within the requested range

---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From 547551f1b8a3de5beb3c0fd6fd8b9c4dde045964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 11/23] fix: allow saving over the file the index is loaded
 from

Truncating the mapped file made its contents vanish before they could be
written.
---
 index/annoyindex_io.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 77b24ca..51d25e5 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -13,6 +13,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	// Never truncate an existing file, it may be the one that is currently mapped.
+	if err := os.Remove(fileName); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
-- 
2.43.0


From e61308224afaed42cd84b6aa0f3ef09429005c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 12/23] fix: a closed index is not built any more

Save on a closed index, or on one where Load failed, replaced the file by
an empty one instead of reporting that there is nothing to save.
---
 index/annoyindex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 663c5bf..d45416a 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
+	idx.batchMaxNNS = 0
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 98d388fda3b0f8ae85a5155b4fc920bf909c513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 13/23] fix: refuse to add items to a built index

The item nodes are followed by the tree nodes, adding overwrote them.
---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index d45416a..85f33e8 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -153,6 +153,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to a built index")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From e4ce35fb796c69c1a7a6b075b8ca42156d8b95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 14/23] fix: report empty and unreadable index files as errors

---
 index/memory/index_allocator_gcmem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..d2ecdd2 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -64,6 +64,10 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("file %s is empty", fqFile)
+	}
+
 	data := make([]byte, fileInfo.Size())
 
 	var bytesRead int64
@@ -71,7 +75,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, err
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From f7e37025485dda6b38d234e85b5c5712000e4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 15/23] fix: let GoRandom honour its seed

---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..3041a17 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() *GoRandom {
-- 
2.43.0


From f6441125bbfda89d31edbe257ad92268822f344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 16/23] fix: multiply with carry in Kiss32Random

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From 1b8855286686a1fba1f10f5d7e133951f2e5d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 17/23] fix: provide a random generator for 64 bit indexes

The builder left it nil, so building or closing such an index panicked.
---
 builder/index.go       | 3 ++-
 random/kiss64random.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..e243c7a 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -96,7 +96,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			k := random.NewKiss32Random(uint32(0))
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
-			// TODO: Need to completely refactor random!!
+			k := random.NewKiss64Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		}
 	}
 
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From bc160249289a1242844625f315fee8c285c164cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 18/23] fix: use the dot product as the distance of package
 dotproduct

It was the angular one, which NormalizedDistance then negated.
---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 51231f0..c6a60d7 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From fa7d03118b097679ceddaa458e25dc32a166c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 19/23] fix: give every built index its own default build
 allocator

---
 builder/index.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index e243c7a..244be59 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,10 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	// The build memory belongs to a single index, never share the default between indexes.
+	allocator := bld.allocator
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -105,7 +107,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From 2a0d6bed8cb3ddcc6d36695d451cd1c2c0c76e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:37 +0000
Subject: [PATCH 20/23] fix: keep the name of an index file that was opened
 again

---
 index/memory/index_allocator_gcmem.go | 5 ++++-
 index/memory/index_allocator_mmap.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index d2ecdd2..e5d6481 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,10 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	// The same file may have been opened again, then the name belongs to the newer one.
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..d1dc73d 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,10 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	// The same file may have been opened again, then the name belongs to the newer one.
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
-- 
2.43.0


From 5da57d985a831bfc9362f31f95f6d6f01e4f20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 21/23] fix: reject vectors whose length only matches in the
 index type

---
 index/annoyindex.go        | 2 +-
 index/annoyindex_search.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 85f33e8..8ab189d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -157,7 +157,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a built index")
 	}
 
-	if idx.vectorLength != TIX(len(v)) {
+	if int(idx.vectorLength) != len(v) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
 
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index adeb45e..e5ff02a 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -101,7 +101,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
-	if idx.vectorLength != TIX(len(vector)) {
+	if int(idx.vectorLength) != len(vector) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
 	}
 
-- 
2.43.0


From 06910e9e5b6d2cf9dd556100bef6ef7556f47753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 22/23] fix: collect more candidates than the index type can
 count

---
 index/annoyindex_search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index e5ff02a..a4352ae 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -138,9 +138,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			bc.ensure(cnt + int(nDescendants))
 			dst := nd.GetChildren()
 			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
+				copy(bc.nns[cnt:], dst)
 			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
+				copy(bc.nns[cnt:], dst[:nDescendants])
 			}
 			cnt += int(nDescendants)
 		} else {
-- 
2.43.0


From d09f320734887d5860b1d0d64977d7df669f4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 23/23] fix: inspect every tree when all items are requested

---
 index/annoyindex_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index a4352ae..8bd27a4 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -109,7 +110,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	q := sort.NewPriorityQueue[TV, TIX]()
 
 	if numNodesToInspect == -1 {
-		numNodesToInspect = numReturn * len(idx._roots)
+		numNodesToInspect = math.MaxInt
+
+		if numRoots := len(idx._roots); numRoots == 0 || numReturn <= math.MaxInt/numRoots {
+			numNodesToInspect = numReturn * numRoots
+		}
 	}
 
 	for i := range idx._roots {
-- 
2.43.0

