# Behaviour preserving edits of /repo: the checks should stay quiet (or end with no-failing-input-found).
A='index/annoyindex.go'; IO='index/annoyindex_io.go'; S='index/annoyindex_search.go'
NNS='''	idx.batchMaxNNS = -1

	for i := TIX(0); i < idx._n_nodes; i++ {
		nd := idx.getNode(i)

		nDescendants := nd.GetNumberOfDescendants()

		if nDescendants == 1 && i < idx._n_items {
			idx.batchMaxNNS++
		} else if nDescendants <= idx.maxDescendants {
			idx.batchMaxNNS += len(nd.GetChildren())
		}
	}

	if idx.logVerbose {
		fmt.Println("Max NNS:", idx.batchMaxNNS)
	}
}
'''
REFAC=[
 dict(id='nns', props='C03 C04 C10 C11', edits=[(A,NNS,'''	idx.countNNS()

	if idx.logVerbose {
		fmt.Println("Max NNS:", idx.batchMaxNNS)
	}
}

// countNNS estimates the number of candidates.
func (idx *AnnoyIndexImpl[TV, TIX]) countNNS() {
	idx.batchMaxNNS = -1

	for i := TIX(0); i < idx._n_nodes; i++ {
		nd := idx.getNode(i)

		nDescendants := nd.GetNumberOfDescendants()

		if nDescendants == 1 && i < idx._n_items {
			idx.batchMaxNNS++
		} else if nDescendants <= idx.maxDescendants {
			idx.batchMaxNNS += len(nd.GetChildren())
		}
	}
}
''')]),
 dict(id='addcheck', props='C01 C11', edits=[(A,'''	if idx.indexLoaded {
		panic("Can't add items to a loaded index")
	}

	if idx.indexBuilt {
		panic("Can't add items to a built index")
	}

	if int(idx.vectorLength) != len(v) {
		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
	}
''','''	idx.checkAdd(v)
'''),(A,'''func (idx *AnnoyIndexImpl[TV, TIX]) Build(n''','''// checkAdd refuses what can't be added.
func (idx *AnnoyIndexImpl[TV, TIX]) checkAdd(v []TV) {
	if idx.indexLoaded {
		panic("Can't add items to a loaded index")
	}

	if idx.indexBuilt {
		panic("Can't add items to a built index")
	}

	if int(idx.vectorLength) != len(v) {
		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
	}
}

func (idx *AnnoyIndexImpl[TV, TIX]) Build(n''')]),
 dict(id='additem', props='C01 C11', edits=[(A,'''	node.SetNumberOfDescendants(1)
	node.SetVector(v)
	idx.distance.InitNode(node)

	// Is new spot?
	if itemIndex >= idx._n_items {
		idx._n_items = itemIndex + 1
	}
''','''	if n := itemIndex + 1; n > idx._n_items {
		idx._n_items = n
	}
	node.SetVector(v)
	node.SetNumberOfDescendants(1)
	idx.distance.InitNode(node)
''')]),
 dict(id='takenode', props='C03 C05 C08', edits=[(A,'''		threadedBuildPolicy.LockNNodes()
		idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)

		item := idx._n_nodes
		idx._n_nodes++
		threadedBuildPolicy.UnlockNNodes()
''','''		item := idx.takeNode(threadedBuildPolicy)
'''),(A,'''	idx.buildPolicy.LockNNodes()
	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
	item := idx._n_nodes
	idx._n_nodes++
	idx.buildPolicy.UnlockNNodes()
''','''	item := idx.takeNode(idx.buildPolicy)
'''),(A,'''func (idx *AnnoyIndexImpl[TV, TIX]) splitImbalance(''','''// takeNode takes the next free node.
func (idx *AnnoyIndexImpl[TV, TIX]) takeNode(pol interfaces.AnnoyIndexBuildPolicy) TIX {
	pol.LockNNodes()
	defer pol.UnlockNNodes()

	idx.allocateSize(idx._n_nodes+1, pol)

	item := idx._n_nodes
	idx._n_nodes = item + 1

	return item
}

func (idx *AnnoyIndexImpl[TV, TIX]) splitImbalance(''')]),
 dict(id='leaf', props='C03 C05', edits=[(A,'''		// Ensure we have memory for the new node
		threadedBuildPolicy.LockNNodes()''','''		return idx.makeLeaf(indices, isRoot, threadedBuildPolicy)
	}

	threadedBuildPolicy.LockSharedNodes()
@@MID@@
func (idx *AnnoyIndexImpl[TV, TIX]) makeLeaf(
	indices []TIX, isRoot bool,
	threadedBuildPolicy interfaces.AnnoyIndexBuildPolicy,
) TIX {
		lenIdx := TIX(len(indices))
		// Ensure we have memory for the new node
		threadedBuildPolicy.LockNNodes()''')], special='leaf'),
 dict(id='present', props='C03 C05', edits=[(A,'''		var indices []TIX

		threadedBuildPolicy.LockSharedNodes()

		for i := TIX(0); i < idx._n_items; i++ {
			node := idx.getNode(i)

			if node.GetNumberOfDescendants() >= 1 {
				indices = append(indices, i)
			}
		}

		threadedBuildPolicy.UnlockSharedNodes()
''','''		indices := idx.presentItems(threadedBuildPolicy)
'''),(A,'''func (idx *AnnoyIndexImpl[TV, TIX]) getNode(''','''func (idx *AnnoyIndexImpl[TV, TIX]) presentItems(pol interfaces.AnnoyIndexBuildPolicy) []TIX {
	var indices []TIX

	pol.LockSharedNodes()

	for i := TIX(0); i < idx._n_items; i++ {
		node := idx.getNode(i)

		if node.GetNumberOfDescendants() >= 1 {
			indices = append(indices, i)
		}
	}

	pol.UnlockSharedNodes()

	return indices
}

func (idx *AnnoyIndexImpl[TV, TIX]) getNode(''')]),
 dict(id='presentc', props='C03', edits=[(A,'''			if node.GetNumberOfDescendants() >= 1 {
				indices = append(indices, i)
			}
''','''			if node.GetNumberOfDescendants() == 0 {
				continue
			}

			indices = append(indices, i)
''')]),
 dict(id='stop', props='C03 C04 C05', edits=[(A,'''			threadedBuildPolicy.LockNNodes()
			if idx._n_nodes >= 2*idx._n_items {
				threadedBuildPolicy.UnlockNNodes()
				break
			}
			threadedBuildPolicy.UnlockNNodes()
		} else {
			if len(threadRoots) >= treesPerWorker {
				break
			}
		}
''','''			threadedBuildPolicy.LockNNodes()
			done := idx._n_nodes >= 2*idx._n_items
			threadedBuildPolicy.UnlockNNodes()

			if done {
				break
			}
		} else if len(threadRoots) >= treesPerWorker {
			break
		}
''')]),
 dict(id='desc', props='C03 C08', edits=[(A,'''	if isRoot {
		m.SetNumberOfDescendants(idx._n_items)
	} else {
		m.SetNumberOfDescendants(TIX(len(indices)))
	}
''','''	nDescendants := lenIdx
	if isRoot {
		nDescendants = idx._n_items
	}
	m.SetNumberOfDescendants(nDescendants)
''')]),
 dict(id='children', props='C03 C08', edits=[(A,'''	var children []interfaces.Node[TV, TIX]

	for _, j := range indices {
		// TODO: original code did a check: Node* n = _get(j); if (n) {...}
		n := idx.getNode(j)
		children = append(children, n)
	}
''','''	children := make([]interfaces.Node[TV, TIX], 0, len(indices))

	for i := range indices {
		children = append(children, idx.getNode(indices[i]))
	}
''')]),
 dict(id='children2', props='C03 C08', edits=[(A,'''	var children []interfaces.Node[TV, TIX]

	for _, j := range indices {
		// TODO: original code did a check: Node* n = _get(j); if (n) {...}
		n := idx.getNode(j)
		children = append(children, n)
	}
''','''	children := make([]interfaces.Node[TV, TIX], len(indices))

	for i, j := range indices {
		children[i] = idx.getNode(j)
	}
''')]),
 dict(id='random', props='C03', edits=[(A,'''	for {
		if idx.splitImbalance(
			children_indices[interfaces.SideLeft],
			children_indices[interfaces.SideRight]) <= 0.99 {
			break
		}

''','''	for !(idx.splitImbalance(
		children_indices[interfaces.SideLeft],
		children_indices[interfaces.SideRight]) <= 0.99) {
''')]),
 dict(id='flip', props='C03 C08', edits=[(A,'''	for side := 0; side < 2; side++ {
		// run makeTree for the smallest child first (for cache locality)
		flip_side := side ^ flip

		child_first[flip_side] = idx.makeTree(
			children_indices[flip_side],
			false,
			rnd,
			threadedBuildPolicy,
		)
	}
''','''	// run makeTree for the smallest child first (for cache locality)
	child_first[flip] = idx.makeTree(children_indices[flip], false, rnd, threadedBuildPolicy)
	child_first[1-flip] = idx.makeTree(children_indices[1-flip], false, rnd, threadedBuildPolicy)
''')]),
 dict(id='budget', props='C06 C07', edits=[(S,'''	if numNodesToInspect == -1 {
		numNodesToInspect = math.MaxInt

		if numRoots := len(idx._roots); numRoots == 0 || numReturn <= math.MaxInt/numRoots {
			numNodesToInspect = numReturn * numRoots
		}
	}
''','''	if numNodesToInspect == -1 {
		numNodesToInspect = idx.budget(numReturn)
	}
'''),(S,'''// GetNnsByVector will search''','''// budget returns the default number of candidates to inspect.
func (idx *AnnoyIndexImpl[TV, TIX]) budget(numReturn int) int {
	numRoots := len(idx._roots)

	if numRoots != 0 && numReturn > math.MaxInt/numRoots {
		return math.MaxInt
	}

	return numReturn * numRoots
}

// GetNnsByVector will search''')]),
 dict(id='leafcopy', props='C06 C07', edits=[(S,'''			if len(dst) == int(nDescendants) {
				copy(bc.nns[cnt:], dst)
			} else {
				copy(bc.nns[cnt:], dst[:nDescendants])
			}
''','''			copy(bc.nns[cnt:], dst)
''')]),
 dict(id='middle', props='C06 C07', edits=[(S,'''	var middle int
	if numReturn < cnt {
		middle = numReturn
	} else {
		middle = cnt
	}
''','''	middle := cnt
	if numReturn < middle {
		middle = numReturn
	}
''')]),
 dict(id='cand', props='C06 C07', edits=[(S,'''	var nns_dist []*interfaces.Pair[TV, TIX]
	if cnt < len(nns) {
		nns_dist = bc.nns_dist[:cnt]
	} else {
		nns_dist = bc.nns_dist[:len(nns)]
	}
''','''	nns_dist := bc.nns_dist[:cnt]
''')]),
 dict(id='dedup', props='C06 C07 C09', edits=[(S,'''	var (
		lastset bool
		last    TIX
	)

''',''''''),(S,'''		if lastset && j == last {
			continue
		}

		last = j
		lastset = true
''','''		if i > 0 && j == nns[i-1] {
			continue
		}

''')]),
 dict(id='popnext', props='C06 C08', edits=[(S,'''		top := q.Top()

		// The queue yields the smallest first, hence it is keyed by the negated priority.
		d := -top.First
		i := top.Second
		nd := idx.distance.MapNodeToMemory(idx._nodes, i)

		q.Pop()
''','''		top := q.Pop()

		// The queue yields the smallest first, hence it is keyed by the negated priority.
		d := -top.First
		i := top.Second
		nd := idx.getNode(i)
''')]),
 dict(id='results', props='C06 C09', edits=[(S,'''	for i := 0; i < middle; i++ {
		distances = append(distances, idx.distance.NormalizedDistance(nns_dist[i].First))
		result = append(result, nns_dist[i].Second)
	}
''','''	for _, pair := range nns_dist[:middle] {
		result = append(result, pair.Second)
		distances = append(distances, idx.distance.NormalizedDistance(pair.First))
	}
''')]),
 dict(id='share', props='C04', edits=[('index/policy/index_policy_multi.go','''			numTreesPerWorker = int(math.Floor(float64(numberOfTrees+workerIdx) / float64(numberOfWorkers)))
''','''			numTreesPerWorker = (numberOfTrees + workerIdx) / numberOfWorkers
'''),('index/policy/index_policy_multi.go','''	"math"
''','')]),
 dict(id='add1', props='C04', edits=[('index/policy/index_policy_multi.go','''	wg.Add(numberOfWorkers)
''',''),('index/policy/index_policy_multi.go','''		go func(''','''		wg.Add(1)

		go func(''')]),
 dict(id='loadloop', props='C10 C11', edits=[(IO,'''		if !mset || k == m {
			idx._roots = append(idx._roots, i-1)
			m = k
			mset = true
		} else {
			break
		}
''','''		if mset && k != m {
			break
		}

		m, mset = k, true
		idx._roots = append(idx._roots, i-1)
''')]),
 dict(id='loadsize', props='C10 C11', edits=[(IO,'''	if idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
		idx.Close()

		return fmt.Errorf("file size is not a multiple of node size")
	}

	idx._nodes = idx.indexMemory.Ptr()
	idx._roots = nil
	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
''','''	size, nodeSize := idx.indexMemory.Size(), int64(idx.nodeSize)

	if size%nodeSize != 0 {
		idx.Close()

		return fmt.Errorf("file size is not a multiple of node size")
	}

	idx._n_nodes = TIX(size / nodeSize)
	idx._nodes = idx.indexMemory.Ptr()
	idx._roots = nil
''')]),
 dict(id='write', props='C10 C11', edits=[(IO,'''	_, err = file.Write(data)

	if err != nil {
		return err
	}
''','''	if _, err := file.Write(data); err != nil {
		return err
	}
''')]),
 dict(id='savehelper', props='C10 C11', edits=[(IO,'''	// Never truncate an existing file, it may be the one that is currently mapped.
	if err := os.Remove(fileName); err != nil && !os.IsNotExist(err) {
		return err
	}

	file, err := os.Create(fileName)
	if err != nil {
		return err
	}
''','''	file, err := createFile(fileName)
	if err != nil {
		return err
	}
'''),(IO,'''func (idx *AnnoyIndexImpl[TV, TIX]) Load''','''func createFile(fileName string) (*os.File, error) {
	// Never truncate an existing file, it may be the one that is currently mapped.
	if err := os.Remove(fileName); err != nil && !os.IsNotExist(err) {
		return nil, err
	}

	return os.Create(fileName)
}

func (idx *AnnoyIndexImpl[TV, TIX]) Load''')]),
 dict(id='close', props='C01 C11', edits=[(A,'''	idx._nodes = nil
	idx.indexLoaded = false
	idx.indexBuilt = false
	idx.batchMaxNNS = 0
	idx._n_items = 0
	idx._n_nodes = 0
	idx._nodes_size = 0
	idx.random = idx.random.CloneAndReset()
	idx._roots = nil

	return err
''','''	idx.reset()

	return err
'''),(A,'''// VectorLength returns''','''func (idx *AnnoyIndexImpl[TV, TIX]) reset() {
	idx._roots = nil
	idx._nodes = nil
	idx.indexLoaded, idx.indexBuilt = false, false
	idx._n_items, idx._n_nodes, idx._nodes_size = 0, 0, 0
	idx.batchMaxNNS = 0
	idx.random = idx.random.CloneAndReset()
}

// VectorLength returns''')]),
 dict(id='alloc', props='C01 C02 C05', edits=[(A,'''	if numNodes > idx._nodes_size {

		if threadedBuildPolicy != nil {
			threadedBuildPolicy.LockNodes()
		}

		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
		idx._nodes_size = new_node_size

		if threadedBuildPolicy != nil {
			threadedBuildPolicy.UnlockNodes()
		}
	}
''','''	if numNodes <= idx._nodes_size {
		return
	}

	if threadedBuildPolicy != nil {
		threadedBuildPolicy.LockNodes()
		defer threadedBuildPolicy.UnlockNodes()
	}

	size := TIX(float64(idx._nodes_size+1) * reallocation_factor)
	if size < numNodes {
		size = numNodes
	}

	idx._nodes = idx.allocator.Reallocate(int(size) * int(idx.nodeSize))
	idx._nodes_size = size
''')]),
 dict(id='realloc', props='C01 C17', edits=[('index/memory/gc_index_build_allocator.go','''		// Copy the memory from old arena to new arena
		if a.is64 {
			copy((*[1 << 49]byte)(ptr)[:a.ptrSize], (*[1 << 49]byte)(a.ptr)[:a.ptrSize])
		} else {
			copy((*[1 << 31]byte)(ptr)[:a.ptrSize], (*[1 << 31]byte)(a.ptr)[:a.ptrSize])
		}
''','''		// Copy the memory from old arena to new arena
		copy(data, a.memory)
''')]),
 dict(id='openhelper', props='C17 C10', edits=[('index/memory/index_allocator_gcmem.go','''	data := make([]byte, fileInfo.Size())

	var bytesRead int64

	for bytesRead < fileInfo.Size() {
		n, err := io.ReadFull(file, data[bytesRead:])
		if err != nil && err != io.ErrUnexpectedEOF {
			return nil, err
		}
		bytesRead += int64(n)
	}

	if err != nil {
		file.Close()
		return nil, err
	}
''','''	data := make([]byte, fileInfo.Size())

	if _, err := io.ReadFull(file, data); err != nil {
		return nil, err
	}
''')]),
 dict(id='pss', props='C12', edits=[('sort/partial_sort.go','''		minIndex := begin + i

		// Find the index of the smallest element in the unsorted part
		for j := begin + i + 1; j < end; j++ {
			if s[j].Less(s[minIndex]) {
				minIndex = j
			}
		}

		// Swap elements
		if minIndex != begin+i {
			s[begin+i], s[minIndex] = s[minIndex], s[begin+i]
		}
''','''		minIndex := smallest(s, begin+i, end)

		// Swap elements
		s[begin+i], s[minIndex] = s[minIndex], s[begin+i]
'''),('sort/partial_sort.go','''func PartialSortSlice2''','''// smallest finds the index of the smallest element in [from, end)
func smallest[TV interfaces.VectorType, TIX interfaces.IndexTypes](s interfaces.Pairs[TV, TIX], from, end int) int {
	minIndex := from

	for j := from + 1; j < end; j++ {
		if s[j].Less(s[minIndex]) {
			minIndex = j
		}
	}

	return minIndex
}

func PartialSortSlice2''')]),
 dict(id='pssswap', props='C12', edits=[('sort/partial_sort.go','''		// Swap elements
		if minIndex != begin+i {
			s[begin+i], s[minIndex] = s[minIndex], s[begin+i]
		}
''','''		s.Swap(begin+i, minIndex)
''')]),
 dict(id='heapify', props='C12', edits=[('sort/sort.go','''	if right < n && arr.Less(largest, right) {
		largest = right
	}

	if largest != i {
		arr.Swap(i, largest)
		heapify(arr, n, largest)
	}
''','''	if right < n && arr.Less(largest, right) {
		largest = right
	}

	if largest == i {
		return
	}

	arr.Swap(i, largest)
	heapify(arr, n, largest)
''')]),
 dict(id='heapifyloop', props='C12', edits=[('sort/sort.go','''	largest := i
	left := 2*i + 1
	right := 2*i + 2

	if left < n && arr.Less(largest, left) {
		largest = left
	}

	if right < n && arr.Less(largest, right) {
		largest = right
	}

	if largest != i {
		arr.Swap(i, largest)
		heapify(arr, n, largest)
	}
''','''	for {
		largest := i
		left := 2*i + 1
		right := 2*i + 2

		if left < n && arr.Less(largest, left) {
			largest = left
		}

		if right < n && arr.Less(largest, right) {
			largest = right
		}

		if largest == i {
			return
		}

		arr.Swap(i, largest)
		i = largest
	}
''')]),
 dict(id='dotrange', props='C18 C14', edits=[('vector/dot.go','''	for i := TIX(0); i < vectorLength; i++ {
		a := *(*TV)(unsafe.Pointer(unsafe.Add(a_ptr, i*size)))
		b := *(*TV)(unsafe.Pointer(unsafe.Add(b_ptr, i*size)))
		sum += a * b
	}
''','''	for i := vectorLength; i > 0; i-- {
		sum += *(*TV)(a_ptr) * *(*TV)(b_ptr)
		a_ptr = unsafe.Add(a_ptr, size)
		b_ptr = unsafe.Add(b_ptr, size)
	}
''')]),
 dict(id='dotslice', props='C18 C14', edits=[('vector/dot.go','''	a_ptr := unsafe.Pointer(a)
	b_ptr := unsafe.Pointer(b)
	size := TIX(unsafe.Sizeof(TV(0)))

	var sum TV

	for i := TIX(0); i < vectorLength; i++ {
		a := *(*TV)(unsafe.Pointer(unsafe.Add(a_ptr, i*size)))
		b := *(*TV)(unsafe.Pointer(unsafe.Add(b_ptr, i*size)))
		sum += a * b
	}

	return sum
''','''	return Dot(unsafe.Slice(a, vectorLength), unsafe.Slice(b, vectorLength), vectorLength)
'''),('vector/dot.go','''	"unsafe"
''','''	"unsafe"
''')]),
 dict(id='manh', props='C18', edits=[('vector/manhattan_distance.go','''	for i := TIX(0); i < vectorLength; i++ {
		sum += Abs(a[i] - b[i])
	}
''','''	for i, x := range a[:vectorLength] {
		sum += Abs(x - b[i])
	}
''')]),
 dict(id='angdist', props='C14 C06', edits=[('distance/angular/distance.go','''	if ppqq > 0 {
		pq := vector.DotUnsafe(xv, yv, a.vectorLength)
		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
	}
	return 2.0
''','''	if !(ppqq > 0) {
		return 2.0
	}

	return 2.0 - 2.0*vector.DotUnsafe(xv, yv, a.vectorLength)/TV(math.Sqrt(float64(ppqq)))
''')]),
 dict(id='angnorm', props='C14 C06', edits=[('distance/angular/distance.go','''	pp := x.GetNorm()
	qq := y.GetNorm()
	xv := x.GetRawVector()
	yv := y.GetRawVector()

	if pp == 0 {
		pp = vector.DotUnsafe(xv, xv, a.vectorLength)
	}

	if qq == 0 {
		qq = vector.DotUnsafe(yv, yv, a.vectorLength)
	}
''','''	pp := a.squaredNorm(x)
	qq := a.squaredNorm(y)
	xv := x.GetRawVector()
	yv := y.GetRawVector()
'''),('distance/angular/distance.go','''func (a *angularDistanceImpl[TV, TIX]) Margin(''','''func (a *angularDistanceImpl[TV, TIX]) squaredNorm(n interfaces.Node[TV, TIX]) TV {
	if norm := n.GetNorm(); norm != 0 {
		return norm
	}

	v := n.GetRawVector()

	return vector.DotUnsafe(v, v, a.vectorLength)
}

func (a *angularDistanceImpl[TV, TIX]) Margin(''')]),
 dict(id='side', props='C14 C08', edits=[('distance/angular/distance.go','''	if dot != 0 {
		if dot > 0 {
			return interfaces.SideRight
		} else {
			return interfaces.SideLeft
		}
	}

	return random.NextSide()
''','''	switch {
	case dot == 0:
		return random.NextSide()
	case dot > 0:
		return interfaces.SideRight
	default:
		return interfaces.SideLeft
	}
''')]),
 dict(id='setvector', props='C02 C01', edits=[('distance/angular/node.go','''	dst := unsafe.Pointer(&n.v)
	src := unsafe.Pointer(unsafe.SliceData(v))
	size := uintptr(len(v)) * unsafe.Sizeof(TV(0))

	copy((*[1 << 30]byte)(dst)[:size], (*[1 << 30]byte)(src)[:size])
''','''	copy(unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), len(v)), v)
''')]),
 dict(id='setchildren', props='C02 C03', edits=[('distance/angular/node.go','''	dst := unsafe.Pointer(&n.children)
	src := unsafe.Pointer(unsafe.SliceData(children))
	size := uintptr(len(children)) * unsafe.Sizeof(n.children[0])

	copy((*[1 << 30]byte)(dst)[:size], (*[1 << 30]byte)(src)[:size])
''','''	copy(unsafe.Slice(n.GetRawChildren(), len(children)), children)
''')]),
 dict(id='normalize', props='C14', edits=[('distance/angular/distance.go','''	if norm > 0 {
		ptr := unsafe.Pointer(raw)
		size := TIX(unsafe.Sizeof(TV(0)))

		for i := TIX(0); i < a.vectorLength; i++ {
			f := (*TV)(unsafe.Pointer(unsafe.Add(ptr, i*size)))
			*f /= norm
		}
	}
''','''	if !(norm > 0) {
		return
	}

	v := unsafe.Slice(raw, a.vectorLength)

	for i := range v {
		v[i] /= norm
	}
''')]),
 dict(id='kiss', props='C16', edits=[('random/kiss32random.go','''	r.y ^= r.y << 13
	r.y ^= r.y >> 17
	r.y ^= r.y << 5
''','''	y := r.y
	y ^= y << 13
	y ^= y >> 17
	y ^= y << 5
	r.y = y
''')]),
 dict(id='copynode', props='C02 C03', edits=[('utils/node.go','''	ptrSrc := GetPtr(src)
	ptrDst := GetPtr(dst)

	// Copy the memory from the source to the destination.
	copy((*[1 << 30]byte)(ptrDst)[:size], (*[1 << 30]byte)(ptrSrc)[:size])
''','''	// Copy the memory from the source to the destination.
	copy(unsafe.Slice((*byte)(GetPtr(dst)), size), unsafe.Slice((*byte)(GetPtr(src)), size))
''')]),
 dict(id='inter', props='C18', edits=[('utils/math.go','''		if a[i] < b[j] {
			i++
		} else if a[i] > b[j] {
			j++
		} else {
			intersection[k] = a[i]
			i++
			j++
			k++
		}
''','''		switch x, y := a[i], b[j]; {
		case x < y:
			i++
		case x > y:
			j++
		default:
			intersection[k] = x
			i, j, k = i+1, j+1, k+1
		}
''')]),
 dict(id='queue', props='C13 C06', edits=[('sort/priority_queue.go','''	if pq.Len() == 0 {
		return nil
	}
	return pq.pq[0]
''','''	if !pq.Empty() {
		return pq.pq[0]
	}

	return nil
''')]),
]
