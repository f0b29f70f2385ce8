import runpy
HEAD = runpy.run_path('/verif/tools/seeds/c03_c05.py')['HEAD']
A = 'index/annoyindex.go'
IO = 'index/annoyindex_io.go'
SEEDS = [
 dict(id='c10-cache', property='C10', edits=[('index/memory/index_allocator_gcmem.go', '''	data := make([]byte, fileInfo.Size())
''', '''	if fi, ok := mm.indexes[fqFile]; ok && fi.size == fileInfo.Size() {
		// have it already
		return fi, nil
	}

	data := make([]byte, fileInfo.Size())
''')],
  needs='two indexes with one index allocator: one has a file open that the other one saves to, with the same size',
  breaks='the index that was saved goes on with the nodes of the other one',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	l := memory.FileIndexMemoryAllocator()
	name := filepath.Join(t.TempDir(), "a")
	for k := 0; k < 2; k++ {
		x := index.New[float32, uint32](random.NewKiss32Random(uint32(7)), angular.Distance[float32](uint32(3)), policy.SingleWorker(),
			memory.GoGCIndexAllocator(), l, nil, false, 0)
		v := vec(r, 3)
		x.AddItem(0, v)
		x.Build(1, 1)
		if err := x.Save(name); err != nil {
			t.Fatal(err)
		}
		for z, e := range x.GetItem(0) {
			if e != v[z] {
				t.Fatalf("index %d: item 0 is %v after saving, %v was added", k, x.GetItem(0), v)
			}
		}
	}
}
'''),
 dict(id='c10-part', property='C10', edits=[(IO, '''	_, err = file.Write(data)

	if err != nil {
		return err
	}
''', '''	// Write in pieces of whole nodes
	piece := (1 << 16) / int(idx.nodeSize) * int(idx.nodeSize)

	for off := 0; off < len(data); off += piece {
		end := off + piece
		if end+int(idx.nodeSize) >= len(data) {
			end = len(data)
		}

		if _, err = file.Write(data[off:end]); err != nil {
			return err
		}
	}
''')],
  needs='a file of a multiple of about 64 KiB and one node more',
  breaks='the last node is written twice, which makes a tree more or the loaded index different',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	d := angular.Distance[float32](uint32(100))
	for n := uint32(150); n < 160; n++ {
		x := newIndex(100, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
		for i := uint32(0); i < n; i++ {
			x.AddItem(i, vec(r, 100))
		}
		x.Build(1, 1)
		name := filepath.Join(t.TempDir(), "a")
		if err := x.Save(name); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(name)
		s := int(d.NodeSize())
		if k := len(b) / s; string(b[(k-2)*s:(k-1)*s]) == string(b[(k-1)*s:]) && string(b[(k-3)*s:(k-2)*s]) == string(b[(k-1)*s:]) {
			t.Fatalf("%d items: the last node is there three times", n)
		}
	}
}
'''),
 dict(id='c11-count', property='C11', edits=[(A, '''	if int(idx.vectorLength) != len(v) {
''', '''	// Is new spot?
	if itemIndex >= idx._n_items {
		idx._n_items = itemIndex + 1
	}

	if int(idx.vectorLength) != len(v) {
'''), (A, '''	idx.distance.InitNode(node)

	// Is new spot?
	if itemIndex >= idx._n_items {
		idx._n_items = itemIndex + 1
	}
''', '''	idx.distance.InitNode(node)
''')],
  needs='an addition that is refused because of the length of the vector, and going on with the index',
  breaks='a refused addition changes the number of items',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	d := angular.Distance[float32](uint32(6))
	x := newIndex(6, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
	for i := uint32(0); i < 10; i++ {
		x.AddItem(i, vec(r, 6))
	}
	func() {
		defer func() { recover() }()
		x.AddItem(12, vec(r, 5))
	}()
	x.Build(1, 1)
	name := filepath.Join(t.TempDir(), "a")
	if err := x.Save(name); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(name)
	mem := make([]byte, len(b)+4096)
	copy(mem, b)
	last := uint32(len(b))/d.NodeSize() - 1
	if k := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), last).GetNumberOfDescendants(); k != 10 {
		t.Fatalf("the root has %d descendants, 10 items were added", k)
	}
}
'''),
 dict(id='c11-save', property='C11', edits=[(IO, '''	if !idx.indexBuilt {
		return fmt.Errorf("can't save an index that hasn't been built")
	}

''', ''), (IO, '''	defer file.Close()

	if idx.logVerbose {
''', '''	defer file.Close()

	if !idx.indexBuilt {
		return fmt.Errorf("can't save an index that hasn't been built")
	}

	if idx.logVerbose {
''')],
  needs='a file of that name and an index that is not built',
  breaks='saving what is not built is refused, but the file is lost',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := newIndex(6, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
	name := filepath.Join(t.TempDir(), "a")
	os.WriteFile(name, []byte("something"), 0o600)
	if x.Save(name) == nil {
		t.Fatal("not refused")
	}
	if b, _ := os.ReadFile(name); string(b) != "something" {
		t.Fatalf("the file has %q", b)
	}
}
'''),
 dict(id='c11-keep', property='C11', edits=[(IO, '''	idx.Close()

	var err error

	idx.indexMemory, err = idx.indexMemoryAllocator.Open(fileName)

	if err != nil {
		return err
	}
''', '''	indexMemory, err := idx.indexMemoryAllocator.Open(fileName)

	if err != nil {
		return err
	}

	idx.Close()
	idx.indexMemory = indexMemory
''')],
  needs='a load that fails because there is no such file, with an index that is built or loaded',
  breaks='the index stays as it was instead of being empty',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	x := newIndex(6, 3, policy.SingleWorker(), memory.GoGCIndexAllocator())
	x.AddItem(0, vec(r, 6))
	x.Build(1, 1)
	if x.Load(filepath.Join(t.TempDir(), "missing")) == nil {
		t.Fatal("no error")
	}
	x.AddItem(0, vec(r, 6)) // panics if the index is not empty
	x.Build(1, 1)
}
'''),
 dict(id='c11-leak', property='C11', edits=[('index/memory/index_allocator_mmap.go', '''	if err != nil {
		file.Close()
		return nil, err
	}

	mi := ''', '''	if err != nil {
		if size > 0 {
			// an empty file has nothing to release
			file.Close()
		}

		return nil, err
	}

	mi := ''')],
  needs='loading an empty file with the mmap allocator',
  breaks='the file stays open',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	x := index.New[float32, uint32](random.NewKiss32Random(uint32(7)), angular.Distance[float32](uint32(3)), policy.SingleWorker(),
		memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
	name := filepath.Join(t.TempDir(), "a")
	os.WriteFile(name, nil, 0o600)
	n := 0
	for k := 0; k < 5; k++ {
		if x.Load(name) == nil {
			t.Fatal("no error")
		}
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, _ := os.Readlink("/proc/self/fd/" + e.Name()); l == name {
			n++
		}
	}
	if n > 0 {
		t.Fatalf("%d files are still open", n)
	}
}
'''),
]
