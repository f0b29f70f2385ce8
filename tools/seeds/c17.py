HEAD = '''package zzdemo

import (
	"bytes"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

var _ = bytes.Equal
var _ = rand.Intn
var _ = os.Open
var _ = filepath.Join
var _ = unsafe.Pointer(nil)
var _ = memory.MmapIndexAllocator
var _ interfaces.AllocatedIndex

'''
SEEDS = [
 dict(id='c17-grow', property='C17', file='index/memory/gc_index_build_allocator.go',
  old='''			copy((*[1 << 49]byte)(ptr)[:a.ptrSize], (*[1 << 49]byte)(a.ptr)[:a.ptrSize])
		} else {''', new='''			words := a.ptrSize / 8
			if words > 1024 {
				// move words, that is faster
				copy((*[1 << 46]uint64)(ptr)[:words], (*[1 << 46]uint64)(a.ptr)[:words])
			} else {
				copy((*[1 << 49]byte)(ptr)[:a.ptrSize], (*[1 << 49]byte)(a.ptr)[:a.ptrSize])
			}
		} else {''',
  needs='growing memory of more than 8 KiB whose size is no multiple of eight',
  breaks='the last bytes of the old memory are lost when the memory grows',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	for _, n := range []int{100, 9000, 9004, 20001} {
		a := memory.GoGCIndexAllocator()
		p := unsafe.Slice((*byte)(a.Reallocate(n)), n)
		rand.New(rand.NewSource(1)).Read(p)
		w := append([]byte(nil), p...)
		if !bytes.Equal(w, unsafe.Slice((*byte)(a.Reallocate(2*n)), n)) {
			t.Fatalf("%d bytes are not kept", n)
		}
	}
}
'''),
 dict(id='c17-name', property='C17', file='index/memory/index_allocator_mmap.go',
  old='''	file, err := os.Open(fqFile)
	if err != nil {
		return nil, err
	}

	stat, err := file.Stat()''', new='''	if mi, ok := mm.indexes[fqFile]; ok && mi.file != nil {
		if fi, err := os.Stat(fqFile); err == nil && fi.Size() == mi.size {
			// mapped already
			return mi, nil
		}
	}

	file, err := os.Open(fqFile)
	if err != nil {
		return nil, err
	}

	stat, err := file.Stat()''',
  needs='a file that is replaced by another one of the same size while it is open, or one of two users of a file closing it',
  breaks='opening an index file gives the bytes of the file that had this name before',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	for name, al := range map[string]interfaces.IndexAllocator{"mmap": memory.MmapIndexAllocator(), "file": memory.FileIndexMemoryAllocator()} {
		f := filepath.Join(t.TempDir(), "x")
		for i := byte(1); i < 4; i++ {
			w := bytes.Repeat([]byte{i}, 5000)
			os.Remove(f)
			if err := os.WriteFile(f, w, 0o600); err != nil {
				t.Fatal(err)
			}
			a, err := al.Open(f)
			if err != nil {
				t.Fatal(err)
			}
			if !bytes.Equal(unsafe.Slice((*byte)(a.Ptr()), 5000), w) {
				t.Fatalf("%s: opening the file the %d. time gives other bytes than it has", name, i)
			}
		}
	}
}
'''),
 dict(id='c17-leak', property='C17', file='index/memory/index_allocator_mmap.go',
  old='''	if err != nil {
		file.Close()
		return nil, err
	}

	mi := &mmapIndexAllocation{''', new='''	if err != nil {
		if size > 0 {
			file.Close()
		}
		return nil, err
	}

	mi := &mmapIndexAllocation{''',
  needs='an empty index file',
  breaks='a failed Open leaves the file open',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x")
	os.WriteFile(f, nil, 0o600)
	n := func() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }
	before := n()
	for i := 0; i < 20; i++ {
		if _, err := memory.MmapIndexAllocator().Open(f); err == nil {
			t.Fatal("no error")
		}
	}
	if k := n() - before; k > 5 {
		t.Fatalf("%d files are still open", k)
	}
}
'''),
 dict(id='c17-tail', property='C17', file='index/memory/index_allocator_gcmem.go',
  old='''		n, err := io.ReadFull(file, data[bytesRead:])''', new='''		part := data[bytesRead:]
		if len(part) > 1<<20 {
			part = part[:1<<20-1] // in parts
			bytesRead++
		}
		n, err := io.ReadFull(file, part)''',
  needs='a file of more than 1 MiB',
  breaks='large files are read to the wrong place',
  demo=HEAD + '''func TestDemo(t *testing.T) {
	for _, n := range []int{3000, 1 << 20, 1<<20 + 1, 3<<20 + 5} {
		w := make([]byte, n)
		rand.New(rand.NewSource(1)).Read(w)
		f := filepath.Join(t.TempDir(), "x")
		os.WriteFile(f, w, 0o600)
		a, err := memory.FileIndexMemoryAllocator().Open(f)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(unsafe.Slice((*byte)(a.Ptr()), n), w) {
			t.Fatalf("a file of %d bytes is not read as it is", n)
		}
	}
}
'''),
]
