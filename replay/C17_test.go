package zzverif

import (
	"bytes"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

// TestReplayBuild grows build memory in many ways.
func TestReplayBuild(t *testing.T) {
	r := rng()
	for round := 0; round < 400; round++ {
		var a interfaces.BuildIndexAllocator = memory.GoGCIndexAllocator()
		var want []byte // what the memory has to hold
		var last unsafe.Pointer
		var hist []int
		for k := 0; k < 12; k++ {
			n := r.Intn(300)
			if r.Intn(4) == 0 {
				n = r.Intn(70000)
			}
			switch r.Intn(12) {
			case 0:
				n = len(want)
			case 1:
				a.Free()
				want, last = nil, nil
				hist = append(hist, -1)
				continue
			}
			hist = append(hist, n)
			var p unsafe.Pointer
			try(t, "Reallocate", func() { p = a.Reallocate(n) })
			if p == nil {
				fail(t, "Reallocate sequence %v gives nil", hist)
			}
			if n < len(want) && last != nil && p != last {
				fail(t, "Reallocate sequence %v: a smaller request moved the memory", hist)
			}
			if n > len(want) {
				want = append(want, make([]byte, n-len(want))...)
			}
			if !bytes.Equal(unsafe.Slice((*byte)(p), len(want)), want) {
				fail(t, "Reallocate sequence %v (-1: Free): the contents are not kept, or new memory is not zero", hist)
			}
			got := unsafe.Slice((*byte)(p), len(want))
			for i := range got {
				got[i] = byte(r.Intn(255) + 1)
			}
			copy(want, got)
			last = p
		}
	}
}

func fds(t *testing.T) int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	return len(e)
}

func maps(t *testing.T, dir string) int {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		t.Skip(err)
	}
	return strings.Count(string(b), dir)
}

// TestReplayFiles opens, finds and closes files.
func TestReplayFiles(t *testing.T) {
	mk := map[string]func() interfaces.IndexAllocator{
		"mmap": func() interfaces.IndexAllocator { return memory.MmapIndexAllocator() },
		"file": func() interfaces.IndexAllocator { return memory.FileIndexMemoryAllocator() },
	}
	for _, kind := range []string{"mmap", "file"} {
		r := mrand.New(mrand.NewSource(seed()))
		dir := t.TempDir()
		al := mk[kind]()
		files := map[string][]byte{}
		var names []string
		for i, n := range []int{1, 7, 511, 4095, 4096, 4097, 65536, 1<<20 + 13, 5 << 20} {
			b := make([]byte, n)
			r.Read(b)
			name := filepath.Join(dir, string(rune('a'+i)))
			if err := os.WriteFile(name, b, 0o600); err != nil {
				t.Fatal(err)
			}
			files[name] = b
			names = append(names, name)
		}
		type opened struct {
			name string
			a    interfaces.AllocatedIndex
			b    []byte
		}
		var open []opened
		newest := map[string]interfaces.AllocatedIndex{}
		base, mbase := fds(t), maps(t, dir)
		check := func(what string) {
			t.Helper()
			per := 0
			if kind == "mmap" {
				per = 1
			}
			if d := fds(t) - base; d > per*len(open) {
				fail(t, "%s: after %s %d more descriptors are open, %d files are", kind, what, d, len(open))
			}
			if d := maps(t, dir) - mbase; d > len(open) {
				fail(t, "%s: after %s %d more mappings exist, %d files are open", kind, what, d, len(open))
			}
			for _, o := range open {
				b := o.b
				if o.a.Size() != int64(len(b)) {
					fail(t, "%s: after %s the size of a file of %d bytes is %d", kind, what, len(b), o.a.Size())
				}
				if o.a.Ptr() == nil || !bytes.Equal(unsafe.Slice((*byte)(o.a.Ptr()), len(b)), b) {
					fail(t, "%s: after %s the memory of a file of %d bytes is not the file", kind, what, len(b))
				}
			}
			for _, n := range names {
				got, ok := al.Get(n)
				if want, has := newest[n]; ok != has || has && got != want {
					fail(t, "%s: after %s Get(%s) gives %v, the file is open: %v (the newest is found: %v)", kind, what, filepath.Base(n), ok, has, ok && got == want)
				}
			}
		}
		for k := 0; k < 120; k++ {
			if r.Intn(3) > 0 || len(open) == 0 {
				n := names[r.Intn(len(names))]
				var a interfaces.AllocatedIndex
				var err error
				try(t, kind+" Open", func() { a, err = al.Open(n) })
				if err != nil {
					fail(t, "%s: Open of a file with %d bytes: %v", kind, len(files[n]), err)
				}
				open = append(open, opened{n, a, files[n]})
				newest[n] = a
				check("Open " + filepath.Base(n))
			} else {
				i := r.Intn(len(open))
				o := open[i]
				var err error
				try(t, kind+" Close", func() { err = o.a.Close() })
				if err != nil {
					fail(t, "%s: Close: %v", kind, err)
				}
				open = append(open[:i], open[i+1:]...)
				if newest[o.name] == o.a {
					delete(newest, o.name)
				}
				if o.a.Ptr() != nil {
					fail(t, "%s: a closed file still has memory", kind)
				}
				check("Close " + filepath.Base(o.name))
				// closing again does no harm
				try(t, kind+" Close again", func() { err = o.a.Close() })
				if err != nil {
					fail(t, "%s: second Close: %v", kind, err)
				}
				check("second Close " + filepath.Base(o.name))
			}
			if k%5 == 0 {
				// another file takes over the name
				n := names[r.Intn(len(names))]
				b := make([]byte, len(files[n]))
				r.Read(b)
				os.Remove(n)
				if err := os.WriteFile(n, b, 0o600); err != nil {
					t.Fatal(err)
				}
				files[n] = b
			}
			if k%7 == 0 {
				// what cannot be opened
				empty := filepath.Join(dir, "empty")
				os.WriteFile(empty, nil, 0o600)
				for _, bad := range []string{filepath.Join(dir, "missing"), empty, dir} {
					var a interfaces.AllocatedIndex
					var err error
					try(t, kind+" Open "+filepath.Base(bad), func() { a, err = al.Open(bad) })
					if err == nil {
						fail(t, "%s: Open of %s succeeds", kind, filepath.Base(bad))
					}
					if a != nil {
						fail(t, "%s: a failed Open of %s gives an index", kind, filepath.Base(bad))
					}
					if _, ok := al.Get(bad); ok {
						fail(t, "%s: %s is found although it could not be opened", kind, filepath.Base(bad))
					}
					check("failed Open of " + filepath.Base(bad))
				}
			}
		}
	}
}
