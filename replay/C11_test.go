package zzverif

import (
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
)


// open counts the files of the folder this process has open or mapped.
func open(dir string) (n int) {
	runtime.GC()
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			n++
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, dir) {
			n++
		}
	}
	return
}

// state is everything that can be seen of an index.
func (w *world[TV, TIX]) state() string {
	var s strings.Builder
	for _, f := range []string{"_n_items", "_n_nodes", "_nodes_size", "_nodes", "_roots", "batchMaxNNS", "indexLoaded", "indexBuilt"} {
		v := priv(w.idx, f)
		s.WriteString(f + " ")
		switch v.Kind() {
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				s.WriteString(" " + itoa(v.Index(i).Uint()))
			}
		case reflect.Bool:
			if v.Bool() {
				s.WriteString("yes")
			}
		case reflect.Int:
			s.WriteString(itoa(uint64(v.Int())))
		case reflect.UnsafePointer:
			s.WriteString(itoa(uint64(v.Pointer())))
		default:
			s.WriteString(itoa(v.Uint()))
		}
		s.WriteString("; ")
	}
	if w.g.buf != nil {
		s.Write(w.g.bytes())
	}
	return s.String()
}

func itoa(n uint64) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func (w *world[TV, TIX]) refused(what string, f func()) {
	w.t.Helper()
	s := w.state()
	if !panics(f) {
		fail(w.t, "%s: %s is not refused", w.desc, what)
	}
	if w.state() != s {
		fail(w.t, "%s: %s is refused but changes the index", w.desc, what)
	}
}

// empty checks that the index has nothing, and that it can be filled and built.
func (w *world[TV, TIX]) empty(what, dir string, base int) {
	w.t.Helper()
	for _, f := range []string{"_n_items", "_n_nodes", "_nodes_size"} {
		if k := priv(w.idx, f).Uint(); k != 0 {
			fail(w.t, "%s: %s: %s is %d", w.desc, what, f, k)
		}
	}
	for _, f := range []string{"indexLoaded", "indexBuilt"} {
		if priv(w.idx, f).Bool() {
			fail(w.t, "%s: %s: %s is set", w.desc, what, f)
		}
	}
	if k := priv(w.idx, "_roots").Len(); k != 0 {
		fail(w.t, "%s: %s: %d roots are left", w.desc, what, k)
	}
	if k := open(dir); k != base {
		fail(w.t, "%s: %s: %d files or mappings are still open", w.desc, what, k-base)
	}
}

func c11[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T, r *mrand.Rand, rounds int) {
	for z := 0; z < rounds; z++ {
		kind := kinds[r.Intn(2)]
		n := []int{1, 2, 3, 9}[r.Intn(4)]
		w := newWorld[TV, TIX](t, kind, n, r.Intn(2) == 0, r.Intn(2) == 0, uint64(1+r.Intn(1000)))
		dir := t.TempDir()
		name := filepath.Join(dir, "x.ann")
		m := []int{1, 2, 5, 60}[r.Intn(4)]
		wrong := func(what string) {
			for _, k := range []int{0, n - 1, n + 1, 3 * n, 100} {
				if k == n || k < 0 {
					continue
				}
				v := rvec[TV](r, k)
				w.refused(what+": adding a vector of another length", func() { w.idx.AddItem(TIX(m), v) })
				w.refused(what+": a query of another length", func() { w.idx.GetNnsByVector(v, 3, -1, w.idx.CreateContext()) })
			}
		}
		notBuilt := func(what string) {
			old := []byte("as it was")
			_ = os.WriteFile(name, old, 0o600)
			s := w.state()
			var err error
			try(t, w.desc+" Save", func() { err = w.idx.Save(name) })
			if b, _ := os.ReadFile(name); err == nil || string(b) != string(old) || w.state() != s {
				fail(t, "%s: %s: saving what is not built gives %v and leaves %d bytes in the file, index changed: %v", w.desc, what, err, len(b), w.state() != s)
			}
			_ = os.Remove(name)
		}
		closed := func(what string) {
			var err error
			try(t, w.desc+" Close", func() { err = w.idx.Close() })
			if err != nil {
				fail(t, "%s: %s: Close returns %v", w.desc, what, err)
			}
			w.empty(what+", closed", dir, 0)
		}
		failed := func(what, name string) {
			var err error
			try(t, w.desc+" Load", func() { err = w.idx.Load(name) })
			if err == nil {
				fail(t, "%s: %s: loading gives no error", w.desc, what)
			}
			w.empty(what+", failed load", dir, 0)
			notBuilt(what + ", failed load")
			wrong(what + ", failed load")
		}
		frozen := func(what string) {
			v := rvec[TV](r, n)
			w.refused(what+": AddItem", func() { w.idx.AddItem(TIX(r.Intn(m+3)), v) })
			w.refused(what+": Build", func() { w.idx.Build(r.Intn(3), r.Intn(3)) })
			wrong(what)
		}
		wrong("new")
		notBuilt("new")
		if r.Intn(2) == 0 {
			closed("new")
			closed("closed")
		}
		w.fill(r, m, "", false)
		wrong("filled")
		notBuilt("filled")
		try(t, w.desc+" Build", func() { w.idx.Build(1+r.Intn(3), r.Intn(3)) })
		frozen("built")
		w.exhaustive("built and teased", w.query(r))
		// files that cannot be loaded
		size := int(w.d.NodeSize())
		bads := map[string][]byte{"no file": nil, "empty file": {}, "one byte": {1}, "one byte too many": make([]byte, 3*size+1), "one byte too few": make([]byte, 3*size-1)}
		for what, b := range bads {
			bad := filepath.Join(dir, "bad")
			_ = os.Remove(bad)
			if b != nil {
				_ = os.WriteFile(bad, b, 0o600)
			}
			s := []string{"built", "empty", "loaded"}[r.Intn(3)]
			w.items = map[TIX][]TV{}
			closed("before " + what)
			if s != "empty" {
				w.fill(r, m, "", false)
				try(t, w.desc+" Build", func() { w.idx.Build(1+r.Intn(2), 1) })
			}
			if s == "loaded" {
				if err := w.idx.Save(name); err != nil {
					fail(t, "%s: cannot save: %v", w.desc, err)
				}
				frozen("loaded")
				w.exhaustive("loaded and teased", w.query(r))
			}
			failed(s+", "+what, bad)
			if r.Intn(2) == 0 {
				failed(s+", a folder", dir)
			}
			if r.Intn(2) == 0 { // and on it goes
				w.items = map[TIX][]TV{}
				w.fill(r, m, "", false)
				try(t, w.desc+" Build", func() { w.idx.Build(1, 1) })
				w.exhaustive("built after a failed load", w.query(r))
				if err := w.idx.Save(name); err != nil {
					fail(t, "%s: cannot save after a failed load: %v", w.desc, err)
				}
			}
		}
		closed("at the end")
		closed("at the end")
	}
}

func TestReplayC11(t *testing.T) {
	r := rng()
	for k := 0; k < 4; k++ {
		c11[float32, uint32](t, r, 6)
		c11[float64, uint64](t, r, 6)
		c11[float32, uint64](t, r, 3)
		c11[float64, uint32](t, r, 3)
	}
}
