package zzverif

import (
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
)

func c02[TV interfaces.VectorType, TIX interfaces.IndexTypes](t *testing.T) {
	r := rng()
	var tv TV
	var ti TIX
	W, WF := unsafe.Sizeof(ti), unsafe.Sizeof(tv)
	for _, kind := range kinds {
		for n := 1; n <= 300; n++ {
			if n > 40 && n%37 != 0 && n != 256 && n != 255 {
				continue
			}
			d := newDist[TV, TIX](kind, n)
			s := uintptr(d.NodeSize())
			const cnt = 7
			total := int(s) * cnt
			keep := make([]uint64, (total+2*pad)/8+1)
			mem := unsafe.Slice((*byte)(unsafe.Pointer(&keep[0])), total+2*pad)
			base := unsafe.Pointer(&mem[pad])
			// layout
			nd := d.MapNodeToMemory(base, 0)
			c := uintptr(unsafe.Pointer(nd.GetRawChildren())) - uintptr(base)
			v := uintptr(unsafe.Pointer(nd.GetRawVector())) - uintptr(base)
			mc := uintptr(d.MaxNumChildren())
			if c < W || v < c+2*W || v+uintptr(n)*WF != s {
				fail(t, "%s length %d: children at %d, vector at %d, node size %d", kind, n, c, v, s)
			}
			if W*mc > s-c || W*(mc+1) <= s-c {
				fail(t, "%s length %d: %d children at %d of a node of %d bytes", kind, n, mc, c, s)
			}
			// addresses, also far beyond 4 GiB
			for _, i := range []uint64{0, 1, 2, 3, 1000, 65535, 1 << 20, 1<<31 - 1, 1<<32 - 1} {
				var b byte
				_ = b
				a := uint64(addr(d.MapNodeToMemory(unsafe.Pointer(nil), TIX(i))))
				if a != i*uint64(s) {
					fail(t, "%s length %d: node %d is at offset %d, expected %d", kind, n, i, a, i*uint64(s))
				}
			}
			type content struct {
				n    TIX
				v    []TV
				norm TV
				ch   []TIX // nil: the bytes hold a norm
			}
			var ns []interfaces.Node[TV, TIX]
			model := make([]content, cnt)
			for i := 0; i < cnt; i++ {
				ns = append(ns, d.MapNodeToMemory(base, TIX(i)))
				model[i].v = make([]TV, n)
			}
			rnd := newRnd[TIX](uint64(n))
			for step := 0; step < 60; step++ {
				i := r.Intn(cnt)
				m := &model[i]
				before := append([]byte(nil), mem...)
				lo, hi := uintptr(i)*s, uintptr(i)*s
				what := ""
				switch op := r.Intn(9); op {
				case 0, 1:
					what = "SetNumberOfDescendants"
					k := TIX(r.Intn(int(mc) + 3))
					if r.Intn(4) == 0 {
						k = TIX(r.Uint64())
					}
					ns[i].SetNumberOfDescendants(k)
					m.n = k
					hi += W
				case 2, 3:
					what = "SetVector"
					x := rvec[TV](r, n)
					ns[i].SetVector(x)
					m.v = append([]TV(nil), x...)
					if len(m.ch) > 2 {
						m.ch = m.ch[:2]
					}
					lo += v
					hi += s
				case 4:
					what = "SetNorm"
					m.norm = TV(r.NormFloat64())
					ns[i].SetNorm(m.norm)
					m.ch = nil
					lo += c
					hi += c + WF
				case 5:
					what = "SetChildren"
					k := r.Intn(int(mc) + 1)
					ch := make([]TIX, k)
					for z := range ch {
						ch[z] = TIX(r.Uint64())
					}
					ns[i].SetChildren(ch)
					if k >= 2 {
						m.ch = append([]TIX(nil), ch...)
					} else {
						m.ch = nil
						m.norm = ns[i].GetNorm()
					}
					m.v = append([]TV(nil), ns[i].GetVector(TIX(n))...)
					lo += c
					hi += c + uintptr(k)*W
				case 6:
					what = "CopyNode"
					j := r.Intn(cnt)
					utils.CopyNode(ns[i], ns[j], d.NodeSize())
					if i != j {
						m.n, m.norm = model[j].n, model[j].norm
						m.v = append([]TV(nil), model[j].v...)
						m.ch = append([]TIX(nil), model[j].ch...)
						if string(mem[pad+i*int(s):pad+(i+1)*int(s)]) != string(mem[pad+j*int(s):pad+(j+1)*int(s)]) {
							fail(t, "%s length %d: CopyNode does not transfer the whole node", kind, n)
						}
					}
					hi += s
				case 7:
					what = "CreateSplit"
					for z := range ns {
						x := rvec[TV](r, n)
						ns[z].SetVector(x)
						model[z].v = append([]TV(nil), x...)
						if len(model[z].ch) > 2 {
							model[z].ch = model[z].ch[:2]
						}
					}
					before = append([]byte(nil), mem...)
					d.CreateSplit(ns[:2+r.Intn(cnt-1)], d.NodeSize(), rnd, ns[i])
					m.v = append([]TV(nil), ns[i].GetVector(TIX(n))...)
					m.ch, m.norm = nil, ns[i].GetNorm()
					hi += s
				case 8:
					what = "InitNode"
					d.InitNode(ns[i])
					m.ch, m.norm = nil, ns[i].GetNorm()
					lo += c
					hi += c + WF
				}
				for z := range mem {
					if mem[z] != before[z] && (uintptr(z) < pad+lo || uintptr(z) >= pad+hi) {
						fail(t, "%s length %d: %s of node %d changes byte %d, outside [%d,%d)", kind, n, what, i, z-pad, lo, hi)
					}
				}
				for z, m := range model {
					if got := ns[z].GetNumberOfDescendants(); got != m.n {
						fail(t, "%s length %d: after %s node %d has %d descendants, written were %d", kind, n, what, z, got, m.n)
					}
					gv := ns[z].GetVector(TIX(n))
					if len(gv) != n {
						fail(t, "%s length %d: vector of %d elements", kind, n, len(gv))
					}
					for e := range gv {
						if gv[e] != m.v[e] && !(gv[e] != gv[e] && m.v[e] != m.v[e]) {
							fail(t, "%s length %d: after %s node %d element %d is %v, written was %v", kind, n, what, z, e, gv[e], m.v[e])
						}
					}
					if m.ch == nil {
						if got := ns[z].GetNorm(); got != m.norm && got == got {
							fail(t, "%s length %d: after %s node %d has norm %v, written was %v", kind, n, what, z, got, m.norm)
						}
					} else if m.n > 0 && uint64(m.n) <= uint64(len(m.ch)) {
						got := ns[z].GetChildren()
						if TIX(len(got)) != m.n {
							fail(t, "%s length %d: %d children of a node with %d descendants", kind, n, len(got), m.n)
						}
						for e := range got {
							if got[e] != m.ch[e] {
								fail(t, "%s length %d: after %s node %d child %d is %d, written was %d", kind, n, what, z, e, got[e], m.ch[e])
							}
						}
					}
				}
			}
		}
		// the memory of an index
		for _, n := range []int{1, 2, 3, 7, 16, 40} {
			for _, m := range []int{1, 2, 5, 60, 400} {
				w := newWorld[TV, TIX](t, kind, n, false, false, 3)
				w.fill(r, m, "", n%2 == 0)
				w.g.check()
				w.idx.Build(3, 1)
				w.g.check()
				if need := (int(w.nItems()) + 3) * int(w.d.NodeSize()); w.g.size < need {
					fail(t, "%s: %d bytes were allocated for at least %d", w.desc, w.g.size, need)
				}
				w.checkItems("after Build")
			}
		}
	}
}

func TestReplayC02(t *testing.T) {
	combos(t, c02[float32, uint32], c02[float32, uint64], c02[float64, uint32], c02[float64, uint64])
}
