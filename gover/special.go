package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions whose meaning depends on methods or closures of the code: the contract is chosen
// by the dynamic type of the argument, and what the library relies on becomes an obligation.

func (v *VC) special(fr *Frame, st *State, reach string, fn *ssa.Function, key string, args []Val, what string) (Val, string, bool) {
	sig := fn.Signature
	switch key {
	case "sort.Slice", "sort.SliceStable", "sorty.SortSlice", "slices.Sort", "slices.SortFunc":
		s := args[0]
		if s.Dyn != nil {
			s = *s.Dyn
		}
		if s.Ty == nil {
			return Val{}, reach, false
		}
		sl, ok := under(s.Ty).(*types.Slice)
		if !ok {
			return Val{}, reach, false
		}
		kind := ""
		et := sl.Elem()
		switch {
		case isPtr(et) && strings.HasSuffix(typeKey(et), "interfaces.Pair"):
			kind = "Pairs"
		case isInt(et):
			kind = "Ints"
		default:
			return Val{}, reach, false
		}
		c := v.Sp.Contracts["sort.Slice"+kind]
		if c == nil {
			return Val{}, reach, false
		}
		v.ext[key] = true
		if len(args) > 1 {
			if args[1].Fn == nil {
				v.errorf("%s: unknown comparison", what)
				return Val{So: "tuple"}, reach, true
			}
			st2 := st.clone()
			ci, cj := v.fresh("ci", "Int"), v.fresh("cj", "Int")
			ti := args[1].Fn.Signature.Params().At(0).Type()
			var r2 string
			var as []Val
			var names map[string]Val
			if isInt(ti) {
				n := v.slen(s.T)
				r2 = v.name("cmp", "Bool", And(reach, Le("0", ci), Lt(ci, n), Le("0", cj), Lt(cj, n)))
				names = map[string]Val{"s": s, "i": intV(ci), "j": intV(cj)}
				as = []Val{{T: ci, So: "Int", Ty: types.Typ[types.Int]}, {T: cj, So: "Int", Ty: types.Typ[types.Int]}}
			} else {
				v.errorf("%s: unsupported comparison", what)
				return Val{So: "tuple"}, reach, true
			}
			res, r3 := v.inline(fr, st2, r2, args[1].Fn, as, args[1].Bind)
			for k, t := range st2.m {
				if t != v.get(st, k) && !strings.HasPrefix(k, "c|") && k != "brk" {
					v.errorf("%s: the comparison has an effect on %s", what, k)
				}
			}
			d := v.Sp.Defs["less"+kind]
			if d == nil {
				v.errorf("no definition less%s", kind)
			} else {
				ev := &evalCtx{v: v, st: st, old: st, bound: names}
				t, err := ev.boolean(d.Body)
				if err != nil {
					v.errorf("less%s: %v", kind, err)
				}
				v.oblige("requires", what+": the comparison is the order of the elements", v.C.Tags, r3, Eq(res.T, t))
			}
		}
		r, rc := v.apply(fr, st, reach, []bound{v.bindContract(c, []Val{s}, what)}, v.resultTypes(sig), what)
		return packRes(r, sig), rc, true
	case "container/heap.Init", "container/heap.Push", "container/heap.Pop", "container/heap.up", "container/heap.down":
		h := args[0]
		if h.Dyn == nil || !strings.HasSuffix(typeKey(h.Dyn.Ty), "interfaces.Pairs") {
			return Val{}, reach, false
		}
		c := v.Sp.Contracts[strings.TrimPrefix(key, "container/")+"Pairs"]
		if c == nil {
			return Val{}, reach, false
		}
		if c.Body != key {
			v.ext[key] = true
		}
		as := []Val{*h.Dyn}
		if key == "container/heap.up" || key == "container/heap.down" {
			as = append(as, args[1:]...)
		} else if len(args) > 1 {
			x := args[1]
			if x.Dyn != nil {
				x = *x.Dyn
			}
			if x.Ty == nil || !isPtr(x.Ty) {
				v.errorf("%s: element of unknown type", what)
				return Val{So: "tuple"}, reach, true
			}
			as = append(as, x)
		}
		v.linkImm(st)
		r, rc := v.apply(fr, st, reach, []bound{v.bindContract(c, as, what)}, v.resultTypes(sig), what)
		return packRes(r, sig), rc, true
	}
	return Val{}, reach, false
}
