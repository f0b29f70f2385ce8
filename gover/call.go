package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bound is a contract with its parameters bound to values.
type bound struct {
	c     *Contract
	names map[string]Val
}

const hugeN = "1000000000000000000000000000000000000000000000000000000000000"

func (v *VC) bindContract(c *Contract, args []Val, what string) bound {
	b := bound{c: c, names: map[string]Val{}}
	if len(c.Params) != len(args) {
		v.errorf("contract %s has %d parameters, the function has %d", c.Key, len(c.Params), len(args))
	}
	for i, p := range c.Params {
		if i < len(args) {
			b.names[p] = args[i]
		}
	}
	return b
}

// withIfaces adds the interface contracts a function implements.
func (v *VC) withIfaces(c *Contract, args []Val, what string) []bound {
	out := []bound{v.bindContract(c, args, what)}
	for _, k := range c.Implements {
		ic := v.Sp.Contracts[k]
		if ic == nil {
			v.errorf("%s implements unknown %s", c.Key, k)
			continue
		}
		a := append([]Val{}, args...)
		if ic.Kind == "field" {
			a = append([]Val{{T: v.fresh("holder", "Int"), So: "Int"}}, a...)
		} else if len(a) > 0 {
			recv := a[0]
			tag := NumI(int64(tagOf(typeKey(recv.Ty))))
			a[0] = Val{T: sx("mkiface", tag, v.tm(nil, recv)), So: "Iface", Ty: recv.Ty}
		}
		out = append(out, v.bindContract(ic, a, what))
	}
	return out
}

// frameBounds: a contract that states its own frame is not extended by those of the interfaces.
func frameBounds(bs []bound) []bound {
	if len(bs) > 1 {
		for _, c := range bs[0].c.Clauses {
			if c.Kind == "modifies" {
				return bs[:1]
			}
		}
	}
	return bs
}

// frameRefines obliges the function's own frame to lie inside those of the interfaces it implements.
func (v *VC) frameRefines() {
	if len(v.topBound) < 2 {
		return
	}
	infos := func(bs []bound) (out []locInfo) {
		for _, b := range bs {
			ev := &evalCtx{v: v, st: v.entry, old: v.entry, names: b.names}
			for _, c := range b.c.Clauses {
				if c.Kind != "modifies" {
					continue
				}
				ls, err := v.locInfos(ev, c.Locs)
				if err != nil {
					v.errorf("%s: %v", c.Pos, err)
				}
				out = append(out, ls...)
			}
		}
		return
	}
	fb := frameBounds(v.topBound)
	if len(fb) > 1 {
		return
	}
	for _, b := range v.topBound[1:] {
		is := infos([]bound{b})
		for _, l := range infos(fb) {
			var alts []string
			for _, m := range is {
				switch {
				case m.comp != l.comp:
				case m.all:
					alts = append(alts, "true")
				case l.all:
				case l.ptr == sharedMark || m.ptr == sharedMark:
					if l.ptr == m.ptr {
						alts = append(alts, Imp(l.n, m.n))
					}
				case l.raw:
					alts = append(alts, And(Le(m.ptr, l.ptr), Le(Add(l.ptr, l.n), Add(m.ptr, m.n))))
				default:
					alts = append(alts, Eq(l.ptr, m.ptr))
				}
			}
			if l.raw && !l.all && l.ptr != sharedMark {
				alts = append(alts, Le(l.n, "0"))
			}
			v.oblige("frame", fmt.Sprintf("the frame at %s lies inside that of %s", l.comp, b.c.Key), v.C.Tags, "true", Or(alts...))
		}
		if b.c.Pure && !v.topBound[0].c.Pure {
			v.errorf("%s is pure, the function is not", b.c.Key)
		}
	}
}

type locInfo struct {
	comp, ptr, n string
	all          bool
	raw          bool
}

func (v *VC) locInfos(ev *evalCtx, locs []*Loc) (out []locInfo, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.s)
				return
			}
			panic(r)
		}
	}()
	for _, l := range locs {
		switch l.Kind {
		case "heap":
			v.declComp("H", "Heap")
			out = append(out, locInfo{comp: "H", all: true, raw: true})
		case "shared":
			v.declComp("H", "Heap")
			cond := "true"
			if len(l.A) > 0 {
				cond = ev.eval(l.A[0]).T
			}
			out = append(out, locInfo{comp: "H", ptr: sharedMark, n: cond, raw: true})
		case "raw":
			v.declComp("H", "Heap")
			out = append(out, locInfo{comp: "H", ptr: ev.eval(l.A[0]).T, n: ev.eval(l.A[1]).T, raw: true})
		case "elems":
			x := ev.eval(l.A[0])
			sl, ok := under(x.Ty).(*types.Slice)
			if !ok {
				return nil, fmt.Errorf("elems of %s", x.Ty)
			}
			comp, _, w := v.elFn(sl.Elem())
			out = append(out, locInfo{comp: comp, ptr: v.sptr(x.T), n: MulT(w, v.slen(x.T)), raw: true})
		case "capelems":
			x := ev.eval(l.A[0])
			sl := under(x.Ty).(*types.Slice)
			comp, _, w := v.elFn(sl.Elem())
			out = append(out, locInfo{comp: comp, ptr: v.sptr(x.T), n: MulT(w, v.scap(x.T)), raw: true})
		case "ghost":
			out = append(out, locInfo{comp: v.gcomp(l.S), all: true})
		case "ghostidx":
			out = append(out, locInfo{comp: v.gcomp(l.S), ptr: ev.eval(l.A[0]).T})
		case "allfield":
			i := strings.LastIndex(l.Key, ".")
			if t := v.specType(l.Key); t != nil {
				if st, ok := under(t).(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if _, isS := under(st.Field(j).Type()).(*types.Struct); isS {
							continue
						}
						c, _ := v.fieldComp(t, j)
						out = append(out, locInfo{comp: c, all: true})
					}
					break
				}
			}
			t := v.specType(l.Key[:i])
			if t == nil && (v.inst.TIX == "" || v.inst.TV == "") {
				break // a generic type that this function, which is not generic, cannot name
			}
			if t == nil {
				return nil, fmt.Errorf("unknown type %s", l.Key[:i])
			}
			st := under(t).(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == l.Key[i+1:] {
					c, _ := v.fieldComp(t, j)
					out = append(out, locInfo{comp: c, all: true})
				}
			}
		case "cells":
			k := strings.TrimLeft(l.Key, "*")
			t := v.specType(k)
			if t == nil {
				return nil, fmt.Errorf("unknown type %s", k)
			}
			for i := 0; i < len(l.Key)-len(k); i++ {
				t = types.NewPointer(t)
			}
			out = append(out, locInfo{comp: v.xcomp(t), all: true, raw: true})
		case "deref":
			x := ev.eval(l.A[0])
			if x.A != nil && x.A.Kind == "field" {
				out = append(out, locInfo{comp: x.A.Comp, ptr: x.A.Obj})
				break
			}
			c := v.pcomp(deref(x.Ty))
			out = append(out, locInfo{comp: c, ptr: x.T})
		case "mapof":
			x := ev.eval(l.A[0])
			hc, vc := v.mapComps(x.Ty)
			out = append(out, locInfo{comp: hc, ptr: x.T}, locInfo{comp: vc, ptr: x.T})
		case "mapslike":
			x := ev.eval(l.A[0])
			hc, vc := v.mapComps(x.Ty)
			out = append(out, locInfo{comp: hc, all: true}, locInfo{comp: vc, all: true})
		case "field":
			x := ev.eval(l.A[0])
			if x.Ty == nil {
				return nil, fmt.Errorf("modifies of a field of an untyped value")
			}
			t := deref(x.Ty)
			st, ok := under(t).(*types.Struct)
			if !ok {
				return nil, fmt.Errorf("%s is not a struct", t)
			}
			found := false
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == l.S || l.S == "all" {
					if _, isS := under(st.Field(j).Type()).(*types.Struct); isS {
						continue
					}
					c, _ := v.fieldComp(t, j)
					out = append(out, locInfo{comp: c, ptr: v.tm(ev.st, x)})
					found = true
				}
			}
			if !found {
				return nil, fmt.Errorf("no field %s in %s", l.S, t)
			}
		}
	}
	return out, nil
}

// frame is the modifies clause of the function under verification, evaluated at entry.
func (v *VC) frame() []locInfo {
	if v.frameDone {
		return v.frameL
	}
	v.frameDone = true
	for _, b := range frameBounds(v.topBound) {
		ev := &evalCtx{v: v, st: v.entry, old: v.entry, names: b.names}
		for _, c := range b.c.Clauses {
			if c.Kind != "modifies" {
				continue
			}
			ls, err := v.locInfos(ev, c.Locs)
			if err != nil {
				v.errorf("%s: %v", c.Pos, err)
			}
			v.frameL = append(v.frameL, ls...)
		}
	}
	return v.frameL
}

func (v *VC) frameRegions(comp string) (regs [][2]string, all bool) {
	for _, l := range v.frame() {
		if l.comp == comp {
			if l.all {
				return nil, true
			}
			regs = append(regs, [2]string{l.ptr, l.n})
		}
	}
	return
}

func (v *VC) frameObjs(comp string) (objs []string, all bool) {
	for _, l := range v.frame() {
		if l.comp == comp {
			if l.all {
				return nil, true
			}
			objs = append(objs, l.ptr)
		}
	}
	return
}

func (v *VC) locRegions(ev *evalCtx, locs []*Loc, comp string) (regs [][2]string, all bool) {
	ls, err := v.locInfos(ev, locs)
	if err != nil {
		v.errorf("loop frame: %v", err)
	}
	for _, l := range ls {
		if l.comp == comp {
			if l.all {
				all = true
			}
			n := l.n
			if n == "" {
				n = "1"
			}
			regs = append(regs, [2]string{l.ptr, n})
		}
	}
	return
}

func (v *VC) resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func bindResults(b map[string]Val, c *Contract, res []Val) {
	if len(res) == 1 {
		b["result"] = res[0]
	}
	for i, r := range res {
		b[fmt.Sprintf("result%d", i)] = r
		if i < len(c.Results) {
			b[c.Results[i]] = r
		}
	}
}

// apply uses contracts at a call.
func (v *VC) apply(fr *Frame, st *State, reach string, bs []bound, rts []types.Type, what string) ([]Val, string) {
	pre := st.clone()
	for _, b := range bs {
		v.assumed[b.c.Key] = true
		ev := &evalCtx{v: v, st: pre, old: pre, names: b.names}
		for i, c := range b.c.Clauses {
			switch c.Kind {
			case "requires":
				if !v.clauseOn(c) {
					continue
				}
				t, err := ev.boolean(c.E)
				if err != nil {
					v.errorf("%s: precondition of %s: %v", what, b.c.Key, err)
					continue
				}
				lab := c.Label
				if lab == "" {
					lab = fmt.Sprintf("requires%d", i+1)
				}
				v.obligeParts("requires", what+": "+b.c.Key+" "+lab, v.callTags(c.Tags), reach, t)
			case "panics":
				if !v.clauseOn(c) {
					continue
				}
				t, err := ev.boolean(c.E)
				if err != nil {
					v.errorf("%s: panics clause of %s: %v", what, b.c.Key, err)
					continue
				}
				v.oblige("requires", what+": "+b.c.Key+" does not panic", v.callTags(c.Tags), reach, Not(t))
			}
		}
	}
	// effects
	alloc := false
	type eff struct {
		regs [][2]string
		objs []string
		all  bool
		raw  bool
	}
	effs := map[string]*eff{}
	alloc = !bs[0].c.Pure
	for _, b := range frameBounds(bs) {
		ev := &evalCtx{v: v, st: pre, old: pre, names: b.names}
		for _, c := range b.c.Clauses {
			if c.Kind != "modifies" {
				continue
			}
			ls, err := v.locInfos(ev, c.Locs)
			if err != nil {
				v.errorf("%s: frame of %s: %v", what, b.c.Key, err)
			}
			for _, l := range ls {
				e := effs[l.comp]
				if e == nil {
					e = &eff{raw: l.raw}
					effs[l.comp] = e
				}
				if l.all {
					e.all = true
				}
				if l.raw {
					e.regs = append(e.regs, [2]string{l.ptr, l.n})
				} else {
					e.objs = append(e.objs, l.ptr)
				}
			}
		}
	}
	var ks []string
	for k := range effs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	// every bound contract without a modifies clause leaves the decision to the others
	for _, k := range ks {
		e := effs[k]
		switch {
		case e.raw:
			if e.all {
				v.logRaw(k, "", "", true)
				v.checkAll(k, reach, what)
				st.m[k] = v.fresh("h_"+k, v.compSort(k))
				break
			}
			for _, r := range e.regs {
				v.logRaw(k, r[0], r[1], false)
				if r[0] == sharedMark {
					v.checkShared(k, r[1], reach, what)
				} else {
					v.checkRaw(k, r[0], r[1], reach, what)
				}
			}
			n := v.fresh("h_"+k, v.compSort(k))
			v.frameAxioms(k, v.get(pre, k), n, e.regs)
			st.m[k] = n
		case strings.HasPrefix(k, "g|"):
			if e.all {
				v.log = append(v.log, wlog{comp: k, all: true})
				v.checkGhost(k, "", reach, what)
				st.m[k] = v.fresh("h_"+k, v.compSort(k))
				break
			}
			t := v.get(pre, k)
			for _, o := range e.objs {
				v.log = append(v.log, wlog{comp: k, ptr: o})
				v.checkGhost(k, o, reach, what)
				t = sx("store", t, o, v.fresh("hv", arrayElem(v.compSort(k))))
			}
			v.set(st, k, t)
		default:
			if e.all {
				v.log = append(v.log, wlog{comp: k, all: true})
				v.checkAll(k, reach, what)
				v.havocComp(st, k)
				break
			}
			t := v.get(pre, k)
			es := arrayElem(v.compSort(k))
			for _, o := range e.objs {
				v.log = append(v.log, wlog{comp: k, ptr: o})
				v.checkObj(k, o, reach, what)
				x := v.fresh("hv", es)
				if ty := v.comps[k]; ty != nil && !strings.HasPrefix(k, "p|map") {
					v.lateFacts = append(v.lateFacts, lateFact{ty, x})
				}
				t = sx("store", t, o, x)
			}
			v.set(st, k, t)
		}
	}
	if alloc {
		n := v.fresh("brk", "Int")
		v.assume("true", Le(v.get(st, "brk"), n))
		st.m["brk"] = n
		v.log = append(v.log, wlog{comp: "brk"})
	}
	for _, f := range v.lateFacts {
		v.typeFacts(f.t, f.x, st)
	}
	v.lateFacts = nil
	var res []Val
	for i, t := range rts {
		r := v.freshResult(fmt.Sprintf("r%d", i), t, st)
		res = append(res, r)
	}
	for _, b := range bs {
		names := map[string]Val{}
		for k, x := range b.names {
			names[k] = x
		}
		bindResults(names, b.c, res)
		ev := &evalCtx{v: v, st: st, old: pre, names: names}
		for _, c := range b.c.Clauses {
			switch c.Kind {
			case "ensures", "assume":
				if !v.clauseOn(c) {
					continue
				}
				t, err := ev.boolean(c.E)
				if err != nil {
					v.errorf("%s: postcondition of %s: %v", what, b.c.Key, err)
					continue
				}
				if c.Kind == "assume" {
					v.ext[b.c.Key+": "+c.Label+" (assumed clause)"] = true
				}
				v.assume(reach, t)
			}
		}
	}
	return res, reach
}

type lateFact struct {
	t types.Type
	x string
}

func (v *VC) freshResult(h string, t types.Type, st *State) Val {
	if sty, ok := under(t).(*types.Struct); ok {
		r := Val{So: "tuple", Ty: t}
		for i := 0; i < sty.NumFields(); i++ {
			r.Tup = append(r.Tup, v.freshResult(h, sty.Field(i).Type(), st))
		}
		return r
	}
	so := v.sortOf(t)
	r := Val{T: v.fresh(h, so), So: so, Ty: t}
	v.typeFacts(t, r.T, st)
	return r
}

func (v *VC) callTags(ct []string) []string {
	if len(ct) > 0 {
		return ct
	}
	return v.C.Tags
}

func (v *VC) checkAll(comp, reach, what string) {
	if v.dry > 0 {
		return
	}
	for _, l := range v.frame() {
		if l.comp == comp && l.all {
			return
		}
	}
	v.oblige("frame", what+" changes "+comp+" within the frame", v.C.Tags, reach, "false")
}

func (v *VC) checkShared(comp, cond, reach, what string) {
	if v.dry > 0 {
		return
	}
	may := func(regs [][2]string) string {
		var ds []string
		for _, r := range regs {
			if r[0] == sharedMark {
				ds = append(ds, Imp(cond, r[1]))
			}
		}
		return Or(ds...)
	}
	if regs, all := v.frameRegions(comp); !all {
		if g := may(regs); g != "true" {
			v.oblige("frame", what+" changes shared memory within the frame", v.C.Tags, reach, Or(Not(cond), g))
		}
	}
	for _, l := range v.loops {
		if l.auto {
			continue
		}
		if rs, ok := l.allowed[comp]; ok {
			if g := may(rs); g != "true" {
				v.oblige("frame", what+" changes shared memory within the loop frame", v.C.Tags, reach, Or(Not(cond), g))
			}
		}
	}
}

func (v *VC) checkGhost(comp, idx, reach, what string) {
	if v.dry > 0 {
		return
	}
	var ds []string
	for _, l := range v.frame() {
		if l.comp == comp {
			if l.all {
				return
			}
			if idx == l.ptr {
				return
			}
			if idx != "" {
				ds = append(ds, Eq(idx, l.ptr))
			}
		}
	}
	if idx != "" {
		ds = append(ds, Le(v.brk0, idx))
	}
	v.oblige("frame", what+" changes "+comp+" within the frame", v.C.Tags, reach, Or(ds...))
}

// call executes a call instruction.
func (v *VC) call(fr *Frame, st *State, reach string, in ssa.CallInstruction, cc *ssa.CallCommon, pos token.Pos) (Val, string) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, v.val(fr, st, a))
	}
	var fv Val
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			fv = v.val(fr, st, cc.Value)
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fv = v.val(fr, st, mc)
	}
	return v.callWith(fr, st, reach, cc, args, fv, pos)
}

func packRes(res []Val, sig *types.Signature) Val {
	switch len(res) {
	case 0:
		return Val{So: "tuple", Ty: sig.Results()}
	case 1:
		return res[0]
	}
	return Val{So: "tuple", Ty: sig.Results(), Tup: res}
}

func (v *VC) callWith(fr *Frame, st *State, reach string, cc *ssa.CallCommon, args []Val, fv Val, pos token.Pos) (Val, string) {
	sig := cc.Signature()
	what := "call at " + v.posOf(pos)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return v.builtin(fr, st, reach, b, cc, args, pos)
	}
	if cc.IsInvoke() {
		// the dynamic type may be known
		if fv.Dyn != nil {
			if pt, ok := fv.Dyn.Ty.(*types.Pointer); ok {
				// a method of the value is called through the pointer
				if s := v.P.prog.MethodSets.MethodSet(pt.Elem()).Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil && !types.IsInterface(pt.Elem()) {
					if fn := v.P.prog.MethodValue(s); fn != nil && (fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "instance of")) {
						v.safety(what+": the receiver is not nil", reach, Not(Eq(v.tm(st, *fv.Dyn), "0")))
						return v.callFn(fr, st, reach, fn, append([]Val{v.load(fr, st, reach, *fv.Dyn, pt.Elem())}, args...), nil, what)
					}
				}
			}
			if fn := v.P.prog.LookupMethod(fv.Dyn.Ty, cc.Method.Pkg(), cc.Method.Name()); fn != nil && fn.Synthetic == "" || fn != nil && strings.HasPrefix(fn.Synthetic, "instance of") {
				return v.callFn(fr, st, reach, fn, append([]Val{*fv.Dyn}, args...), nil, what)
			}
		}
		v.safety(what+": interface is not nil", reach, Not(Eq(sx("itag", fv.T), "0")))
		k := typeKey(cc.Value.Type()) + "." + cc.Method.Name()
		c := v.Sp.Contracts[k]
		if c == nil {
			v.errorf("%s: no contract for %s", what, k)
			v.havocAll(st, reach)
			return v.unknown(tupleOrOne(sig)), reach
		}
		b := v.bindContract(c, append([]Val{fv}, args...), what)
		res, r := v.apply(fr, st, reach, []bound{b}, v.resultTypes(sig), what)
		return packRes(res, sig), r
	}
	if fn := cc.StaticCallee(); fn != nil {
		return v.callFn(fr, st, reach, fn, args, fv.Bind, what)
	}
	// a field that holds a function
	if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			k := typeKey(t) + "." + under(t).(*types.Struct).Field(fa.Field).Name()
			if c := v.Sp.Contracts[k]; c != nil {
				obj := v.val(fr, st, fa.X)
				b := v.bindContract(c, append([]Val{obj}, args...), what)
				res, r := v.apply(fr, st, reach, []bound{b}, v.resultTypes(sig), what)
				return packRes(res, sig), r
			}
		}
	}
	if fv.Fn != nil {
		return v.callFn(fr, st, reach, fv.Fn, args, fv.Bind, what)
	}
	v.errorf("%s: call of an unknown function", what)
	v.havocAll(st, reach)
	return v.unknown(tupleOrOne(sig)), reach
}

func tupleOrOne(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (v *VC) havocAll(st *State, reach string) {
	var ks []string
	for k := range st.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !strings.HasPrefix(k, "c|") {
			v.log = append(v.log, wlog{comp: k, all: true})
			st.m[k] = v.fresh("hv", v.compSort(k))
		}
	}
}

// benign packages: their functions only read their arguments and return new values.
var benign = map[string]bool{"fmt": true, "errors": true, "strconv": true, "strings": true}

func (v *VC) callFn(fr *Frame, st *State, reach string, fn *ssa.Function, args []Val, binds []Val, what string) (Val, string) {
	key := funcKey(fn)
	c := v.Sp.Contracts[key]
	sig := fn.Signature
	if x, r, ok := v.special(fr, st, reach, fn, key, args, what); ok {
		return x, r
	}
	if c != nil && !c.Inline {
		if c.Trusted {
			v.ext[key] = true
		}
		v.linkImm(st)
		bs := v.withIfaces(c, args, what)
		if len(binds) > 0 {
			for i, b := range binds {
				bs[0].names[fn.FreeVars[i].Name()] = v.loadVar(fr, st, reach, b, deref(fn.FreeVars[i].Type()))
			}
		}
		res, r := v.apply(fr, st, reach, bs, v.resultTypes(sig), what)
		return packRes(res, sig), r
	}
	if len(fn.Blocks) > 0 && inModule(fn) {
		for _, k := range v.inl {
			if k == key {
				v.errorf("%s: recursive function %s has no contract", what, key)
				v.havocAll(st, reach)
				return v.unknown(tupleOrOne(sig)), reach
			}
		}
		if len(v.inl) > 12 {
			v.errorf("%s: inlining is too deep at %s", what, key)
			return v.unknown(tupleOrOne(sig)), reach
		}
		return v.inline(fr, st, reach, fn, args, binds)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if benign[pk] {
		v.ext[key] = true
		r := v.unknown(tupleOrOne(sig))
		if key == "errors.New" || key == "fmt.Errorf" {
			v.assume("true", And(Not(Eq(sx("itag", r.T), "0")), Le("0", sx("idata", r.T)), Lt(sx("idata", r.T), v.get(st, "brk"))))
		}
		return r, reach
	}
	v.errorf("%s: no contract for %s", what, key)
	v.missing[key] = true
	v.havocAll(st, reach)
	return v.unknown(tupleOrOne(sig)), reach
}

// inline executes the body of a function without a contract.
func (v *VC) inline(fr *Frame, st *State, reach string, fn *ssa.Function, args []Val, binds []Val) (Val, string) {
	key := funcKey(fn)
	v.inlined[key] = true
	v.inl = append(v.inl, key)
	defer func() { v.inl = v.inl[:len(v.inl)-1] }()
	fr.callNo++
	nf := v.newFrame(fn, fr, fmt.Sprintf("%s%s@%d/", fr.path, key, fr.callNo))
	nf.callAt = fr.at
	nf.baseLoops = append([]*loopCtx{}, v.loops...)
	for i, p := range fn.Params {
		nf.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			nf.vals[f] = binds[i]
		}
	}
	save := v.loops
	v.run(nf, nil, fn.Blocks[0], []edge{{st.clone(), reach, nil}}, nil)
	v.loops = save
	if len(nf.exits) == 0 {
		// never returns
		return v.unknown(tupleOrOne(fn.Signature)), "false"
	}
	var es []edge
	var cs []string
	for _, x := range nf.exits {
		es = append(es, edge{x.st, x.cond, nil})
		cs = append(cs, x.cond)
	}
	m := v.merge(es)
	st.m = m.m
	nr := reach
	if !(len(cs) == 1 && cs[0] == reach) {
		nr = v.name("ret", "Bool", Or(cs...))
	}
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		var vs []Val
		for _, x := range nf.exits {
			vs = append(vs, x.res[i])
		}
		res = append(res, v.joinVals("ret", fn.Signature.Results().At(i).Type(), vs, cs))
	}
	return packRes(res, fn.Signature), nr
}

func (v *VC) doReturn(fr *Frame, st *State, reach string, res []Val, pos token.Pos) {
	if fr.parent != nil {
		fr.exits = append(fr.exits, exit{st: st, cond: reach, res: res, pos: pos})
		return
	}
	if v.dry > 0 {
		return
	}
	v.linkImm(st)
	where := v.posOf(pos)
	// ghost updates
	for _, b := range v.topBound {
		if b.c == v.C {
			continue // in the order of the clauses
		}
		names := map[string]Val{}
		for k, x := range b.names {
			names[k] = x
		}
		bindResults(names, b.c, res)
		ev := &evalCtx{v: v, st: st, old: v.entry, names: names, fr: fr, header: fr.at}
		for _, c := range b.c.Clauses {
			if c.Kind != "ghost" {
				continue
			}
			// the right hand sides see the state before the update
			v.ghostSet(ev, st, reach, c, where)
		}
	}
	for _, b := range v.topBound {
		names := map[string]Val{}
		for k, x := range b.names {
			names[k] = x
		}
		bindResults(names, b.c, res)
		ev := &evalCtx{v: v, st: st, old: v.entry, names: names}
		for i, c := range b.c.Clauses {
			lab := c.Label
			if lab == "" {
				lab = fmt.Sprintf("%s%d", c.Kind, i+1)
			}
			switch c.Kind {
			case "ghost":
				if b.c == v.C {
					v.ghostSet(&evalCtx{v: v, st: st, old: v.entry, names: names, fr: fr, header: fr.at}, st, reach, c, where)
				}
			case "assume":
				if !v.clauseOn(c) || b.c != v.C {
					continue
				}
				t, err := ev.boolean(c.E)
				if err != nil {
					v.errorf("%s: %v", lab, err)
					continue
				}
				v.ext[b.c.Key+": "+c.Label+" (assumed clause)"] = true
				v.assume(reach, t)
			case "ensures", "assert":
				if !v.clauseOn(c) {
					continue
				}
				if c.Kind == "assert" {
					ev = &evalCtx{v: v, st: st, old: v.entry, names: names, fr: fr, header: fr.at}
				}
				t, err := ev.boolean(c.E)
				if err != nil {
					if c.Kind == "assert" {
						continue // a hint that does not apply at this exit
					}
					v.errorf("%s: %v", lab, err)
					continue
				}
				tags := c.Tags
				if len(tags) == 0 {
					tags = v.C.Tags
				}
				pre := ""
				if b.c != v.C {
					pre = b.c.Key + " "
				}
				v.obligeParts(c.Kind, fmt.Sprintf("%s%s at %s", pre, lab, where), tags, reach, t)
			case "panics":
				t, err := (&evalCtx{v: v, st: v.entry, old: v.entry, names: b.names}).boolean(c.E)
				if err != nil {
					v.errorf("%s: %v", lab, err)
					continue
				}
				tags := c.Tags
				if len(tags) == 0 {
					tags = v.C.Tags
				}
				v.oblige("panics", fmt.Sprintf("%s: refused at %s", lab, where), tags, reach, Not(t))
			}
		}
	}
	// vacuity: the exit must not be provably unreachable
	v.obls = append(v.obls, &Obl{Name: "exit at " + where + " is reachable", Kind: "cover", N: len(v.lines), Goal: "false", Reach: reach, vc: v, Check: "cover", Fn: v.F.Key, Inst: v.inst, Tags: v.C.Tags})
}

func (v *VC) ghostSet(ev *evalCtx, st *State, reach string, c *Clause, where string) {
	comp := v.gcomp(c.GName)
	x, err := ev.value(c.E)
	if err != nil {
		v.errorf("ghost update of %s: %v", c.GName, err)
		return
	}
	if c.GIdx != nil {
		i, err := ev.value(c.GIdx)
		if err != nil {
			v.errorf("ghost update of %s: %v", c.GName, err)
			return
		}
		v.log = append(v.log, wlog{comp: comp, ptr: i.T})
		v.checkGhost(comp, i.T, reach, "ghost update at "+where)
		v.set(st, comp, sx("store", v.get(st, comp), i.T, x.T))
		return
	}
	v.log = append(v.log, wlog{comp: comp, all: true})
	v.checkGhost(comp, "", reach, "ghost update at "+where)
	v.set(st, comp, x.T)
}

func (v *VC) doPanic(fr *Frame, st *State, reach string, in *ssa.Panic) {
	if v.dry > 0 {
		return
	}
	var ds []string
	tags := []string{}
	for _, b := range v.topBound {
		for _, c := range b.c.Clauses {
			if c.Kind == "panics" {
				t, err := (&evalCtx{v: v, st: v.entry, old: v.entry, names: b.names}).boolean(c.E)
				if err != nil {
					v.errorf("panics clause: %v", err)
					continue
				}
				ds = append(ds, t)
				tags = append(tags, c.Tags...)
			}
		}
	}
	if len(tags) == 0 {
		tags = v.C.Tags
	}
	v.oblige("panics", "panic at "+v.posOf(in.Pos())+" is a documented refusal", tags, reach, Or(ds...))
	// nothing has been changed
	var ks []string
	for k := range st.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "c|") || k == "brk" || strings.HasPrefix(k, "x|") {
			continue
		}
		if st.m[k] != v.initial(k) && st.m[k] != v.get(v.entry, k) {
			if k == "H" {
				v.oblige("panics", "refusal at "+v.posOf(in.Pos())+" leaves memory unchanged", tags, reach, Eq(st.m[k], v.get(v.entry, k)))
			} else {
				v.oblige("panics", "refusal at "+v.posOf(in.Pos())+" leaves "+k+" unchanged", tags, reach, Eq(st.m[k], v.get(v.entry, k)))
			}
		}
	}
}

func (v *VC) runDefers(fr *Frame, b *ssa.BasicBlock, st *State, reach string) string {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		db := d.call.Block()
		if !db.Dominates(b) {
			if reaches(db, b) {
				v.errorf("%s: conditional defer", v.posOf(d.call.Pos()))
			}
			continue
		}
		_, reach = v.callWith(fr, st, reach, &d.call.Call, d.args, d.fn, d.call.Pos())
	}
	return reach
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(a)
}

// doGo starts a goroutine: the precondition of its contract is checked, its "spawn" updates are
// applied; what it does while running is described by the contract of the join (see WaitGroup.Wait).
func (v *VC) doGo(fr *Frame, st *State, reach string, in *ssa.Go) string {
	fn := in.Call.StaticCallee()
	if fn == nil {
		v.errorf("%s: go with a dynamic function", v.posOf(in.Pos()))
		return reach
	}
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, v.val(fr, st, a))
	}
	c := v.Sp.Contracts[funcKey(fn)]
	if c == nil {
		v.errorf("%s: goroutine %s has no contract", v.posOf(in.Pos()), funcKey(fn))
		return reach
	}
	var binds []Val
	if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		binds = v.val(fr, st, mc).Bind
	}
	b := v.bindContract(c, args, "go")
	for i, x := range binds {
		b.names[fn.FreeVars[i].Name()] = v.loadVar(fr, st, reach, x, deref(fn.FreeVars[i].Type()))
	}
	ev := &evalCtx{v: v, st: st, old: st.clone(), names: b.names}
	v.assumed[c.Key] = true
	for _, cl := range c.Clauses {
		switch cl.Kind {
		case "requires":
			t, err := ev.boolean(cl.E)
			if err != nil {
				v.errorf("go: %v", err)
				continue
			}
			v.obligeParts("requires", "go at "+v.posOf(in.Pos())+": "+c.Key+" "+cl.Label, v.callTags(cl.Tags), reach, t)
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "spawn" {
			v.ghostSet(ev, st, reach, cl, v.posOf(in.Pos()))
		}
	}
	return reach
}

// ---- builtins ----

func (v *VC) builtin(fr *Frame, st *State, reach string, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) (Val, string) {
	what := b.Name() + " at " + v.posOf(pos)
	sig := cc.Signature()
	rt := types.Type(nil)
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		switch x.So {
		case "Slice":
			t := v.slen(x.T)
			if b.Name() == "cap" {
				t = v.scap(x.T)
			}
			return Val{T: v.intT(t, rt), So: v.sortOf(rt), Ty: rt}, reach
		case "Str":
			return Val{T: sx("strlen", x.T), So: "Int", Ty: rt}, reach
		}
		if _, ok := under(cc.Args[0].Type()).(*types.Map); ok {
			r := v.unknown(rt)
			v.assume("true", Le("0", r.T))
			return r, reach
		}
	case "append":
		return v.doAppend(st, reach, cc, args, what), reach
	case "copy":
		d, s := args[0], args[1]
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		if s.So == "Str" {
			break
		}
		comp, _, w := v.elFn(et)
		n := Ite(Le(v.slen(d.T), v.slen(s.T)), v.slen(d.T), v.slen(s.T))
		n = v.name("n", "Int", n)
		v.copyMem(st, reach, comp, v.sptr(d.T), v.sptr(s.T), MulT(w, n), n, what)
		return Val{T: n, So: "Int", Ty: rt}, reach
	case "delete":
		m, k := args[0], args[1]
		hc, _ := v.mapComps(cc.Args[0].Type())
		old := sx("select", v.get(st, hc), m.T)
		v.objWrite(st, reach, hc, m.T, sx("store", old, k.T, "false"), what)
		return Val{So: "tuple"}, reach
	case "clear":
		m := args[0]
		if _, ok := under(cc.Args[0].Type()).(*types.Map); ok {
			hc, _ := v.mapComps(cc.Args[0].Type())
			v.objWrite(st, reach, hc, m.T, v.zeroTerm(arrayElem(v.compSort(hc))), what)
			return Val{So: "tuple"}, reach
		}
	case "Add":
		p, off := args[0], args[1]
		base := v.tm(st, p)
		ot := cc.Args[1].Type()
		if off.Lin != nil {
			l := off.Lin
			_, hi := v.bounds(off.LinTy)
			if l.C == "" {
				v.oblige("address", what+": offset does not overflow", v.C.Tags, reach, And(Le("0", l.X), Le(l.X, Num(hi))))
				return Val{T: v.name("adr", "Int", Add(base, l.X)), So: "Int", Ty: rt}, reach
			}
			v.oblige("address", what+": offset does not overflow", v.C.Tags, reach, And(Le("0", MulT(l.C, l.X)), Le(MulT(l.C, l.X), Num(hi))))
			return Val{So: "Int", Ty: rt, A: &Addr{Kind: "rawel", Obj: base, Idx: l.X, W: l.C}}, reach
		}
		_ = ot
		return Val{T: v.name("adr", "Int", Add(base, off.T)), So: "Int", Ty: rt}, reach
	case "Slice":
		p, n := args[0], args[1]
		pt := v.tm(st, p)
		v.safety(what+": length is not negative", reach, Le("0", n.T))
		s := v.mkSlice(reach, pt, n.T, n.T)
		return Val{T: s, So: "Slice", Ty: rt}, reach
	case "SliceData":
		return Val{T: v.name("ptr", "Int", v.sptr(args[0].T)), So: "Int", Ty: rt}, reach
	case "min", "max":
		if isInt(rt) && !v.bv {
			t := args[0].T
			for _, a := range args[1:] {
				if b.Name() == "min" {
					t = v.name("t", "Int", Ite(Le(t, a.T), t, a.T))
				} else {
					t = v.name("t", "Int", Ite(Le(a.T, t), t, a.T))
				}
			}
			return Val{T: t, So: "Int", Ty: rt}, reach
		}
		if isFloat(rt) && len(args) == 2 {
			so := v.sortOf(rt)
			return Val{T: sx("b_"+b.Name()+so[1:], args[0].T, args[1].T), So: so, Ty: rt}, reach
		}
	case "Sizeof":
		if n := v.sizeof(cc.Args[0].Type()); !v.bv {
			return Val{T: NumI(n), So: "Int", Ty: rt}, reach
		}
	case "Offsetof":
		if u, ok := cc.Args[0].(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return Val{T: NumI(v.fieldOffset(deref(fa.X.Type()), fa.Field)), So: "Int", Ty: rt}, reach
			}
		}
		if f, ok := cc.Args[0].(*ssa.Field); ok {
			return Val{T: NumI(v.fieldOffset(f.X.Type(), f.Field)), So: "Int", Ty: rt}, reach
		}
	case "ssa:wrapnilchk":
		return args[0], reach
	case "print", "println":
		return Val{So: "tuple"}, reach
	case "recover":
		return v.unknown(rt), reach
	}
	v.errorf("%s: unsupported builtin", what)
	if rt == nil {
		return Val{So: "tuple"}, reach
	}
	return v.unknown(rt), reach
}

func (v *VC) intT(t string, ty types.Type) string {
	if v.bv {
		return fmt.Sprintf("((_ int2bv %d) %s)", v.sizeof(ty)*8, t)
	}
	return t
}

func (v *VC) mkSlice(reach, p, n, c string) string {
	v.n++
	s := fmt.Sprintf("sl!%d", v.n)
	v.emit(fmt.Sprintf("(declare-const %s Slice)", s))
	v.emit(fmt.Sprintf("(assert (= %s (mkslice %s %s %s)))", s, p, n, c))
	v.defs[s] = sx("mkslice", p, n, c)
	if !isAtom(p) && !isNum(p) {
		p = v.name("sp", "Int", p)
	}
	if !isAtom(n) && !isNum(n) {
		n = v.name("sn", "Int", n)
	}
	if !isAtom(c) && !isNum(c) {
		c = v.name("sc", "Int", c)
	}
	v.mk[s] = [3]string{p, n, c}
	v.assume(reach, sx("wfslice", s))
	return s
}

func (v *VC) sptr(s string) string {
	if m, ok := v.mk[s]; ok {
		return m[0]
	}
	if s == "nilSlice" {
		return "0"
	}
	return sx("sptr", s)
}
func (v *VC) slen(s string) string {
	if m, ok := v.mk[s]; ok {
		return m[1]
	}
	if s == "nilSlice" {
		return "0"
	}
	return sx("slen", s)
}
func (v *VC) scap(s string) string {
	if m, ok := v.mk[s]; ok {
		return m[2]
	}
	if s == "nilSlice" {
		return "0"
	}
	return sx("scap", s)
}

func (v *VC) doAppend(st *State, reach string, cc *ssa.CallCommon, args []Val, what string) Val {
	s, t := args[0], args[1]
	et := under(cc.Args[0].Type()).(*types.Slice).Elem()
	rt := cc.Signature().Results().At(0).Type()
	if t.So == "Str" {
		v.errorf("%s: append of a string", what)
		return v.unknown(rt)
	}
	comp, fn, w := v.elFn(et)
	ls, lt := v.slen(s.T), v.slen(t.T)
	n := v.name("n", "Int", Add(ls, lt))
	grow := v.name("grow", "Bool", Lt(v.scap(s.T), n))
	nc := v.fresh("cap", "Int")
	v.assume("true", Le(n, nc))
	v.assume("true", Le("0", nc))
	p := v.alloc(st, reach, MulT(w, nc))
	rp := v.name("ap", "Int", Ite(grow, p, v.sptr(s.T)))
	rc := v.name("ac", "Int", Ite(grow, nc, v.scap(s.T)))
	// the write in place
	off := Add(rp, MulT(w, ls))
	at := v.name("adr", "Int", off)
	if v.C != nil && v.C.Concurrent {
		v.assume(And(reach, Lt("0", lt)), Eq(sx("mine", at), sx("mine", rp)))
	}
	v.logRaw(comp, at, MulT(w, lt), false)
	v.checkRaw(comp, at, MulT(w, lt), And(reach, Not(grow)), what)
	old := v.get(st, comp)
	h2 := v.fresh("w_"+comp, v.compSort(comp))
	v.frameAxioms(comp, old, h2, [][2]string{{at, MulT(w, lt)}})
	st.m[comp] = h2
	v.assume(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((%s %s %s i))))",
		Imp(And(Le("0", "i"), Lt("i", ls)), Eq(sx(fn, h2, rp, "i"), sx(fn, old, v.sptr(s.T), "i"))), fn, h2, rp))
	v.assume(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((%s %s %s i))))",
		Imp(And(Le("0", "i"), Lt("i", ls)), Eq(sx(fn, h2, rp, "i"), sx(fn, old, v.sptr(s.T), "i"))), fn, old, v.sptr(s.T)))
	if fn != "elF" && fn != "elB" && v.cntable(comp) {
		cf := v.cntFn(comp)
		v.cntEmit(fmt.Sprintf("(assert %s)", Imp(reach, fmt.Sprintf("(forall ((lo Int) (hi Int) (e Int)) (! %s :pattern ((%s %s %s lo hi e))))",
			Imp(And(Le("0", "lo"), Le("hi", ls)), Eq(sx(cf, h2, rp, "lo", "hi", "e"), sx(cf, old, v.sptr(s.T), "lo", "hi", "e"))), cf, h2, rp))))
		if lt == "1" {
			v.cntEmit(fmt.Sprintf("(assert (%s_step %s %s %s))", cf, h2, rp, ls))
		}
	}
	if isNum(lt) && numOf(lt).Int64() <= 4 {
		for i := int64(0); i < numOf(lt).Int64(); i++ {
			v.assume(reach, Eq(sx(fn, h2, rp, Add(ls, NumI(i))), sx(fn, old, v.sptr(t.T), NumI(i))))
		}
	} else {
		v.assume(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((%s %s %s i))))",
			Imp(And(Le(ls, "i"), Lt("i", n)), Eq(sx(fn, h2, rp, "i"), sx(fn, old, v.sptr(t.T), Sub("i", ls)))), fn, h2, rp))
		v.assume(reach, fmt.Sprintf("(forall ((i Int)) (! %s :pattern ((%s %s %s i))))",
			Imp(And(Le("0", "i"), Lt("i", lt)), Eq(sx(fn, h2, rp, Add(ls, "i")), sx(fn, old, v.sptr(t.T), "i"))), fn, old, v.sptr(t.T)))
	}
	r := v.mkSlice(reach, rp, n, rc)
	return Val{T: r, So: "Slice", Ty: rt}
}

// unzero makes the slice of a variadic call or slice literal: its elements are there from the start.
func (v *VC) litSlice(st *State, reach string, t types.Type, comp string, n int) Val {
	et := under(t).(*types.Slice).Elem()
	_, fn, w := v.elFn(et)
	c, _, _ := v.elFn(et)
	sz := MulT(w, NumI(int64(n)))
	p := v.alloc(st, reach, sz)
	for i := 0; i < n; i++ {
		v.assume(reach, Eq(sx(fn, v.get(st, c), p, NumI(int64(i))), sx("select", v.get(st, comp), NumI(int64(i)))))
	}
	s := v.mkSlice(reach, p, NumI(int64(n)), NumI(int64(n)))
	return Val{T: s, So: "Slice", Ty: t, Var: comp, VarN: n}
}

func (v *VC) typeAssert(fr *Frame, st *State, reach string, in *ssa.TypeAssert) {
	x := v.val(fr, st, in.X)
	t := in.AssertedType
	var ok string
	var r Val
	if _, isI := under(t).(*types.Interface); isI {
		r = Val{T: x.T, So: "Iface", Ty: t, Dyn: x.Dyn}
		if x.Dyn != nil {
			ok = fmt.Sprint(types.Implements(x.Dyn.Ty, under(t).(*types.Interface)))
		} else {
			ok = v.fresh("ok", "Bool")
			v.assume("true", Imp(ok, Not(Eq(sx("itag", x.T), "0"))))
		}
		if in.CommaOk {
			r.T = v.name("ta", "Iface", Ite(ok, x.T, "nilIface"))
		}
	} else {
		if x.Dyn != nil {
			same := types.Identical(x.Dyn.Ty, t)
			ok = fmt.Sprint(same)
			if same {
				r = *x.Dyn
				r.Ty = t
			} else {
				r = v.zero(t)
			}
		} else {
			ok = v.name("ok", "Bool", Eq(sx("itag", x.T), NumI(int64(v.typeTag(t)))))
			so := v.sortOf(t)
			switch {
			case isPtr(t):
				r = Val{T: sx("idata", x.T), So: so, Ty: t}
			case so == "tuple":
				r = v.zero(t)
			default:
				if _, isS := under(t).(*types.Struct); isS {
					r = v.unknown(t)
				} else {
					v.boxes[so] = true
					r = Val{T: sx("unbox_"+xs(so), sx("idata", x.T)), So: so, Ty: t}
				}
			}
			if in.CommaOk && r.T != "" {
				r.T = v.name("ta", so, Ite(ok, r.T, v.zeroTerm(so)))
			}
		}
	}
	if in.CommaOk {
		fr.vals[in] = Val{So: "tuple", Ty: in.Type(), Tup: []Val{r, boolV(ok)}}
		return
	}
	v.safety("type assertion at "+v.posOf(in.Pos()), reach, ok)
	fr.vals[in] = r
}

func (v *VC) mapComps(t types.Type) (string, string) {
	m := under(t).(*types.Map)
	k := typeKey(m.Key()) + "_" + typeKey(m.Elem())
	ks, es := v.sortOf(m.Key()), v.sortOf(m.Elem())
	hc, vc := "p|maph_"+k, "p|mapv_"+k
	v.declComp(hc, "(Array Int (Array "+ks+" Bool))")
	v.declComp(vc, "(Array Int (Array "+ks+" "+es+"))")
	return hc, vc
}

func (v *VC) newMap(st *State, reach string, t types.Type) Val {
	p := v.alloc(st, reach, "1")
	v.localObj[p] = true
	hc, _ := v.mapComps(t)
	v.assume("true", Eq(sx("select", v.get(st, hc), p), v.zeroTerm2(arrayElem(v.compSort(hc)))))
	return Val{T: p, So: "Int", Ty: t}
}

func (v *VC) zeroTerm2(so string) string {
	a := sexpArgs(so)
	return "((as const " + so + ") " + ground(v.zeroTerm(a[2])) + ")"
}

func (v *VC) mapStore(st *State, reach string, m Val, k, x, hc, vc, pos string) {
	v.objWrite(st, reach, hc, m.T, sx("store", sx("select", v.get(st, hc), m.T), k, "true"), "map update at "+pos)
	v.objWrite(st, reach, vc, m.T, sx("store", sx("select", v.get(st, vc), m.T), k, x), "map update at "+pos)
}

// ground expands defined values, which a constant array may not mention.
func ground(t string) string {
	return strings.NewReplacer("nilSlice", "(mkslice 0 0 0)", "nilIface", "(mkiface 0 0)").Replace(t)
}
