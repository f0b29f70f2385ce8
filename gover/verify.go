package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func (v *VC) clauseOn(c *Clause) bool {
	switch c.Mode {
	case "conc":
		return v.C != nil && v.C.Concurrent
	case "bv":
		return v.bv
	case "ieee":
		return v.ieee
	case "int":
		return !v.bv
	case "uf":
		return !v.ieee
	}
	return true
}

// nodeType is the node type of the package of the function, when it declares one.
func (v *VC) nodeType() *types.Struct {
	if v.F == nil || v.F.SSA == nil {
		return nil
	}
	fn := v.F.SSA
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return nil
	}
	sc := fn.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok || st.NumFields() == 0 || nt.TypeParams().Len() != 2 {
			continue
		}
		if a, ok := st.Field(st.NumFields() - 1).Type().Underlying().(*types.Array); !ok || a.Len() != 0 {
			continue
		}
		it := v.specType(pkgBase(fn.Pkg.Pkg) + "." + n)
		if it != nil {
			return it.Underlying().(*types.Struct)
		}
	}
	return nil
}

func (v *VC) layoutOffsets(st *types.Struct) map[string]int64 {
	var fs []*types.Var
	for j := 0; j < st.NumFields(); j++ {
		fs = append(fs, st.Field(j))
	}
	out := map[string]int64{}
	for i, o := range v.P.sizes.Offsetsof(fs) {
		out[fs[i].Name()] = o
	}
	return out
}

func newVC(P *Program, Sp *Specs, f *Func, c *Contract) *VC {
	v := &VC{P: P, Sp: Sp, F: f, C: c, inst: f.Inst, bv: c.Mode == "bv", ieee: c.Mode == "ieee",
		defs: map[string]string{}, sorts: map[string]string{}, init: map[string]string{}, strs: map[string]string{},
		flts: map[string]float64{}, tags: map[string]int{}, usedAx: map[string]bool{}, comps: map[string]types.Type{},
		fids: map[string]int{}, assumed: map[string]bool{}, ext: map[string]bool{}, nameMap: map[string]string{},
		missing: map[string]bool{}, inlined: map[string]bool{}, localObj: map[string]bool{}, known: map[string]bool{}, globals: map[string]bool{},
		cellMeta: map[string]Val{}, imms: map[string]string{}, immPend: map[string]map[string]bool{},
		varCells: map[string]map[string]Val{}, boxes: map[string]bool{}, rawT: map[string]types.Type{}, mk: map[string][3]string{},
		ufUsed: map[string]bool{}}
	v.declComp("brk", "Int")
	return v
}

// verify generates the verification conditions of one function.
func verify(P *Program, Sp *Specs, f *Func, c *Contract) (v *VC) {
	v = newVC(P, Sp, f, c)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				v.errorf("%s", s.s)
				return
			}
			v.errorf("internal: %v", r)
			if debugPanic {
				panic(r)
			}
		}
	}()
	fn := f.SSA
	st := &State{m: map[string]string{}}
	v.entry = st
	v.brk0 = v.initial("brk")
	v.emit("(assert (< 0 st_brk))")
	fr := v.newFrame(fn, nil, "")
	v.top = fr
	var args []Val
	for i, p := range fn.Params {
		so := v.sortOf(p.Type())
		if types.IsInterface(p.Type()) && i < len(c.BodyTys) {
			// a library function is verified for calls with values of this type
			x, iface := v.dynArg(p.Name(), c.BodyTys[i], p.Type(), st)
			fr.vals[p] = iface
			args = append(args, x)
			continue
		}
		var x Val
		if _, isS := under(p.Type()).(*types.Struct); isS {
			x = v.freshResult("arg_"+p.Name(), p.Type(), st)
		} else {
			x = Val{T: v.fresh("arg_"+p.Name(), so), So: so, Ty: p.Type()}
			v.typeFacts(p.Type(), x.T, st)
		}
		fr.vals[p] = x
		args = append(args, x)
	}
	names := map[string]Val{}
	for i, p := range fn.FreeVars {
		_ = i
		// captured variables live in cells of their own
		id := "c|free_" + p.Name()
		t := deref(p.Type())
		if _, ok := under(t).(*types.Struct); ok {
			// an object
			x := Val{T: v.fresh("free_"+p.Name(), "Int"), So: "Int", Ty: p.Type()}
			v.typeFacts(p.Type(), x.T, st)
			v.assume("true", Lt("0", x.T))
			fr.vals[p] = x
			names[p.Name()] = x
			continue
		}
		v.declComp(id, v.sortOf(t))
		v.comps[id] = t
		fr.vals[p] = Val{So: "Int", Ty: p.Type(), A: &Addr{Kind: "cell", Comp: id, Elem: t}}
		v.typeFacts(t, v.get(st, id), st)
		names[p.Name()] = Val{T: v.get(st, id), So: v.sortOf(t), Ty: t}
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := under(args[0].Ty).(*types.Pointer); ok {
			v.assume("true", Lt("0", args[0].T))
		}
	}
	v.topBound = v.withIfaces(c, args, "entry")
	for k, x := range names {
		v.topBound[0].names[k] = x
	}
	fr.names = v.topBound[0].names
	for _, b := range v.topBound {
		ev := &evalCtx{v: v, st: st, old: st, names: b.names}
		for _, cl := range b.c.Clauses {
			if cl.Kind != "requires" || !v.clauseOn(cl) {
				continue
			}
			t, err := ev.boolean(cl.E)
			if err != nil {
				v.errorf("precondition: %v", err)
				continue
			}
			v.assume("true", t)
		}
	}
	v.entry = st.clone()
	v.frameRefines()
	v.obls = append(v.obls, &Obl{Name: "the precondition can be met", Kind: "cover", N: len(v.lines), Goal: "false", Reach: "true", vc: v, Check: "cover", Fn: f.Key, Inst: f.Inst, Tags: c.Tags})
	if len(fn.Blocks) == 0 {
		v.errorf("%s has no body", f.Key)
		return v
	}
	v.run(fr, nil, fn.Blocks[0], []edge{{st, "true", nil}}, nil)
	for n := range c.Loops {
		if n > len(v.cloops) {
			v.errorf("contract describes loop %d, the function has %d", n, len(v.cloops))
		}
	}
	// lemma obligations about the layout of nodes
	if t := v.nodeType(); t != nil && fn.Signature.Recv() == nil && strings.HasSuffix(f.Key, ".Distance") {
		offs := v.layoutOffsets(t)
		term := v.layoutTerm()
		if _, ok := offs["dot_factor"]; !ok {
			term = "(and (= off_n_descendants 0) (<= " + v.W() + " off_children) (<= (+ off_children (* 2 " + v.W() + ")) off_v) (<= (+ off_children " + v.WF() + ") off_v) (<= off_v 64))"
		}
		v.oblige("layout", "attributes of a node do not overlap", c.Tags, "true", term)
		for _, n := range []string{"n_descendants", "children", "v"} {
			if _, ok := offs[n]; !ok {
				v.errorf("node type has no field %s", n)
			}
		}
	}
	v.axioms()
	return v
}

// dynArg is an argument whose dynamic type is a pointer to the given type.
func (v *VC) dynArg(name, key string, it types.Type, st *State) (Val, Val) {
	t := v.specType(key)
	if t == nil {
		panic(specErr{"unknown type " + key})
	}
	pt := types.NewPointer(t)
	x := Val{T: v.fresh("arg_"+name, "Int"), So: "Int", Ty: pt}
	v.typeFacts(pt, x.T, st)
	v.assume("true", Lt("0", x.T))
	iface := Val{T: v.name("if", "Iface", sx("mkiface", NumI(int64(v.typeTag(pt))), x.T)), So: "Iface", Ty: it}
	iface.Dyn = &x
	return x, iface
}

// axioms adds the axioms of the contracts whose symbols occur.
func (v *VC) axioms() { v.axiomsUpTo(len(v.Sp.Axioms)) }

// verifyLemma makes the obligation that proves a lemma of the contracts, by strong induction when
// it names an induction variable. Only axioms and lemmas stated before it may be used.
func verifyLemma(P *Program, Sp *Specs, n int, inst Inst) *VC {
	l := Sp.Axioms[n]
	key := "lemma " + l.Label
	v := newVC(P, Sp, &Func{Key: key, Inst: inst}, &Contract{Key: key, Kind: "lemma", Loops: map[int]*LoopSpec{}})
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				v.errorf("%s", s.s)
				return
			}
			v.errorf("internal: %v", r)
		}
	}()
	st := &State{m: map[string]string{}}
	v.entry = st
	v.brk0 = v.initial("brk")
	if l.E.Op != "all" {
		v.errorf("lemma %s is not a universal formula", l.Label)
		return v
	}
	bound := map[string]Val{}
	for _, q := range l.E.Vars {
		so := v.specSort(q.Sort)
		var ty types.Type
		if t := v.specType(q.Sort); t != nil {
			ty = types.NewPointer(t)
			so = "Int"
		}
		bound[q.Name] = Val{T: v.fresh("lem_"+q.Name, so), So: so, Ty: ty}
	}
	ev := (&evalCtx{v: v, st: st, old: st}).bind(bound)
	if l.By != "" {
		k, ok := bound[l.By]
		if !ok || k.So != "Int" {
			v.errorf("lemma %s: no integer variable %s", l.Label, l.By)
			return v
		}
		v.n++
		kk := fmt.Sprintf("%s_q%d", l.By, v.n)
		ih := ev.bind(map[string]Val{l.By: intV(kk)})
		t := ih.eval(l.E.A[0]).T
		pat := ""
		for _, tr := range l.E.Trig {
			var xs []string
			for _, x := range tr {
				xs = append(xs, ih.eval(x).T)
			}
			pat += " :pattern (" + strings.Join(xs, " ") + ")"
		}
		body := Imp(And(Le("0", kk), Lt(kk, k.T)), t)
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		v.emit(fmt.Sprintf("(assert (forall ((%s Int)) %s))", kk, body))
	}
	// the terms of the patterns help the solver
	for _, tr := range l.E.Trig {
		for _, x := range tr {
			y := ev.eval(x)
			v.name("hint", y.So, y.T)
		}
	}
	v.oblige("lemma", l.Label, nil, "true", ev.eval(l.E.A[0]).T)
	v.axiomsUpTo(n)
	return v
}

func (v *VC) axiomsUpTo(max int) {
	text := strings.Join(v.lines, "\n")
	for _, o := range v.obls {
		text += "\n" + o.Goal
	}
	var extra []string
	done := map[int]bool{}
	for {
		more := false
		for i, a := range v.Sp.Axioms {
			if i >= max || done[i] || !v.clauseOn(a) {
				continue
			}
			used := false
			for _, u := range ufsIn(a.E, v.Sp) {
				if strings.Contains(text, "(u_"+u+" ") || strings.Contains(text, " u_"+u) {
					used = true
				}
			}
			if !used {
				continue
			}
			done[i] = true
			more = true
			save := v.lines
			v.lines = nil
			ev := &evalCtx{v: v, st: v.entry, old: v.entry}
			t, err := ev.boolean(a.E)
			v.lines = save
			if err != nil {
				v.errorf("axiom %s: %v", a.Label, err)
				continue
			}
			extra = append(extra, "(assert "+t+")")
			text += "\n" + t
			v.usedAx[a.Label] = true
		}
		if !more {
			break
		}
	}
	v.axLines = extra
}

func ufsIn(e *SExpr, sp *Specs) []string {
	m := map[string]bool{}
	var f func(e *SExpr, d int)
	f = func(e *SExpr, d int) {
		if e == nil || d > 30 {
			return
		}
		if e.Op == "call" || e.Op == "id" {
			if _, ok := sp.UFs[e.S]; ok {
				m[e.S] = true
			}
			if df, ok := sp.Defs[e.S]; ok {
				f(df.Body, d+1)
			}
		}
		for _, a := range e.A {
			f(a, d)
		}
	}
	f(e, 0)
	return sortedKeys(m)
}

// usesCnt: is counting of any use here?
func (v *VC) usesCnt() bool {
	v.cntOnce.Do(func() {
		for _, o := range v.obls {
			if strings.Contains(o.Goal, "(cnt_") {
				v.cntUsed = true
				return
			}
		}
		for _, ls := range [][]string{v.lines, v.axLines} {
			for _, l := range ls {
				if strings.Contains(l, "(cnt_") && !strings.HasSuffix(l, cntMark) {
					v.cntUsed = true
					return
				}
			}
		}
	})
	return v.cntUsed
}

// query is the complete text that decides one obligation.
func (o *Obl) query(pre, head string) string {
	v := o.vc
	var b strings.Builder
	b.WriteString(pre)
	if v.usesCnt() {
		b.WriteString(head)
	} else {
		for _, l := range strings.Split(head, "\n") {
			if !strings.HasSuffix(l, cntMark) {
				b.WriteString(l)
				b.WriteByte('\n')
			}
		}
	}
	for _, l := range v.axLines {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	for _, l := range v.lines[:o.N] {
		if strings.HasSuffix(l, cntMark) && !v.usesCnt() {
			continue
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	if o.Reach != "true" {
		fmt.Fprintf(&b, "(assert %s)\n", o.Reach)
	}
	if o.Goal != "false" {
		fmt.Fprintf(&b, "(assert (not %s))\n", o.Goal)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// used lists the contracts that the proof of a function rests on.
func (v *VC) usedKeys() []string {
	var out []string
	for k := range v.assumed {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
