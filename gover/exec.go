package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function body (the function under verification or an inlined callee).
type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	parent *Frame
	path   string
	defers []deferred
	exits  []exit
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	names  map[string]Val // extra names visible to specifications (contract parameters)
	callNo int
	at        *ssa.BasicBlock // block being executed
	callAt    *ssa.BasicBlock // block of the call in the parent
	baseLoops []*loopCtx
}

type deferred struct {
	cond string
	call *ssa.Defer
	args []Val
	fn   Val
}

type exit struct {
	st   *State
	cond string
	res  []Val
	pos  token.Pos
	mark int
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	num    int
	ctx    *loopCtx
	phis   map[string]Val // pre values by name
	backs  []edge
	dryB   bool
	spec   *LoopSpec
	inits  map[*ssa.Phi]Val
	headSt *State           // state at the start of an iteration
	headV  map[*ssa.Phi]Val // the phis there
}

func (v *VC) newFrame(fn *ssa.Function, parent *Frame, path string) *Frame {
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, parent: parent, path: path, loops: map[*ssa.BasicBlock]*loopInfo{}}
	// reverse postorder, first successor first
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fr.order = append(fr.order, post[i])
	}
	for _, b := range fr.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fr.loops[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = li
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					for _, p := range x.Preds {
						stack = append(stack, p)
					}
				}
			}
		}
	}
	return fr
}

// run executes the blocks of a region in order. Edges that leave the region are dropped,
// edges back to stop are collected in its loopInfo.
func (v *VC) run(fr *Frame, region map[*ssa.BasicBlock]bool, first *ssa.BasicBlock, in []edge, stop *loopInfo) {
	inc := map[*ssa.BasicBlock][]edge{first: in}
	for _, b := range fr.order {
		if region != nil && !region[b] {
			continue
		}
		es := inc[b]
		if len(es) == 0 {
			continue
		}
		var conds []string
		for _, e := range es {
			conds = append(conds, e.cond)
		}
		reach := v.name("at", "Bool", Or(conds...))
		if reach == "false" {
			continue
		}
		st := v.merge(es)
		fr.at = b
		skipPhi := false
		if li := fr.loops[b]; li != nil && !(stop == li) {
			reach, st = v.cutLoop(fr, li, es, st, reach)
			skipPhi = true
		} else if stop != nil && b == stop.header {
			skipPhi = true
		}
		if !skipPhi {
			v.phis(fr, b, es)
		}
		v.setLoops(fr, b)
		dead := false
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			switch in := in.(type) {
			case *ssa.Jump:
				v.flow(fr, b, b.Succs[0], edge{st, reach, b}, inc, region, stop)
			case *ssa.If:
				c := v.val(fr, st, in.Cond).T
				v.flow(fr, b, b.Succs[0], edge{st, v.name("e", "Bool", And(reach, c)), b}, inc, region, stop)
				v.flow(fr, b, b.Succs[1], edge{st.clone(), v.name("e", "Bool", And(reach, Not(c))), b}, inc, region, stop)
			case *ssa.Return:
				var res []Val
				for _, r := range in.Results {
					res = append(res, v.val(fr, st, r))
				}
				v.doReturn(fr, st, reach, res, in.Pos())
			case *ssa.Panic:
				v.doPanic(fr, st, reach, in)
				dead = true
			default:
				reach = v.instr(fr, b, st, reach, in)
			}
			if dead {
				break
			}
		}
	}
}

func (v *VC) flow(fr *Frame, from, to *ssa.BasicBlock, e edge, inc map[*ssa.BasicBlock][]edge, region map[*ssa.BasicBlock]bool, stop *loopInfo) {
	if e.cond == "false" {
		return
	}
	if li := fr.loops[to]; li != nil && to.Dominates(from) {
		// back edge
		if stop == li {
			li.backs = append(li.backs, e)
			return
		}
		v.backEdge(fr, li, e)
		return
	}
	if region != nil && !region[to] {
		return
	}
	inc[to] = append(inc[to], e)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (v *VC) phis(fr *Frame, b *ssa.BasicBlock, es []edge) {
	type pv struct {
		p *ssa.Phi
		x Val
	}
	var out []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, pv{p, v.phiVal(fr, p, es)})
	}
	for _, o := range out {
		fr.vals[o.p] = o.x
	}
}

func (v *VC) phiVal(fr *Frame, p *ssa.Phi, es []edge) Val {
	var vs []Val
	var cs []string
	for _, e := range es {
		i := predIndex(p.Block(), e.from)
		if i < 0 {
			v.errorf("phi without edge in %s", fr.fn)
			continue
		}
		vs = append(vs, v.val(fr, e.st, p.Edges[i]))
		cs = append(cs, e.cond)
	}
	return v.joinVals(p.Comment, p.Type(), vs, cs)
}

func (v *VC) joinVals(hint string, t types.Type, vs []Val, cs []string) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	if len(vs[0].Tup) > 0 {
		out := Val{Ty: t, So: "tuple"}
		for i := range vs[0].Tup {
			var c []Val
			for _, x := range vs {
				c = append(c, x.Tup[i])
			}
			out.Tup = append(out.Tup, v.joinVals(hint, vs[0].Tup[i].Ty, c, cs))
		}
		return out
	}
	same := true
	for _, x := range vs[1:] {
		if x.T != vs[0].T {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	so := vs[0].So
	n := v.fresh("phi_"+hint, so)
	for i, x := range vs {
		v.assume(cs[i], Eq(n, x.T))
	}
	// typing facts of the merged value follow from its parts
	return Val{T: n, So: so, Ty: t}
}

// ---- loops ----

func (v *VC) loopNum(fr *Frame, h *ssa.BasicBlock) int {
	k := fr.path + "#" + strconv.Itoa(h.Index)
	for i, x := range v.cloops {
		if x == k {
			return i + 1
		}
	}
	v.cloops = append(v.cloops, k)
	return len(v.cloops)
}

func symID(s string) int {
	i := strings.LastIndexByte(s, '!')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(s[i+1:])
	if err != nil {
		return -1
	}
	return n
}

func termToks(t string) []string {
	var out []string
	i := 0
	for i < len(t) {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' {
			out = append(out, string(c))
			i++
			continue
		}
		j := i
		for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' {
			j++
		}
		out = append(out, t[i:j])
		i = j
	}
	return out
}

// invariantTerm rewrites a term to symbols that exist before symbol number start.
func (v *VC) invariantTerm(t string, start int) (string, bool) {
	if t == "" {
		return "", false
	}
	if len(t) > 4000 {
		return "", false
	}
	var b strings.Builder
	for _, k := range termToks(t) {
		if id := symID(k); id > start {
			d, ok := v.defs[k]
			if !ok {
				return "", false
			}
			x, ok := v.invariantTerm(d, start)
			if !ok {
				return "", false
			}
			b.WriteString(x)
			continue
		}
		b.WriteString(k)
	}
	return b.String(), true
}

func (v *VC) cutLoop(fr *Frame, li *loopInfo, es []edge, pre *State, reach string) (string, *State) {
	li.num = v.loopNum(fr, li.header)
	li.spec = nil
	if v.C != nil {
		li.spec = v.C.Loops[li.num]
	}
	start := v.n
	// values of the phis on entry
	li.inits = map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		li.inits[p] = v.phiVal(fr, p, es)
	}
	start = v.n
	preHook := pre.clone()
	ctx := &loopCtx{start: start, brkL: v.get(pre, "brk"), pre: preHook, allowed: map[string][][2]string{}}
	bindPhis := func() {
		for _, p := range phis {
			fr.vals[p] = v.havocVal("l_"+p.Comment, p.Type(), li.inits[p])
		}
	}
	// dry runs: which components change, and where
	mod := map[string]bool{}
	var logs []wlog
	for round := 0; round < 6; round++ {
		mark, marko := len(v.lines), len(v.obls)
		saveLog, saveDef, saveCall := v.log, len(fr.defers), fr.callNo
		saveBack := li.backs
		savePend := v.immPend
		v.immPend = map[string]map[string]bool{}
		v.log, li.backs = nil, nil
		v.dry++
		st := pre.clone()
		var ks []string
		for k := range mod {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			st.m[k] = v.fresh("d_"+k, v.compSort(k))
		}
		bindPhis()
		saveExits := fr.exits
		saveCtx := li.ctx
		li.ctx = &loopCtx{start: start, brkL: ctx.brkL, pre: preHook, auto: true}
		v.run(fr, li.blocks, li.header, []edge{{st, "true", nil}}, li)
		li.ctx = saveCtx
		fr.exits = saveExits
		fr.at = li.header
		fr.callNo = saveCall
		v.immPend = savePend
		v.dry--
		logs = v.log
		v.lines, v.obls = v.lines[:mark], v.obls[:marko]
		v.log, fr.defers, li.backs = append(saveLog, logs...), fr.defers[:saveDef], saveBack
		grew := false
		for _, l := range logs {
			if !mod[l.comp] {
				mod[l.comp] = true
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	// check the invariants on entry
	for _, p := range phis {
		fr.vals[p] = li.inits[p]
	}
	li.ctx = ctx
	v.invariants(fr, li, pre, reach, "entry", start)

	// havoc
	st := pre.clone()
	bindPhis()
	var ks []string
	for k := range mod {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	// brk first: frames refer to it
	if mod["brk"] {
		n := v.fresh("brk", "Int")
		v.assume("true", Le(ctx.brkL, n))
		st.m["brk"] = n
	}
	for _, k := range ks {
		if k == "brk" {
			continue
		}
		switch {
		case k == "H" || strings.HasPrefix(k, "x|"):
			var regs [][2]string
			seen := map[string]bool{}
			exact, free := true, false
			for _, l := range logs {
				if l.comp != k {
					continue
				}
				p, ok1 := v.invariantTerm(l.ptr, start)
				n, ok2 := v.invariantTerm(l.n, start)
				if l.all {
					exact = false
					free = true
					continue
				}
				if !ok1 || !ok2 {
					exact = false
					continue
				}
				if !seen[p+"|"+n] {
					seen[p+"|"+n] = true
					regs = append(regs, [2]string{p, n})
				}
			}
			if !exact {
				own := false
				if li.spec != nil {
					for _, c := range li.spec.Clauses {
						if c.Kind == "modifies" {
							ev := &evalCtx{v: v, st: pre, old: v.entry, fr: fr, loop: li, header: li.header}
							rs, a := v.locRegions(ev, c.Locs, k)
							regs = append(regs, rs...)
							free = free || a
							own = true
						}
					}
				}
				if !own {
					fregs, all := v.frameRegions(k)
					free = free || all
					regs = append(regs, fregs...)
				}
				// what the loop itself allocates
				regs = append(regs, [2]string{ctx.brkL, hugeN})
			}
			n := v.fresh("h_"+k, v.compSort(k))
			st.m[k] = n
			if !free {
				ctx.allowed[k] = regs
				if ctx.allowed[k] == nil {
					ctx.allowed[k] = [][2]string{}
				}
				v.frameAxioms(k, v.get(pre, k), n, regs)
			}
		case strings.HasPrefix(k, "f|") || strings.HasPrefix(k, "p|"):
			var objs []string
			seen := map[string]bool{}
			exact := true
			for _, l := range logs {
				if l.comp != k {
					continue
				}
				p, ok := v.invariantTerm(l.ptr, start)
				if !ok || l.all {
					exact = false
					continue
				}
				if !seen[p] {
					seen[p] = true
					objs = append(objs, p)
				}
			}
			if exact {
				t := v.get(pre, k)
				for _, o := range objs {
					es := strings.TrimSuffix(strings.TrimPrefix(v.compSort(k), "(Array Int "), ")")
					x := v.fresh("h_"+k, es)
					if ty := v.comps[k]; ty != nil {
						v.typeFacts(ty, x, st)
					}
					t = sx("store", t, o, x)
				}
				v.set(st, k, t)
			} else {
				fobjs, all := v.frameObjs(k)
				objs = append(objs, fobjs...)
				if li.spec != nil {
					for _, c := range li.spec.Clauses {
						if c.Kind == "modifies" {
							ev := &evalCtx{v: v, st: pre, old: v.entry, fr: fr, loop: li, header: li.header}
							rs, a := v.locRegions(ev, c.Locs, k)
							all = all || a
							for _, r := range rs {
								objs = append(objs, r[0])
							}
						}
					}
				}
				n := v.havocComp(st, k)
				if !all {
					conds := []string{sx("<", "o", ctx.brkL)}
					for _, o := range objs {
						conds = append(conds, Not(Eq("o", o)))
					}
					v.emit(fmt.Sprintf("(assert (forall ((o Int)) (! %s :pattern ((select %s o)))))",
						Imp(And(conds...), Eq(sx("select", n, "o"), sx("select", v.get(pre, k), "o"))), n))
					var regs [][2]string
					for _, o := range objs {
						regs = append(regs, [2]string{o, "1"})
					}
					ctx.allowed[k] = regs
					if regs == nil {
						ctx.allowed[k] = [][2]string{}
					}
				}
			}
		default:
			n := v.fresh("h_"+k, v.compSort(k))
			st.m[k] = n
			if strings.HasPrefix(k, "c|") {
				if ty := v.comps[k]; ty != nil {
					v.typeFacts(ty, n, st)
				}
			}
		}
	}
	for _, p := range phis {
		v.phiFacts(fr, li, p, st)
	}
	v.invariants(fr, li, st, reach, "assume", start)
	li.headSt = st.clone()
	return reach, st
}

// rangeMax bounds the index of a range loop over a slice (slices have at most 2^48 elements).
const rangeMax = "281474976710656"

// phiFacts assumes what holds of every phi: its type, and for counters their direction.
func (v *VC) phiFacts(fr *Frame, li *loopInfo, p *ssa.Phi, st *State) {
	x := fr.vals[p]
	if x.T == "" {
		return
	}
	if !v.bv && isInt(p.Type()) {
		if up, ok := v.counter(li, p); ok {
			init := li.inits[p].T
			if up > 0 {
				v.assume("true", Le(init, x.T))
				if p.Comment == "rangeindex" {
					v.assume("true", Le(x.T, rangeMax))
				}
			} else {
				v.assume("true", Le(x.T, init))
			}
		}
	}
}

// counter recognises a phi that every back edge increments (or decrements) by one, provided the
// loop condition bounds it (so that it cannot wrap). The bound is checked, not assumed: see backEdge.
func (v *VC) counter(li *loopInfo, p *ssa.Phi) (int, bool) {
	step := 0
	for i, pr := range li.header.Preds {
		if !li.blocks[pr] {
			continue
		}
		s := stepOf(p.Edges[i], p, 0)
		if s == 0 || (step != 0 && s != step) {
			return 0, false
		}
		step = s
	}
	return step, step != 0
}

func stepOf(e ssa.Value, p *ssa.Phi, depth int) int {
	if depth > 4 {
		return 0
	}
	switch b := e.(type) {
	case *ssa.BinOp:
		if b.X == p {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
				if b.Op == token.ADD {
					return 1
				}
				if b.Op == token.SUB {
					return -1
				}
			}
		}
	case *ssa.Phi:
		s := 0
		for _, x := range b.Edges {
			k := stepOf(x, p, depth+1)
			if k == 0 || (s != 0 && s != k) {
				return 0
			}
			s = k
		}
		return s
	}
	return 0
}

func (v *VC) backEdge(fr *Frame, li *loopInfo, e edge) {
	// bind the phis to their values along the back edge
	save := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		save[p] = fr.vals[p]
	}
	nv := map[*ssa.Phi]Val{}
	for _, p := range phis {
		nv[p] = v.val(fr, e.st, p.Edges[predIndex(li.header, e.from)])
	}
	for _, p := range phis {
		if up, ok := v.counter(li, p); ok && !v.bv && isInt(p.Type()) {
			// the counter has not wrapped
			goal := Le(li.inits[p].T, nv[p].T)
			if up < 0 {
				goal = Le(nv[p].T, li.inits[p].T)
			}
			if p.Comment == "rangeindex" {
				goal = And(goal, Le(nv[p].T, rangeMax))
			}
			v.oblige("counter", fmt.Sprintf("loop %d: counter %s does not wrap", li.num, p.Comment), nil, e.cond, goal)
		}
	}
	for p, x := range nv {
		fr.vals[p] = x
	}
	li.headV = save
	if li.spec != nil {
		for i, c := range li.spec.Clauses {
			if c.Kind != "step" {
				continue
			}
			ev := &evalCtx{v: v, st: e.st, old: v.entry, fr: fr, loop: li, header: li.header}
			t, err := ev.boolean(c.E)
			if err != nil {
				v.errorf("loop %d step: %v", li.num, err)
				continue
			}
			v.obligeParts("invariant", fmt.Sprintf("loop %d: step%d", li.num, i+1), c.Tags, e.cond, t)
		}
	}
	v.invariants(fr, li, e.st, e.cond, "preserved", li.ctx.start)
	for p, x := range save {
		fr.vals[p] = x
	}
}

// closeLoops removes loop contexts that ended; called when a region is complete.
func (v *VC) invariants(fr *Frame, li *loopInfo, st *State, reach, phase string, start int) {
	if li.spec == nil {
		return
	}
	for i, c := range li.spec.Clauses {
		if c.Kind != "invariant" {
			continue
		}
		ev := &evalCtx{v: v, st: st, old: v.entry, fr: fr, loop: li, header: li.header}
		t, err := ev.boolean(c.E)
		lab := c.Label
		if lab == "" {
			lab = fmt.Sprintf("inv%d", i+1)
		}
		if err != nil {
			v.errorf("loop %d invariant %s: %v", li.num, lab, err)
			continue
		}
		if phase == "assume" {
			v.assume(reach, t)
		} else {
			v.obligeParts("invariant", fmt.Sprintf("loop %d: %s (%s)", li.num, lab, phase), c.Tags, reach, t)
		}
	}
}

// obligeParts splits a conjunction into separate obligations.
func (v *VC) obligeParts(kind, name string, tags []string, reach, t string) {
	parts := splitAnd(t)
	if len(parts) == 1 {
		v.oblige(kind, name, tags, reach, t)
		return
	}
	for i, p := range parts {
		v.oblige(kind, fmt.Sprintf("%s #%d", name, i+1), tags, reach, p)
	}
}

func sexpArgs(t string) []string {
	// t = (op a b c)
	var out []string
	depth, startI := 0, -1
	for i := 1; i < len(t)-1; i++ {
		switch t[i] {
		case '(':
			if depth == 0 && startI < 0 {
				startI = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				out = append(out, t[startI:i+1])
				startI = -1
			}
		case ' ':
			if depth == 0 && startI >= 0 {
				out = append(out, t[startI:i])
				startI = -1
			}
		default:
			if depth == 0 && startI < 0 {
				startI = i
			}
		}
	}
	if startI >= 0 {
		out = append(out, t[startI:len(t)-1])
	}
	return out
}

func splitAnd(t string) []string {
	if strings.HasPrefix(t, "(and ") {
		var out []string
		for _, a := range sexpArgs(t)[1:] {
			out = append(out, splitAnd(a)...)
		}
		return out
	}
	if strings.HasPrefix(t, "(=> ") {
		a := sexpArgs(t)
		ps := splitAnd(a[2])
		if len(ps) > 1 {
			var out []string
			for _, p := range ps {
				out = append(out, "(=> "+a[1]+" "+p+")")
			}
			return out
		}
	}
	return []string{t}
}

func (v *VC) havocVal(hint string, t types.Type, init Val) Val {
	if len(init.Tup) > 0 {
		out := Val{Ty: t, So: "tuple"}
		for _, x := range init.Tup {
			out.Tup = append(out.Tup, v.havocVal(hint, x.Ty, x))
		}
		return out
	}
	so := v.sortOf(t)
	n := v.fresh(hint, so)
	x := Val{T: n, So: so, Ty: t}
	r := v.inRange(t, n)
	v.assume("true", r)
	return x
}

// typeFacts assumes the type invariant of a value read from memory.
func (v *VC) typeFacts(t types.Type, term string, st *State) {
	v.assume("true", v.inRange(t, term))
	switch u := under(t).(type) {
	case *types.Slice:
		w := "1"
		if isNumeric(u.Elem()) {
			w = NumI(v.sizeof(u.Elem()))
		}
		v.assume("true", Le(Add(sx("sptr", term), MulT(w, sx("scap", term))), v.get(st, "brk")))
	case *types.Pointer:
		v.assume("true", Lt(term, v.get(st, "brk")))
	case *types.Interface:
		v.assume("true", And(Le("0", sx("idata", term)), Lt(sx("idata", term), v.get(st, "brk"))))
	}
}

// setLoops determines the loops around a block.
func (v *VC) setLoops(fr *Frame, b *ssa.BasicBlock) {
	var ls []*loopInfo
	for _, li := range fr.loops {
		if li.blocks[b] && li.ctx != nil {
			ls = append(ls, li)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	v.loops = append([]*loopCtx{}, fr.baseLoops...)
	for _, l := range ls {
		v.loops = append(v.loops, l.ctx)
	}
}
