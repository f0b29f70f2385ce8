package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// checkProperty discharges every obligation that carries the property, writes the evidence, and on
// a failure looks for a failing input with the property's replay harness.

type result struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

func contractHasTag(c *Contract, p string) bool {
	if hasTag(c.Tags, p) {
		return true
	}
	for _, cl := range c.Clauses {
		if hasTag(cl.Tags, p) {
			return true
		}
	}
	for _, l := range c.Loops {
		for _, cl := range l.Clauses {
			if hasTag(cl.Tags, p) {
				return true
			}
		}
	}
	return false
}

// exportedKey: is the function part of the API (a missing one is then an error)?
func exportedKey(k string) bool {
	if strings.Contains(k, "$") {
		return false
	}
	parts := strings.Split(k, ".")
	n := parts[len(parts)-1]
	return n != "" && strings.ToUpper(n[:1]) == n[:1]
}

func seedEnv() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func checkProperty(root, prop, tier string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	limit, secs := 560*time.Second, 60
	if thorough {
		limit, secs = 3*time.Hour, 240
	}
	r := &result{Property: prop, Tier: tier, Seed: seedEnv(), Level: "proof", Coverage: map[string]any{}}
	var failures []string // what failed, in words
	var failOut []string
	finish := func(obls []*Obl) int {
		code := 0
		if len(failures) > 0 {
			code = 1
			r.Violations = len(failures)
			dir := filepath.Join(root, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			file := filepath.Join(dir, prop+".txt")
			var b strings.Builder
			fmt.Fprintf(&b, "property %s: not established for the current tree\n\n", prop)
			for i, f := range failures {
				fmt.Fprintf(&b, "failed: %s\n", f)
				if failOut[i] != "" {
					fmt.Fprintf(&b, "    verifier: %s\n", failOut[i])
				}
			}
			os.WriteFile(file, []byte(b.String()), 0o644)
			found, out := replay(root, prop, 230*time.Second)
			if found {
				fmt.Fprintf(&b, "\nfailing input, found by running the real code:\n%s\n", out)
			} else {
				fmt.Fprintf(&b, "\nno failing input found by the replay harness:\n%s\n", out)
			}
			os.WriteFile(file, []byte(b.String()), 0o644)
			for i, f := range failures {
				if i < 8 {
					fmt.Println("failed:", f)
				}
			}
			if found {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			} else {
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, file)
			}
		}
		r.WallS = time.Since(t0).Seconds()
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
		return code
	}
	fail := func(what, out string) {
		failures = append(failures, what)
		failOut = append(failOut, out)
	}
	r.Coverage["obligations"] = 0
	r.Coverage["discharged"] = 0
	r.Coverage["checker_cmd"] = fmt.Sprintf("bin/gover -prop %s -tier %s", prop, tier)
	r.Coverage["trusted_base"] = trustedBase()
	P, err := loadProgram(filepath.Join(root, "roots"))
	if err != nil {
		fail("load: "+err.Error(), "")
		return finish(nil)
	}
	Sp, err := loadSpecs(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	// the functions
	type job struct {
		f *Func
		c *Contract
	}
	var jobs []job
	var skipped []string
	keys := map[string]bool{}
	for _, k := range Sp.Order {
		c := Sp.Contracts[k]
		if c.Kind != "func" || c.Trusted || !contractHasTag(c, prop) {
			continue
		}
		fs := P.funcsFor(c)
		if len(fs) == 0 {
			if exportedKey(k) {
				fail("the function "+k+" does not exist any more", "")
			} else {
				skipped = append(skipped, k+" (no such function any more; its callers are verified without its contract)")
			}
			continue
		}
		keys[k] = true
		for _, f := range fs {
			if !thorough && c.Heavy && f.Inst.TV != "" && f.Inst.TIX != "" &&
				f.Inst != (Inst{"float32", "uint32"}) && f.Inst != (Inst{"float64", "uint64"}) {
				continue
			}
			jobs = append(jobs, job{f, c})
		}
	}
	if len(jobs) == 0 && len(failures) == 0 {
		fmt.Println("no obligations for", prop)
		return 2
	}
	vcs := make([]*VC, len(jobs))
	var next int64 = -1
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := int(atomic.AddInt64(&next, 1))
				if j >= len(jobs) {
					return
				}
				vcs[j] = verify(P, Sp, jobs[j].f, jobs[j].c)
			}
		}()
	}
	wg.Wait()
	// lemmas that the proofs use
	lem := map[string]bool{}
	instsUsed := map[Inst]bool{}
	for _, v := range vcs {
		for a := range v.usedAx {
			lem[a] = true
		}
		in := v.inst
		if in.TV == "" {
			in.TV = "float32"
		}
		if in.TIX == "" {
			in.TIX = "uint32"
		}
		instsUsed[in] = true
	}
	isLemma := map[string]bool{}
	for again := true; again; {
		again = false
		for i, a := range Sp.Axioms {
			if !a.Lemma || !lem[a.Label] || isLemma[a.Label] {
				continue
			}
			isLemma[a.Label] = true
			again = true
			for in := range instsUsed {
				v := verifyLemma(P, Sp, i, in)
				for x := range v.usedAx {
					lem[x] = true
				}
				vcs = append(vcs, v)
			}
		}
	}
	var obls []*Obl
	errSeen := map[string]bool{}
	for _, v := range vcs {
		n := 0
		for _, o := range v.obls {
			ts := o.Tags
			if len(ts) == 0 {
				ts = v.C.Tags
			}
			if v.C.Kind != "lemma" && !hasTag(ts, prop) {
				continue
			}
			obls = append(obls, o)
			n++
		}
		for _, e := range v.errs {
			w := fmt.Sprintf("%s [%s]: no verification condition: %s", v.F.Key, v.inst, e)
			if !errSeen[w] {
				errSeen[w] = true
				fail(w, "")
			}
		}
	}
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	perFn := map[string][2]int{}
	backends := map[string]int{}
	nfail := int64(0)
	stopEarly = func() bool { return !thorough && atomic.LoadInt64(&nfail) >= 3 }
	if len(failures) >= 3 && !thorough {
		nfail = 3
	}
	discharge(obls, dir, secs, t0.Add(limit), func(o *Obl) {
		if o.Status != "proved" && o.Check != "cover" {
			atomic.AddInt64(&nfail, 1)
		}
	})
	mu.Lock()
	defer mu.Unlock()
	total, done, covers := 0, 0, 0
	var solverS float64
	exits, dead := map[string]int{}, map[string][]string{}
	for _, o := range obls {
		if o.Check == "cover" && strings.HasPrefix(o.Name, "exit at ") {
			exits[fmt.Sprintf("%s [%s]", o.Fn, o.Inst)]++
		}
	}
	for _, o := range obls {
		solverS += o.Secs
		k := fmt.Sprintf("%s [%s]", o.Fn, o.Inst)
		if o.Check == "cover" {
			// an exit may be unreachable (dead code), but not every exit, and not the entry
			if exit := strings.HasPrefix(o.Name, "exit at "); o.Status == "vacuous" && exit {
				dead[k] = append(dead[k], o.Name)
				if len(dead[k]) == exits[k] {
					fail(fmt.Sprintf("%s: vacuous: no exit is reachable", k), o.Out)
				}
			} else if o.Status == "vacuous" {
				fail(fmt.Sprintf("%s: vacuous: %s", k, o.Name), o.Out)
			} else {
				covers++
			}
			continue
		}
		total++
		x := perFn[k]
		x[1]++
		if o.Status == "proved" {
			done++
			x[0]++
			backends[o.Solver]++
		} else if o.Status != "" {
			fail(fmt.Sprintf("%s: %s: %s", k, o.Kind, o.Name), o.Out)
		}
		perFn[k] = x
	}
	var fns []string
	for k, x := range perFn {
		fns = append(fns, fmt.Sprintf("%s: %d of %d", k, x[0], x[1]))
	}
	sort.Strings(fns)
	as := map[string]bool{}
	inl := map[string]bool{}
	for _, v := range vcs {
		for k := range v.ext {
			if t, ok := strings.CutSuffix(k, " (assumed clause)"); ok {
				as["clause of the contract of "+t+" is assumed (see DESIGN.md, trusted base)"] = true
				continue
			}
			as["contract of the library function "+k+" is assumed"] = true
		}
		for k := range v.assumed {
			c := Sp.Contracts[k]
			if c == nil {
				continue
			}
			switch {
			case c.Kind == "extern":
				as["contract of the library function "+k+" is assumed"] = true
			case c.Trusted:
				as["contract of "+k+" is assumed (trusted)"] = true
			case c.Kind == "field":
				as["function values stored in "+k+" meet the field's contract"] = true
			case c.Kind == "iface":
				as["interface contract "+k+": implementations outside the repository are assumed to meet it, those inside are verified"] = true
			}
		}
		for k := range v.usedAx {
			if !isLemma[k] {
				as["axiom "+k] = true
			}
		}
		for k := range v.inlined {
			inl[k] = true
		}
	}
	r.Assumptions = append(sortedKeys(as), generalAssumptions()...)
	r.Coverage["obligations"] = total
	r.Coverage["discharged"] = done
	r.Coverage["functions_under_contract"] = fns
	r.Coverage["functions_verified_inside_their_callers"] = sortedKeys(inl)
	r.Coverage["lemmas"] = sortedKeys(isLemma)
	r.Coverage["back_ends"] = backends
	r.Coverage["solver_s"] = solverS
	r.Coverage["vacuity_covers"] = covers
	r.Coverage["unreachable_exits"] = dead
	r.Coverage["contracts_without_function"] = skipped
	r.Coverage["instances"] = func() []string {
		m := map[string]bool{}
		for _, j := range jobs {
			m[j.f.Inst.String()] = true
		}
		return sortedKeys(m)
	}()
	fmt.Printf("%s: %d of %d obligations discharged, %d functions, %.1fs\n", prop, done, total, len(keys), time.Since(t0).Seconds())
	return finish(obls)
}

func trustedBase() []string {
	return []string{
		"gover (/verif/gover): translation of Go SSA to verification conditions",
		"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker: source to SSA",
		"z3 4.8.12, z3-new, cvc5 1.1.2: an obligation counts as discharged when one of them answers unsat",
		"background theory of gover (/verif/gover/prelude.go, mem.go, count.go): byte memory with typed views, counting in ranges, integer and float facts",
		"axioms and extern contracts in /verif/contracts (listed in assumptions when used)",
	}
}

func generalAssumptions() []string {
	return []string{
		"Go semantics on amd64 with the gc layout of structs; memory behaves as allocated (no other process changes it)",
		"addresses and sizes stay below 2^48; integer arithmetic is modelled with wrap-around at the machine width",
		"pointers and slices loaded from memory respect their Go types",
		"floating-point operations are uninterpreted except for order, NaN and sign facts unless a function is verified in IEEE mode",
		"partial correctness: termination is not proved",
	}
}

// replay runs the replay harness of the property against the real code, in a scratch directory, as
// an unprivileged user. It reports whether a failing input was found.
func replay(root, prop string, limit time.Duration) (bool, string) {
	src := filepath.Join(root, "replay", prop+"_test.go")
	text, err := os.ReadFile(src)
	if err != nil {
		return false, "no replay harness for " + prop
	}
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0o755)
	pkg := "zzverif"
	race := false
	for _, l := range strings.Split(string(text), "\n") {
		if f := strings.TrimPrefix(l, "//verif:pkg "); f != l {
			pkg = strings.TrimSpace(f)
		}
		if strings.TrimSpace(l) == "//verif:race" {
			race = true
		}
	}
	ov := map[string]string{}
	ov["/repo/"+pkg+"/zz_verif_"+prop+"_test.go"] = src
	if pkg == "zzverif" {
		fs, _ := filepath.Glob(filepath.Join(root, "replay", "common*_test.go"))
		for _, f := range fs {
			ov["/repo/"+pkg+"/"+filepath.Base(f)] = f
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(dir, "t.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race", "-gcflags=all=-d=checkptr=0") // nodes are views of memory that may end before them
	}
	args = append(args, "./"+pkg)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = "/repo"
	out, err := cmd.CombinedOutput()
	if err != nil {
		return false, "the replay harness does not build: " + string(out)
	}
	os.Chmod(bin, 0o755)
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0o777)
	os.Chmod(work, 0o777)
	run := func(cred *syscall.Credential) ([]byte, error) {
		c := exec.CommandContext(ctx, bin, "-test.v", "-test.run", "^TestReplay", "-test.timeout", fmt.Sprint(limit-10*time.Second), "-test.failfast")
		c.Dir = work
		c.Env = append(os.Environ(), "TMPDIR="+work, "HOME="+work, "GOMEMLIMIT=6GiB", "GORACE=halt_on_error=1")
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL, Credential: cred}
		var buf bytes.Buffer
		c.Stdout, c.Stderr = &buf, &buf
		c.WaitDelay = time.Second
		err := c.Run()
		return buf.Bytes(), err
	}
	o, err := run(&syscall.Credential{Uid: 65534, Gid: 65534})
	if err != nil && strings.Contains(err.Error(), "operation not permitted") {
		o, err = run(nil)
	}
	s := string(o)
	if len(s) > 6000 {
		s = s[:3500] + "\n...\n" + s[len(s)-2400:]
	}
	if err == nil {
		return false, s
	}
	if ctx.Err() != nil && !strings.Contains(s, "REPLAY-FAIL") {
		return false, "timed out\n" + s
	}
	if strings.Contains(s, "panic: test timed out") && !strings.Contains(s, "REPLAY-FAIL") {
		return false, "timed out\n" + s
	}
	if strings.Contains(s, "REPLAY-FAIL") || strings.Contains(s, "panic:") || strings.Contains(s, "DATA RACE") || strings.Contains(s, "fatal error:") || strings.Contains(s, "SIGSEGV") {
		return true, s
	}
	return false, s
}
