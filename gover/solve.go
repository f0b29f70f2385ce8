package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type solver struct {
	name string
	cmd  func(file string, secs int) []string
	opts string
}

func z3new(name, opts string) solver {
	return solver{name, func(f string, s int) []string {
		return append(append([]string{"z3-new", "-T:" + fmt.Sprint(s)}, strings.Fields(opts)...), f)
	}, ""}
}

const noMBQI = "smt.mbqi=false auto_config=false "

// The first decides most obligations alone; the others are tried together on what it leaves.
var solvers = []solver{
	z3new("z3-new", noMBQI+"smt.qi.eager_threshold=3 smt.case_split=3"),
	z3new("z3-new/eager4", noMBQI+"smt.qi.eager_threshold=4"),
	z3new("z3-new/mbqi", "smt.qi.eager_threshold=3"),
	z3new("z3-new/eager8", noMBQI+"smt.qi.eager_threshold=8"),
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(s*1000), "--full-saturate-quant", f}
	}, "(set-logic ALL)\n"},
}

// More attempts at the few that are still open.
var lastSolvers = []solver{
	z3new("z3-new/eager5", noMBQI+"smt.qi.eager_threshold=5 smt.case_split=3 smt.random_seed=9"),
	z3new("z3-new/seed4", noMBQI+"smt.qi.eager_threshold=3 smt.case_split=3 smt.random_seed=4"),
	z3new("z3-new/seed5", noMBQI+"smt.qi.eager_threshold=2 smt.random_seed=5"),
	z3new("z3-new/auto", ""),
	{"z3", func(f string, s int) []string {
		return []string{"z3", "-T:" + fmt.Sprint(s), "smt.mbqi=false", "auto_config=false", f}
	}, ""},
}

var groundSolvers = []solver{
	{"z3-new", func(f string, s int) []string { return []string{"z3-new", "-T:" + fmt.Sprint(s), f} }, ""},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(s*1000), f}
	}, "(set-logic ALL)\n"},
	{"z3", func(f string, s int) []string { return []string{"z3", "-T:" + fmt.Sprint(s), f} }, ""},
}

// stopEarly ends the portfolio stage when enough has failed.
var stopEarly = func() bool { return false }

var solverNanos sync.Map // name -> *int64

func runSolver(ctx context.Context, s solver, file string, secs int) string {
	a := s.cmd(file, secs)
	c, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	n, _ := solverNanos.LoadOrStore(s.name, new(int64))
	atomic.AddInt64(n.(*int64), int64(time.Since(t0)))
	r := strings.TrimSpace(out.String())
	if i := strings.IndexByte(r, '\n'); i >= 0 && (strings.HasPrefix(r, "unsat") || strings.HasPrefix(r, "sat") || strings.HasPrefix(r, "unknown")) {
		rest := r[i+1:]
		r = r[:i]
		if strings.Contains(rest, "error") {
			r = "error " + rest
		}
	}
	return r
}

// discharge decides obligations in parallel.
func discharge(obls []*Obl, dir string, secs int, deadline time.Time, progress func(*Obl)) {
	os.MkdirAll(dir, 0o755)
	type pre struct{ p, h string }
	var mu sync.Mutex
	cache := map[*VC]pre{}
	getPre := func(v *VC) pre {
		mu.Lock()
		defer mu.Unlock()
		if x, ok := cache[v]; ok {
			return x
		}
		h := v.header()
		x := pre{v.prelude(), h}
		cache[v] = x
		return x
	}
	type job struct {
		o    *Obl
		id   int
		secs int
	}
	workers := runtime.NumCPU()
	run := func(todo []*Obl, stage int) {
		ch := make(chan job)
		var wg sync.WaitGroup
		n := workers
		if stage > 0 {
			n = (workers + 1) / 2
		}
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					if stage > 0 && stopEarly() {
						continue
					}
					solveOne(j.o, getPre(j.o.vc).p, getPre(j.o.vc).h, dir, j.id, j.secs, stage, deadline)
					if progress != nil && (stage == 1 || j.o.Status == "proved" || j.o.Check == "cover") {
						mu.Lock()
						progress(j.o)
						mu.Unlock()
					}
				}
			}()
		}
		for i, o := range todo {
			ch <- job{o, i, secs}
		}
		close(ch)
		wg.Wait()
	}
	var todo []*Obl
	for _, o := range obls {
		if o.Status == "" {
			todo = append(todo, o)
		}
	}
	// a quick first pass with one solver, then the portfolio
	run(todo, 0)
	var rest []*Obl
	for _, o := range todo {
		if o.Check != "cover" && o.Status != "proved" {
			rest = append(rest, o)
		}
	}
	run(rest, 1)
}

func solveOne(o *Obl, pre, head, dir string, id, secs, stage int, deadline time.Time) {
	t0 := time.Now()
	q := o.query(pre, head)
	ss := solvers
	if o.vc.bv || o.vc.ieee {
		ss = groundSolvers
	}
	file := filepath.Join(dir, fmt.Sprintf("q%d_%d.smt2", stage, id))
	write := func(s solver, f string) {
		os.WriteFile(f, []byte(s.opts+q), 0o644)
	}
	defer func() { o.Secs += time.Since(t0).Seconds() }()
	if o.Check == "cover" {
		write(ss[0], file)
		defer os.Remove(file)
		r := runSolver(context.Background(), ss[0], file, 2)
		o.Out = r
		if r == "unsat" {
			o.Status = "vacuous"
		} else {
			o.Status = "proved"
		}
		return
	}
	if stage == 0 {
		write(ss[0], file)
		defer os.Remove(file)
		t := 6
		if o.vc.bv || o.vc.ieee {
			t = 4
		}
		if secs < t {
			t = secs
		}
		if time.Until(deadline) < 0 {
			return
		}
		r := runSolver(context.Background(), ss[0], file, t)
		o.Out = ss[0].name + ": " + r
		if r == "unsat" {
			o.Status, o.Solver = "proved", ss[0].name
		}
		return
	}
	ground := o.vc.bv || o.vc.ieee
	portfolio(o, q, ss, file, secs*2/3, ground, deadline)
	if o.Status == "unknown" && !ground {
		portfolio(o, q, lastSolvers, file, secs/2, ground, deadline)
	}
}

// portfolio runs several solvers on one obligation until one decides it.
func portfolio(o *Obl, q string, ss []solver, file string, secs int, ground bool, deadline time.Time) {
	left := time.Until(deadline)
	if left < 3*time.Second {
		if o.Status == "" {
			o.Status = "unknown"
			o.Out += "; out of time"
		}
		return
	}
	if secs < 1 {
		secs = 1
	}
	if int(left.Seconds()) < secs {
		secs = int(left.Seconds())
	}
	o.Status = ""
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ s, r string }
	ch := make(chan res, len(ss))
	for i, s := range ss {
		f := fmt.Sprintf("%s.%s.%d", file, strings.ReplaceAll(s.name, "/", "_"), i)
		t := q
		if s.name == "cvc5" {
			t = plainArrays(q)
		}
		os.WriteFile(f, []byte(s.opts+t), 0o644)
		defer os.Remove(f)
		go func() { ch <- res{s.name, runSolver(ctx, s, f, secs)} }()
	}
	var outs []string
	for range ss {
		r := <-ch
		outs = append(outs, r.s+": "+r.r)
		if r.r == "unsat" {
			o.Status, o.Solver = "proved", r.s
			cancel()
			break
		}
		if r.r == "sat" && ground {
			o.Status = "failed"
			cancel()
			break
		}
	}
	if o.Status == "" {
		o.Status = "unknown"
	}
	o.Out = strings.Join(outs, "; ")
}

var constArray = regexp.MustCompile(`\(\(as const \(Array Int ([A-Za-z0-9]+)\)\) (f[a-z]*[0-9]+)\)`)

// plainArrays names the arrays that have a float constant everywhere: cvc5 takes only values there.
func plainArrays(q string) string {
	seen := map[string]bool{}
	decl := ""
	q = constArray.ReplaceAllStringFunc(q, func(m string) string {
		x := constArray.FindStringSubmatch(m)
		n := "constarr_" + x[2]
		if !seen[n] {
			seen[n] = true
			decl += fmt.Sprintf("(declare-const %s (Array Int %s))\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, x[1], n, x[2], n)
		}
		return n
	})
	if decl == "" {
		return q
	}
	// after the declarations of the constants
	k := 0
	for n := range seen {
		d := "(declare-const " + strings.TrimPrefix(n, "constarr_") + " "
		if i := strings.Index(q, d); i >= 0 {
			if e := i + strings.IndexByte(q[i:], '\n') + 1; e > k {
				k = e
			}
		}
	}
	return q[:k] + decl + q[k:]
}
