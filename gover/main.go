package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var debugPanic bool

func main() {
	root := flag.String("root", "/verif", "verification directory")
	fn := flag.String("fn", "", "only functions whose key has this prefix (development)")
	inst := flag.String("inst", "", "only this instance (development)")
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	secs := flag.Int("t", 20, "solver seconds per obligation")
	dump := flag.String("dump", "", "write the query of the obligation whose name contains this")
	verbose := flag.Bool("v", false, "list all obligations")
	list := flag.Bool("list", false, "list functions")
	flag.BoolVar(&debugPanic, "panic", false, "")
	only := flag.String("only", "", "only obligations whose name contains this (development)")
	rep := flag.String("replay", "", "run the replay harness of a property only")
	flag.Parse()
	if *rep != "" {
		found, out := replay(*root, *rep, 230*time.Second)
		fmt.Println(out)
		if found {
			os.Exit(1)
		}
		return
	}
	if *prop != "" {
		os.Exit(checkProperty(*root, *prop, *tier))
	}
	P, err := loadProgram(filepath.Join(*root, "roots"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	Sp, err := loadSpecs(filepath.Join(*root, "contracts"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *list {
		var ks []string
		for k := range P.funcs {
			if len(P.funcs[k]) > 0 && inModule(P.funcs[k][0].SSA) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			m := " "
			if c := Sp.Contracts[k]; c != nil {
				m = "+"
			}
			fmt.Println(m, k, len(P.funcs[k]))
		}
		return
	}
	var obls []*Obl
	bad := 0
	for _, k := range Sp.Order {
		c := Sp.Contracts[k]
		if c.Kind != "func" || c.Trusted || *fn == "" || !strings.HasPrefix(k, *fn) {
			continue
		}
		fs := P.funcsFor(c)
		if len(fs) == 0 {
			fmt.Println("no function", k)
			bad++
			continue
		}
		for _, f := range fs {
			if *inst != "" && f.Inst.String() != *inst && f.Inst.TV != "" && f.Inst.TIX != "" {
				continue
			}
			t0 := time.Now()
			v := verify(P, Sp, f, c)
			fmt.Printf("%s [%s]: %d lines, %d obligations, %.2fs\n", k, f.Inst, len(v.lines), len(v.obls), time.Since(t0).Seconds())
			for _, e := range v.errs {
				fmt.Println("   ERROR", e)
				bad++
			}
			for _, o := range v.obls {
				if *dump != "" && strings.Contains(o.Name, *dump) {
					h := v.header()
					os.WriteFile("/tmp/dump.smt2", []byte(o.query(v.prelude(), h)), 0o644)
					fmt.Println("   dumped", o.Name)
				}
				if *only == "" || strings.Contains(o.Name, *only) {
					obls = append(obls, o)
				}
			}
		}
	}
	if strings.HasPrefix(*fn, "lemma") {
		for i, a := range Sp.Axioms {
			if !a.Lemma || !strings.HasPrefix("lemma "+a.Label, *fn) {
				continue
			}
			for _, in := range insts {
				v := verifyLemma(P, Sp, i, in)
				for _, e := range v.errs {
					fmt.Println("   ERROR", a.Label, e)
					bad++
				}
				obls = append(obls, v.obls...)
				for _, o := range v.obls {
					if *dump != "" && strings.Contains(o.Name, *dump) {
						h := v.header()
						os.WriteFile("/tmp/dump.smt2", []byte(o.query(v.prelude(), h)), 0o644)
					}
				}
			}
		}
	}
	dir, _ := os.MkdirTemp("", "gover")
	defer os.RemoveAll(dir)
	t0 := time.Now()
	discharge(obls, dir, *secs, time.Now().Add(time.Hour), func(o *Obl) {
		if *verbose || o.Status != "proved" {
			fmt.Printf("  %-8s %s [%s] %s: %s (%s %.1fs) %s\n", o.Status, o.Fn, o.Inst, o.Kind, o.Name, o.Solver, o.Secs, o.Out)
		}
	})
	n := 0
	for _, o := range obls {
		if o.Status == "proved" {
			n++
		}
	}
	fmt.Printf("%d of %d proved, %d errors, %.1fs\n", n, len(obls), bad, time.Since(t0).Seconds())
}
