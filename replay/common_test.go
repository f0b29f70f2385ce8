package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"testing"
)

// seed is the seed of every random choice of the replays.
func seed() int64 {
	n := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func rng() *rand.Rand { return rand.New(rand.NewSource(seed())) }

// fail reports a failing input.
func fail(t *testing.T, f string, a ...any) {
	t.Helper()
	t.Fatalf("REPLAY-FAIL "+f, a...)
}

// missing is what the replay needs to look at and does not find: no verdict.
type missing string

// try runs f and reports a panic as a failing input.
func try(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				panic(m)
			}
			fail(t, "%s: panic: %v", what, r)
		}
	}()
	f()
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}
