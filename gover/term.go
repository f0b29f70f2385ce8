package main

import (
	"fmt"
	"math/big"
	"strings"
)

// SMT terms are plain strings; these helpers fold the trivial cases.

func sx(op string, args ...string) string { return "(" + op + " " + strings.Join(args, " ") + ")" }

func And(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return sx("and", ys...)
}

func Or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return sx("or", ys...)
}

func Not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return sx("not", x)
}

func Imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return sx("=>", a, b)
}

func Eq(a, b string) string {
	if a == b {
		return "true"
	}
	if isNum(a) && isNum(b) {
		return "false"
	}
	return sx("=", a, b)
}

func Ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return sx("ite", c, a, b)
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func numOf(s string) *big.Int {
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	b, _ := new(big.Int).SetString(s, 10)
	if neg {
		b.Neg(b)
	}
	return b
}

func Num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func NumI(i int64) string { return Num(big.NewInt(i)) }

func Add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) {
		return Num(new(big.Int).Add(numOf(a), numOf(b)))
	}
	return sx("+", a, b)
}

func Sub(a, b string) string {
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) {
		return Num(new(big.Int).Sub(numOf(a), numOf(b)))
	}
	return sx("-", a, b)
}

// MulT multiplies; a product of two non-constants becomes the uninterpreted imul.
func MulT(a, b string) string {
	if isNum(a) && isNum(b) {
		return Num(new(big.Int).Mul(numOf(a), numOf(b)))
	}
	if a == "0" || b == "0" {
		return "0"
	}
	if a == "1" {
		return b
	}
	if b == "1" {
		return a
	}
	if isNum(a) || isNum(b) {
		return sx("*", a, b)
	}
	return sx("imul", a, b)
}

func Le(a, b string) string {
	if isNum(a) && isNum(b) {
		return fmt.Sprint(numOf(a).Cmp(numOf(b)) <= 0)
	}
	return sx("<=", a, b)
}
func Lt(a, b string) string {
	if isNum(a) && isNum(b) {
		return fmt.Sprint(numOf(a).Cmp(numOf(b)) < 0)
	}
	return sx("<", a, b)
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
