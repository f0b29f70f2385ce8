package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- syntax of the contract language ----

type SExpr struct {
	Op   string // num, flt, str, id, un, bin, call, idx, fld, all, ex, ite, let
	S    string
	A    []*SExpr
	Vars []SVar
	Trig [][]*SExpr
	Pos  string
}

type SVar struct{ Name, Sort string }

type Clause struct {
	Lemma  bool
	By     string
	Kind  string
	Tags  []string
	Label string
	E     *SExpr
	Locs  []*Loc
	GName string // ghost assignment
	GIdx  *SExpr
	Mode  string // restrict to an encoding
	Pos   string
}

type Loc struct {
	Kind string // field, allfield, raw, elems, ghost, ghostidx, heap, cellheap
	Key  string
	A    []*SExpr
	S    string
}

type LoopSpec struct {
	Clauses []*Clause
}

type Contract struct {
	Key     string
	Kind    string // func, iface, extern, field
	Params  []string
	Results []string
	Tags    []string
	Clauses []*Clause
	Loops   map[int]*LoopSpec
	Mode    string // "", bv, ieee
	Pure    bool   // does not allocate
	Heavy   bool
	Body    string // the library function whose body this contract is verified against, called with the types of the contract's parameters
	BodyTys []string
	Each    bool // a function that is not generic, verified for every instance of the generic types its contract names
	Inline  bool // callers inline the body even though a contract exists
	Trusted bool
	Concurrent bool
	Implements []string
	Pos     string
	Timeout int
	Split   bool
}

type Def struct {
	Name   string
	Params []string
	Body   *SExpr
}

type UF struct {
	Name string
	Args []string
	Ret  string
	Body string // raw SMT definition (define-fun) when given
}

type Guard struct {
	Read, Write bool
	Comp        string
	E           *SExpr
	Tags        []string
}

// Proph: an immutable field that may be assigned once per call, before anything is known about its contents:
// its value is the one it has afterwards. Ghost holds the objects that were assigned.
type Proph struct {
	Ghost       string
	Write, Read *SExpr
}

type Specs struct {
	Defs      map[string]*Def
	UFs       map[string]*UF
	UFOrder   []string
	Axioms    []*Clause
	Ghosts    map[string]string
	Consts    map[string]string
	Immutable map[string]bool
	Guards    []*Guard
	Prophecy  map[string]*Proph
	Contracts map[string]*Contract
	Order     []string
	Fields    map[string][]string // baseline field order of structs
}

func newSpecs() *Specs {
	return &Specs{Defs: map[string]*Def{}, UFs: map[string]*UF{}, Ghosts: map[string]string{}, Consts: map[string]string{},
		Immutable: map[string]bool{}, Prophecy: map[string]*Proph{}, Contracts: map[string]*Contract{}}
}

type tok struct {
	k, s string // kinds: id num flt str op eof
	line int
}

type parser struct {
	file string
	toks []tok
	p    int
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "<==", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>"}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if strings.HasPrefix(src[i:], "//") {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c == '"' {
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\n' {
					line++
				}
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line})
			i = j + 1
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '#' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'' || src[j] == '#') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			k := "num"
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'x' || (src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x"))) {
				j++
			}
			if j+1 < len(src) && src[j] == '.' && unicode.IsDigit(rune(src[j+1])) {
				k = "flt"
				j++
				for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'e' || (src[j] == '-' && src[j-1] == 'e')) {
					j++
				}
			}
			out = append(out, tok{k, src[i:j], line})
			i = j
			continue
		}
		done := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, line})
				i += len(o)
				done = true
				break
			}
		}
		if !done {
			out = append(out, tok{"op", string(c), line})
			i++
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

func (p *parser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: %s (near %q)", p.file, p.toks[p.p].line, fmt.Sprintf(f, a...), p.toks[p.p].s))
}
func (p *parser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.toks[p.p].line) }
func (p *parser) peek() tok   { return p.toks[p.p] }
func (p *parser) is(s string) bool {
	t := p.toks[p.p]
	return t.s == s && t.k != "str"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.k != "id" {
		p.fail("expected identifier")
	}
	p.p++
	return t.s
}

func (p *parser) key() string {
	s := p.ident()
	for p.is(".") || p.is("/") {
		sep := p.peek().s
		p.p++
		s += sep + p.ident()
	}
	return s
}

func (p *parser) sort() string {
	if p.accept("[") {
		a := p.sort()
		p.expect("]")
		return "(Array " + a + " " + p.sort() + ")"
	}
	return p.key()
}

// binary operator precedence
var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"|": 6, "^": 7, "&": 8, "<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11}

func (p *parser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.p++
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SExpr{Op: "bin", S: t.s, A: []*SExpr{l, r}, Pos: p.pos()}
	}
}

func (p *parser) unary() *SExpr {
	if p.accept("!") {
		return &SExpr{Op: "un", S: "!", A: []*SExpr{p.unary()}, Pos: p.pos()}
	}
	if p.accept("-") {
		return &SExpr{Op: "un", S: "-", A: []*SExpr{p.unary()}, Pos: p.pos()}
	}
	return p.postfix()
}

func (p *parser) postfix() *SExpr {
	e := p.primary()
	for {
		if p.accept(".") {
			e = &SExpr{Op: "fld", S: p.ident(), A: []*SExpr{e}, Pos: p.pos()}
		} else if p.accept("[") {
			i := p.expr(1)
			p.expect("]")
			e = &SExpr{Op: "idx", A: []*SExpr{e, i}, Pos: p.pos()}
		} else {
			return e
		}
	}
}

func (p *parser) primary() *SExpr {
	t := p.peek()
	pos := p.pos()
	switch {
	case t.k == "num":
		p.p++
		return &SExpr{Op: "num", S: t.s, Pos: pos}
	case t.k == "flt":
		p.p++
		return &SExpr{Op: "flt", S: t.s, Pos: pos}
	case t.k == "str":
		p.p++
		return &SExpr{Op: "str", S: t.s, Pos: pos}
	case t.s == "(":
		p.p++
		e := p.expr(1)
		p.expect(")")
		return e
	case t.s == "if":
		p.p++
		c := p.expr(1)
		p.expect("then")
		a := p.expr(1)
		p.expect("else")
		b := p.expr(1)
		return &SExpr{Op: "ite", A: []*SExpr{c, a, b}, Pos: pos}
	case t.s == "let":
		p.p++
		n := p.ident()
		p.expect(":=")
		v := p.expr(1)
		p.expect("in")
		b := p.expr(1)
		return &SExpr{Op: "let", S: n, A: []*SExpr{v, b}, Pos: pos}
	case t.s == "forall" || t.s == "exists":
		p.p++
		e := &SExpr{Op: "all", Pos: pos}
		if t.s == "exists" {
			e.Op = "ex"
		}
		for {
			n := p.ident()
			so := "Int"
			if p.accept(":") {
				so = p.sort()
			}
			e.Vars = append(e.Vars, SVar{n, so})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*SExpr
			for {
				tr = append(tr, p.expr(1))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		p.expect("::")
		e.A = []*SExpr{p.expr(1)}
		return e
	case t.k == "id":
		p.p++
		if p.accept("(") {
			e := &SExpr{Op: "call", S: t.s, Pos: pos}
			for !p.accept(")") {
				e.A = append(e.A, p.expr(1))
				if !p.is(")") {
					p.expect(",")
				}
			}
			return e
		}
		return &SExpr{Op: "id", S: t.s, Pos: pos}
	}
	p.fail("expected expression")
	return nil
}

func (p *parser) tags() []string {
	var out []string
	if p.accept("[") {
		for !p.accept("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
	}
	return out
}

func (p *parser) params() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}

func (p *parser) locs() []*Loc {
	var out []*Loc
	for {
		switch {
		case p.accept("raw"):
			p.expect("(")
			a := p.expr(1)
			p.expect(",")
			b := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "raw", A: []*SExpr{a, b}})
		case p.accept("elems"):
			p.expect("(")
			a := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "elems", A: []*SExpr{a}})
		case p.accept("ghost"):
			n := p.ident()
			l := &Loc{Kind: "ghost", S: n}
			if p.accept("[") {
				l.Kind = "ghostidx"
				l.A = []*SExpr{p.expr(1)}
				p.expect("]")
			}
			out = append(out, l)
		case p.accept("shared"):
			l := &Loc{Kind: "shared"}
			if p.accept("if") { // only when the condition holds
				l.A = []*SExpr{p.expr(1)}
			}
			out = append(out, l)
		case p.accept("mapof"):
			p.expect("(")
			a := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "mapof", A: []*SExpr{a}})
		case p.accept("mapslike"): // all maps of the type of the expression
			p.expect("(")
			a := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "mapslike", A: []*SExpr{a}})
		case p.accept("capelems"):
			p.expect("(")
			a := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "capelems", A: []*SExpr{a}})
		case p.accept("heap"): // all raw memory
			out = append(out, &Loc{Kind: "heap"})
		case p.accept("fields"): // fields(pkg.T.f): the field of every object
			p.expect("(")
			k := p.key()
			p.expect(")")
			out = append(out, &Loc{Kind: "allfield", Key: k})
		case p.accept("cells"): // cells(pkg.T): all elements of slices of that element type
			p.expect("(")
			st := ""
			for p.accept("*") {
				st += "*"
			}
			k := st + p.key()
			p.expect(")")
			out = append(out, &Loc{Kind: "cells", Key: k})
		case p.accept("deref"):
			p.expect("(")
			a := p.expr(1)
			p.expect(")")
			out = append(out, &Loc{Kind: "deref", A: []*SExpr{a}})
		default:
			e := p.expr(1)
			if e.Op != "fld" {
				p.fail("modifies expects a location")
			}
			out = append(out, &Loc{Kind: "field", S: e.S, A: []*SExpr{e.A[0]}})
		}
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) clause() *Clause {
	c := &Clause{Pos: p.pos()}
	c.Kind = p.ident()
	switch c.Kind {
	case "requires", "ensures", "invariant", "step", "panics", "assert", "assume", "ghostat":
		c.Tags = p.tags()
		if p.accept("@") {
			c.Mode = p.ident()
		}
		if p.peek().k == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == "op" {
			c.Label = p.ident()
			p.expect(":")
		}
		c.E = p.expr(1)
	case "modifies", "reads":
		c.Tags = p.tags()
		c.Locs = p.locs()
	case "ghost", "spawn":
		c.GName = p.ident()
		if p.accept("[") {
			c.GIdx = p.expr(1)
			p.expect("]")
		}
		p.expect(":=")
		c.E = p.expr(1)
	default:
		p.fail("unknown clause %s", c.Kind)
	}
	p.expect(";")
	return c
}

func (sp *Specs) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{file: file, toks: lex(file, string(b))}
	for p.peek().k != "eof" {
		pos := p.pos()
		kw := p.ident()
		switch kw {
		case "uf":
			u := &UF{Name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				u.Args = append(u.Args, p.sort())
				p.accept(",")
			}
			u.Ret = p.sort()
			p.expect(";")
			sp.UFs[u.Name] = u
			sp.UFOrder = append(sp.UFOrder, u.Name)
		case "def":
			d := &Def{Name: p.ident()}
			d.Params = p.params()
			p.expect("=")
			d.Body = p.expr(1)
			p.expect(";")
			sp.Defs[d.Name] = d
		case "axiom", "lemma":
			c := &Clause{Kind: "axiom", Pos: pos, Label: p.ident(), Lemma: kw == "lemma"}
			if p.accept("by") {
				c.By = p.ident()
			}
			if p.accept("@") {
				c.Mode = p.ident()
			}
			p.expect(":")
			c.E = p.expr(1)
			p.expect(";")
			sp.Axioms = append(sp.Axioms, c)
		case "ghost":
			n := p.ident()
			p.expect(":")
			sp.Ghosts[n] = p.sort()
			p.expect(";")
		case "const":
			n := p.ident()
			p.expect(":")
			sp.Consts[n] = p.sort()
			p.expect(";")
		case "immutable":
			for {
				sp.Immutable[p.key()] = true
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "prophecy":
			k := p.key()
			g := &Proph{Ghost: p.ident()}
			p.expect(":")
			g.Write = p.expr(1)
			p.expect(";")
			g.Read = p.expr(1)
			p.expect(";")
			sp.Prophecy[k] = g
		case "guard":
			g := &Guard{}
			switch p.ident() {
			case "read":
				g.Read = true
			case "write":
				g.Write = true
			case "access":
				g.Read, g.Write = true, true
			}
			g.Tags = p.tags()
			g.Comp = p.key()
			p.expect(":")
			g.E = p.expr(1)
			p.expect(";")
			sp.Guards = append(sp.Guards, g)
		case "func", "iface", "extern", "field":
			c := &Contract{Kind: kw, Pos: pos, Key: p.key(), Loops: map[int]*LoopSpec{}}
			c.Trusted = kw == "extern"
			c.Params = p.params()
			if p.is("(") {
				c.Results = p.params()
			}
			p.expect("{")
			for !p.accept("}") {
				switch {
				case p.accept("tags"):
					for !p.accept(";") {
						c.Tags = append(c.Tags, p.ident())
						p.accept(",")
					}
				case p.accept("mode"):
					c.Mode = p.ident()
					p.expect(";")
				case p.accept("pure"):
					c.Pure = true
					p.expect(";")
				case p.accept("heavy"):
					c.Heavy = true
					p.expect(";")
				case p.accept("body"):
					c.Body = p.key()
					for p.accept(",") {
						c.BodyTys = append(c.BodyTys, p.key())
					}
					p.expect(";")
				case p.accept("each"):
					c.Each = true
					p.expect(";")
				case p.accept("trusted"):
					c.Trusted = true
					p.expect(";")
				case p.accept("concurrent"):
					c.Concurrent = true
					p.expect(";")
				case p.accept("implements"):
					c.Implements = append(c.Implements, p.key())
					p.expect(";")
				case p.accept("inline"):
					c.Inline = true
					p.expect(";")
				case p.accept("loop"):
					var n int
					fmt.Sscan(p.peek().s, &n)
					p.p++
					ls := &LoopSpec{}
					p.expect("{")
					for !p.accept("}") {
						ls.Clauses = append(ls.Clauses, p.clause())
					}
					c.Loops[n] = ls
				default:
					c.Clauses = append(c.Clauses, p.clause())
				}
			}
			if sp.Contracts[c.Key] != nil {
				panic(fmt.Sprintf("%s: second contract for %s", pos, c.Key))
			}
			sp.Contracts[c.Key] = c
			sp.Order = append(sp.Order, c.Key)
		default:
			p.fail("unknown declaration %s", kw)
		}
	}
}

func loadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("contracts: %v", r)
		}
	}()
	sp = newSpecs()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gv"))
	sort.Strings(fs)
	for _, f := range fs {
		sp.parseFile(f)
	}
	return sp, nil
}
