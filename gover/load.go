package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mariotoffia/goannoy"

// Inst is one instantiation of the type parameters TV (vector element) and TIX (index).
type Inst struct{ TV, TIX string }

var insts = []Inst{{"float32", "uint32"}, {"float32", "uint64"}, {"float64", "uint32"}, {"float64", "uint64"}}

func (i Inst) String() string { return short(i.TV) + "," + short(i.TIX) }

func short(s string) string {
	switch s {
	case "float32":
		return "f32"
	case "float64":
		return "f64"
	case "uint32":
		return "u32"
	case "uint64":
		return "u64"
	}
	return s
}

// Func is a function of the code under verification, at one instantiation.
type Func struct {
	Key  string // stable name without type arguments, e.g. index.AnnoyIndexImpl.Build
	Inst Inst   // empty strings: not generic in that parameter
	SSA  *ssa.Function
}

type Program struct {
	prog  *ssa.Program
	funcs map[string][]*Func // by key
	all   map[*ssa.Function]*Func
	sizes types.Sizes
	pkgs  []*packages.Package
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not compile: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	P := &Program{prog: prog, funcs: map[string][]*Func{}, all: map[*ssa.Function]*Func{},
		sizes: types.SizesFor("gc", "amd64"), pkgs: ps}
	seen := map[string]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") {
			continue // wrappers, bounds, thunks, package initialisers
		}
		key := funcKey(fn)
		if key == "" {
			continue
		}
		f := &Func{Key: key, Inst: funcInst(fn), SSA: fn}
		id := key + "|" + f.Inst.String()
		P.all[fn] = f
		if seen[id] {
			continue
		}
		seen[id] = true
		P.funcs[key] = append(P.funcs[key], f)
	}
	for _, fs := range P.funcs {
		sort.Slice(fs, func(i, j int) bool { return fs[i].Inst.String() < fs[j].Inst.String() })
	}
	return P, nil
}

// funcsFor are the functions a contract is about.
func (P *Program) funcsFor(c *Contract) []*Func {
	fs := P.funcs[c.Key]
	if c.Body != "" {
		fs = nil
		for _, f := range P.funcs[c.Body] {
			fs = append(fs, &Func{Key: c.Key, Inst: f.Inst, SSA: f.SSA})
		}
	}
	if !c.Each {
		return fs
	}
	var out []*Func
	for _, f := range fs {
		if f.Inst != (Inst{}) {
			out = append(out, f)
			continue
		}
		for _, in := range insts {
			out = append(out, &Func{Key: f.Key, Inst: in, SSA: f.SSA})
		}
	}
	return out
}

// funcKey gives the stable name of a function: package base name, receiver type, name.
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		p := funcKey(fn.Parent())
		if p == "" {
			return ""
		}
		for i, a := range fn.Parent().AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", p, i+1)
			}
		}
		return p + "$?"
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	var pkg *types.Package
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	if pkg == nil {
		return ""
	}
	base := pkgBase(pkg)
	if r := o.Signature.Recv(); r != nil {
		return base + "." + namedName(r.Type()) + "." + o.Name()
	}
	return base + "." + o.Name()
}

func pkgBase(p *types.Package) string {
	if strings.HasPrefix(p.Path(), modPath+"/") {
		return p.Path()[strings.LastIndex(p.Path(), "/")+1:]
	}
	return strings.ReplaceAll(p.Path(), "github.com/jfcg/sorty/v2", "sorty")
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
}

func namedName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// funcInst finds the type arguments of a function (or of its receiver or parent).
func funcInst(fn *ssa.Function) Inst {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var in Inst
	for _, t := range fn.TypeArgs() {
		switch b := types.Unalias(t).(type) {
		case *types.Basic:
			switch b.Name() {
			case "float32", "float64":
				in.TV = b.Name()
			case "uint32", "uint64":
				in.TIX = b.Name()
			}
		}
	}
	return in
}

// typeKey names a (possibly instantiated) type without its arguments.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return pkgBase(t.Obj().Pkg()) + "." + t.Obj().Name()
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeKey(t.Elem()))
	}
	return t.String()
}
