package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"goorcvet/engine"
)

const modPath = "github.com/patrickhuang888/goorc"

// World is the type-checked program under analysis.
type World struct {
	Repo  string
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module: "orc", "orc/column"
	Fset  *token.FileSet
	Funcs []*ssa.Function // every function with a body of the analysed packages, sorted
	Errs  []string

	roles   map[string]*ssa.Function
	reached map[*ssa.Function]map[*ssa.Function]*ssa.Function
}

func loadWorld(repo string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")}
	pk, err := packages.Load(cfg, "./orc/...", "./bench", "./pb/...")
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, Pkgs: map[string]*ssa.Package{}}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				w.Errs = append(w.Errs, e.Error())
			}
		}
	})
	if len(w.Errs) > 0 {
		return w, nil
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	w.Fset = prog.Fset
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		w.Pkgs[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || len(fn.Blocks) == 0 {
			continue
		}
		if w.rel(fn.Pkg.Pkg) == "" || strings.HasPrefix(w.rel(fn.Pkg.Pkg), "pb") {
			continue
		}
		w.Funcs = append(w.Funcs, fn)
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		if w.Funcs[i].String() != w.Funcs[j].String() {
			return w.Funcs[i].String() < w.Funcs[j].String()
		}
		return w.Funcs[i].Pos() < w.Funcs[j].Pos()
	})
	return w, nil
}

// rel is the package path inside the module, "" for others.
func (w *World) rel(p *types.Package) string {
	if p == nil || !strings.HasPrefix(p.Path(), modPath+"/") {
		return ""
	}
	return strings.TrimPrefix(p.Path(), modPath+"/")
}

// fn finds a function "orc/column.Name" or method "orc/column.Type.Name".
func (w *World) fn(pkg, name string) *ssa.Function {
	if f := w.fnNamed(pkg, name); f != nil {
		return f
	}
	return w.byRole(pkg, name)
}

func (w *World) fnNamed(pkg, name string) *ssa.Function {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t := p.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := w.Prog.MethodSets.MethodSet(tt)
			if s := ms.Lookup(p.Pkg, name[i+1:]); s != nil {
				return w.Prog.MethodValue(s)
			}
		}
		return nil
	}
	return p.Func(name)
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, w.Repo+"/"), ps.Line)
}

func (w *World) newEngine() *engine.Engine {
	en := engine.New(w.Prog)
	en.InRepo = func(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }
	en.Ignore = func(name string) bool {
		return strings.Contains(name, "github.com/sirupsen/logrus") || strings.HasSuffix(name, ").String")
	}
	// io.Writer: Write must not modify the slice data
	en.Reads = func(name string, args []*engine.Term) bool {
		if name != "Write" || len(args) != 1 || args[0].Typ == nil {
			return false
		}
		sl, ok := args[0].Typ.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.Typ[types.Byte])
	}
	en.Pure = func(name string) bool {
		return name == "github.com/golang/protobuf/proto.Marshal" || name == "github.com/golang/protobuf/proto.Size"
	}
	return en
}
