package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callGraph is a class hierarchy call graph of the module, with calls leaving it by name.
type callGraph struct {
	w     *World
	named []types.Type // every named type of the module and pointers to them
	succ  map[*ssa.Function][]*ssa.Function
	ext   map[*ssa.Function][]extCall
	pred  map[*ssa.Function][]ssa.CallInstruction // direct and dynamic call sites
}

// extCall is a call of a function outside of the module, or by it of a method of outside.
type extCall struct {
	name string // "os.Create", "(*os.File).Write"
	at   ssa.CallInstruction
}

func (w *World) callGraph() *callGraph {
	g := &callGraph{w: w, succ: map[*ssa.Function][]*ssa.Function{}, ext: map[*ssa.Function][]extCall{}, pred: map[*ssa.Function][]ssa.CallInstruction{}}
	var names []string
	for n := range w.Pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasPrefix(n, "pb") {
			continue
		}
		sc := w.Pkgs[n].Pkg.Scope()
		for _, m := range sc.Names() {
			if tn, ok := sc.Lookup(m).(*types.TypeName); ok && !tn.IsAlias() && !types.IsInterface(tn.Type()) {
				g.named = append(g.named, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	for _, fn := range w.Funcs {
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if f != nil && !seen[f] && g.inside(f) {
				seen[f] = true
				g.succ[fn] = append(g.succ[fn], f)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					for _, f := range g.callees(ci) {
						add(f)
						g.pred[f] = append(g.pred[f], ci)
					}
					g.ext[fn] = append(g.ext[fn], g.external(ci, add)...)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f) // a function value may be called
					}
				}
			}
		}
	}
	return g
}

func (g *callGraph) inside(f *ssa.Function) bool {
	return f.Pkg != nil && len(f.Blocks) > 0 && g.w.rel(f.Pkg.Pkg) != "" || f.Pkg == nil && f.Synthetic != "" && len(f.Blocks) > 0
}

// callees are the functions of the module a call may reach directly.
func (g *callGraph) callees(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		return g.methods(it, cc.Method.Name(), cc.Method.Pkg())
	}
	if f := cc.StaticCallee(); f != nil && g.inside(f) {
		return []*ssa.Function{f}
	}
	return nil
}

// methods are the methods of a name of all types of the module implementing an interface.
func (g *callGraph) methods(it *types.Interface, name string, pkg *types.Package) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, t := range g.named {
		if !types.Implements(t, it) {
			continue
		}
		for _, f := range g.method(t, name, pkg) {
			if !seen[f] {
				seen[f] = true
				r = append(r, f)
			}
		}
	}
	return r
}

// method is the method of a type, a promoted one together with what it stands for.
func (g *callGraph) method(t types.Type, name string, pkg *types.Package) []*ssa.Function {
	s := g.w.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if s == nil {
		return nil
	}
	var r []*ssa.Function
	if f := g.w.Prog.MethodValue(s); f != nil {
		r = append(r, f)
		if o, ok := s.Obj().(*types.Func); ok {
			if d := g.w.Prog.FuncValue(o); d != nil && d != f && len(d.Blocks) > 0 {
				r = append(r, d)
			}
		}
	}
	return r
}

// external lists what a call does outside of the module; add takes methods of the module called back.
func (g *callGraph) external(ci ssa.CallInstruction, add func(*ssa.Function)) []extCall {
	cc := ci.Common()
	var r []extCall
	var sig *types.Signature
	switch {
	case cc.IsInvoke():
		m := cc.Method
		name := "interface"
		if n, ok := cc.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			if g.w.rel(n.Obj().Pkg()) != "" {
				break
			}
			name = n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		r = append(r, extCall{"(" + name + ")." + m.Name(), ci})
		sig = m.Type().(*types.Signature)
	case cc.StaticCallee() != nil:
		f := cc.StaticCallee()
		if g.inside(f) {
			return nil
		}
		r = append(r, extCall{extName(f), ci})
		sig = f.Signature
	default:
		return nil
	}
	if sig == nil {
		return r
	}
	args := cc.Args
	if !cc.IsInvoke() && sig.Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	for i, a := range args {
		if i >= sig.Params().Len() {
			break
		}
		it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		for k := 0; k < it.NumMethods(); k++ {
			m := it.Method(k)
			if mi, ok := a.(*ssa.MakeInterface); ok {
				for _, f := range g.method(mi.X.Type(), m.Name(), m.Pkg()) {
					if g.inside(f) {
						add(f)
					} else {
						r = append(r, extCall{extName(f), ci})
					}
				}
				continue
			}
			if at, ok := a.Type().Underlying().(*types.Interface); ok {
				for _, f := range g.methods(at, m.Name(), m.Pkg()) {
					add(f)
				}
			}
		}
	}
	return r
}

func extName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.String()
}

// reach returns what may run when the roots run, each with the function it was reached from.
func (g *callGraph) reach(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var queue []*ssa.Function
	for _, f := range roots {
		if f != nil {
			if _, ok := from[f]; !ok {
				from[f] = nil
				queue = append(queue, f)
			}
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, s := range g.succ[f] {
			if _, ok := from[s]; !ok {
				from[s] = f
				queue = append(queue, s)
			}
		}
	}
	return from
}

func chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	s := short(f)
	for i := 0; i < 12 && from[f] != nil; i++ {
		f = from[f]
		s = short(f) + " > " + s
	}
	return s
}

// methodsOf lists all methods of the types of a package implementing one of its interfaces.
func (w *World) methodsOf(pkg, iface string) []*ssa.Function {
	var r []*ssa.Function
	for _, t := range w.implementers(pkg, iface) {
		ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			if f := w.Prog.MethodValue(ms.At(i)); f != nil {
				r = append(r, f)
				if o, ok := ms.At(i).Obj().(*types.Func); ok {
					if d := w.Prog.FuncValue(o); d != nil && d != f {
						r = append(r, d)
					}
				}
			}
		}
	}
	return r
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return constant.Int64Val(c.Value)
	}
	return 0, false
}
