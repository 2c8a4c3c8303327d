package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

// Functions which are no part of the interface are known by what they do, should their names change.

func (w *World) byRole(pkg, name string) *ssa.Function {
	if pkg != "orc" {
		return nil
	}
	if w.roles == nil {
		w.roles = map[string]*ssa.Function{}
	}
	if f, ok := w.roles[name]; ok {
		return f
	}
	var f *ssa.Function
	switch name {
	case "stripeWriter.flushOut":
		f = w.outermost(func(f *ssa.Function) bool {
			return w.reaches(f, "orc/column.Writer", "WriteOut") && !w.reaches(f, "orc/column.Writer", "Write") && w.marshals(f, "pb/pb.StripeFooter") && !w.marshals(f, "pb/pb.PostScript")
		})
	case "writer.writeFileTail":
		f = w.outermost(func(f *ssa.Function) bool {
			return w.marshals(f, "pb/pb.PostScript") && !w.reaches(f, "orc/column.Writer", "WriteOut")
		})
	case "stripeWriter.write":
		f = w.innermost(func(f *ssa.Function) bool {
			return w.reaches(f, "orc/column.Writer", "Write") && w.reaches(f, "orc/column.Writer", "WriteOut")
		})
	case "stripeWriter.forward":
		f = w.innermost(func(f *ssa.Function) bool {
			return len(f.Params) == 1 && w.reaches(f, "orc/column.Writer", "Reset") && !w.reaches(f, "orc/column.Writer", "WriteOut")
		})
	case "newWriter":
		f = w.outermost(func(f *ssa.Function) bool {
			return f.Name() != "NewOSFileWriter" && f.Signature.Recv() == nil && w.returns(f, "orc.writer")
		})
	case "newStripeReader":
		f = w.outermost(func(f *ssa.Function) bool {
			return f.Signature.Recv() == nil && w.returns(f, "orc.stripeReader")
		})
	}
	w.roles[name] = f
	return f
}

func (w *World) returns(f *ssa.Function, typ string) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && typeIs(r.At(0).Type(), typ)
}

// reaches tells that a function may call a method of an implementer of an interface.
func (w *World) reaches(f *ssa.Function, iface, method string) bool {
	i := strings.LastIndex(iface, ".")
	for _, t := range w.implementers(iface[:i], iface[i+1:]) {
		if m := w.method(t, method); m != nil {
			if _, ok := w.reachOf(f)[m]; ok && m != f {
				return true
			}
		}
	}
	return false
}

func (w *World) reachOf(f *ssa.Function) map[*ssa.Function]*ssa.Function {
	if w.reached == nil {
		w.reached = map[*ssa.Function]map[*ssa.Function]*ssa.Function{}
	}
	r, ok := w.reached[f]
	if !ok {
		r = w.callGraph().reach([]*ssa.Function{f})
		w.reached[f] = r
	}
	return r
}

// marshals tells that a function may encode a message.
func (w *World) marshals(f *ssa.Function, typ string) bool {
	for g := range w.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := c.Common().StaticCallee()
				if s == nil || s.Name() != "Marshal" || len(c.Common().Args) != 1 {
					continue
				}
				if m, ok := c.Common().Args[0].(*ssa.MakeInterface); ok && typeIs(m.X.Type(), typ) {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) candidates(is func(f *ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs {
		if f.Pkg != nil && w.rel(f.Pkg.Pkg) == "orc" && f.Parent() == nil && f.Synthetic == "" && is(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// outermost is the only candidate no other candidate calls.
func (w *World) outermost(is func(f *ssa.Function) bool) *ssa.Function {
	return w.only(w.candidates(is), func(f, g *ssa.Function) bool { _, ok := w.reachOf(g)[f]; return ok })
}

// innermost is the only candidate calling no other candidate.
func (w *World) innermost(is func(f *ssa.Function) bool) *ssa.Function {
	return w.only(w.candidates(is), func(f, g *ssa.Function) bool { _, ok := w.reachOf(f)[g]; return ok })
}

func (w *World) only(cs []*ssa.Function, less func(f, g *ssa.Function) bool) *ssa.Function {
	var r []*ssa.Function
	for _, f := range cs {
		top := true
		for _, g := range cs {
			top = top && (g == f || !less(f, g))
		}
		if top {
			r = append(r, f)
		}
	}
	if len(r) != 1 {
		return nil
	}
	return r[0]
}

// batchTypes are the implementer of BatchReader and the type of its stripes.
func (w *World) batchTypes() (b, s *types.Named) {
	for _, t := range w.implementers("orc", "BatchReader") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			n, ok := deptr(sl.Elem()).(*types.Named)
			if ok && fieldIndex(n, ofType("orc/column.Reader")) != nil {
				return t, n
			}
		}
	}
	return nil, nil
}

// methodsCalled are the methods of a type that a function calls.
func (w *World) methodsCalled(t *types.Named, f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			s := c.Common().StaticCallee()
			if s == nil || s.Signature.Recv() == nil || deptr(s.Signature.Recv().Type()) != types.Type(t) || seen[s] {
				continue
			}
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func calledIs(e *engine.Event, f *ssa.Function) bool {
	return f != nil && e.Kind == "call" && e.Callee == f.String()
}
