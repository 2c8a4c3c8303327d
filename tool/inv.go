package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

// lowest is a lower bound an integer field of a type keeps.
type lowest struct {
	path []int
	name string
	min  int64
}

// lowerBounds finds for the integer fields of a type a constant they never fall below: the least constant
// assigned to the field anywhere, kept by every method of the type. No other function may assign anything else.
func (w *World) lowerBounds(t *types.Named, opaque func(f *ssa.Function) bool) []lowest {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var cand []lowest
	for i := 0; i < st.NumFields(); i++ {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 || st.Field(i).Exported() {
			continue
		}
		min, sure := int64(0), true
		for _, f := range w.Funcs {
			for _, blk := range f.Blocks {
				for _, in := range blk.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fa.Field != i || deptr(fa.X.Type()) != types.Type(t) {
						continue
					}
					for _, ref := range *fa.Referrers() {
						switch r := ref.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != fa {
								sure = false
								continue
							}
							if k, ok := r.Val.(*ssa.Const); ok && k.Value != nil {
								if v, ok := constant.Int64Val(k.Value); ok && v < min {
									min = v
								}
							} else if f.Signature.Recv() == nil || deptr(f.Signature.Recv().Type()) != types.Type(t) {
								sure = false
							}
						default:
							sure = false
						}
					}
				}
			}
		}
		if sure {
			cand = append(cand, lowest{[]int{i}, st.Field(i).Name(), min})
		}
	}
	// kept by the methods, dropping what is not until nothing changes
	for len(cand) > 0 {
		dropped := map[string]bool{}
		ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			m := w.Prog.MethodValue(ms.At(i))
			if m == nil || len(m.Blocks) == 0 || m.Synthetic != "" {
				continue
			}
			en := w.newEngine()
			en.Opaque = opaque
			recv := en.P.Mk("param", "e", m.Params[0].Type())
			args := []*engine.Term{recv}
			for _, p := range m.Params[1:] {
				args = append(args, en.P.Mk("param", p.Name(), p.Type()))
			}
			if _, ok := m.Params[0].Type().(*types.Pointer); !ok {
				continue // a copy
			}
			s := en.Run(m, args, keepsAbove(en, recv, cand))
			for _, b := range cand {
				if !s.Complete {
					dropped[b.name] = true
				}
				a, ft := addrOf(en, recv, recv.Typ, b.path)
				for _, p := range s.Paths {
					if v, k := en.Decide(p.St, en.Le(en.P.Int(b.min), en.Load(p.St, a, ft))); !p.Panic && !(k && v) {
						dropped[b.name] = true
					}
				}
			}
		}
		if len(dropped) == 0 {
			break
		}
		var rest []lowest
		for _, b := range cand {
			if !dropped[b.name] {
				rest = append(rest, b)
			}
		}
		cand = rest
	}
	return cand
}

// keepsAbove assumes the bounds of an object at the start of one of its methods.
func keepsAbove(en *engine.Engine, recv *engine.Term, bs []lowest) func(s *engine.State) {
	return func(s *engine.State) {
		for _, b := range bs {
			a, ft := addrOf(en, recv, recv.Typ, b.path)
			en.Assume(s, en.Le(en.P.Int(b.min), en.P.Mk("load", "0", ft, a)), true, 0)
		}
	}
}

// encoderCases splits the states of an encoder by a field standing at its initial value: others, found by induction
// over the methods, then stand at theirs too.
func (w *World) encoderCases(t *types.Named, opaque func(f *ssa.Function) bool, fresh map[string][]*engine.Term) []func(en *engine.Engine, recv *engine.Term) func(s *engine.State) {
	type cell struct {
		path []int
		name string
		v    int64
	}
	bounds := w.lowerBounds(t, opaque)
	plain := func(en *engine.Engine, recv *engine.Term) func(s *engine.State) { return keepsAbove(en, recv, bounds) }
	one := []func(en *engine.Engine, recv *engine.Term) func(s *engine.State){plain}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || len(bounds) == 0 {
		return one
	}
	initial := func(name string, path []int) (int64, bool) {
		en := w.newEngine()
		a, _ := addrOf(en, en.P.Mk("param", "e", types.NewPointer(t)), types.NewPointer(t), path)
		var r int64
		fs := fresh[name+"@"+ownerOf(a)]
		for i, f := range fs {
			v, ok := f.IntVal()
			if !ok || i > 0 && v != r {
				return 0, false
			}
			r = v
		}
		return r, len(fs) > 0
	}
	for _, lead := range bounds {
		if v, ok := initial(lead.name, lead.path); !ok || v != lead.min {
			continue
		}
		var follow []cell
		for i := 0; i < st.NumFields(); i++ {
			b, ok := st.Field(i).Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || st.Field(i).Exported() || i == lead.path[0] {
				continue
			}
			if v, ok := initial(st.Field(i).Name(), []int{i}); ok {
				follow = append(follow, cell{[]int{i}, st.Field(i).Name(), v})
			}
		}
		cases := func(follow []cell) []func(en *engine.Engine, recv *engine.Term) func(s *engine.State) {
			at := func(en *engine.Engine, recv *engine.Term) func(s *engine.State) {
				return func(s *engine.State) {
					plain(en, recv)(s)
					for _, x := range append([]cell{{lead.path, lead.name, lead.min}}, follow...) {
						a, ft := addrOf(en, recv, recv.Typ, x.path)
						en.Assume(s, en.Eq(en.P.Mk("load", "0", ft, a), en.P.Int(x.v)), true, 0)
					}
				}
			}
			away := func(en *engine.Engine, recv *engine.Term) func(s *engine.State) {
				return func(s *engine.State) {
					plain(en, recv)(s)
					a, ft := addrOf(en, recv, recv.Typ, lead.path)
					en.Assume(s, en.Le(en.P.Int(lead.min+1), en.P.Mk("load", "0", ft, a)), true, 0)
				}
			}
			return []func(en *engine.Engine, recv *engine.Term) func(s *engine.State){at, away}
		}
		for len(follow) > 0 {
			dropped := map[string]bool{}
			ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
			for i := 0; i < ms.Len(); i++ {
				m := w.Prog.MethodValue(ms.At(i))
				if m == nil || len(m.Blocks) == 0 || m.Synthetic != "" {
					continue
				}
				if _, ok := m.Params[0].Type().(*types.Pointer); !ok {
					continue
				}
				for _, known := range cases(follow) {
					en := w.newEngine()
					en.Opaque = opaque
					recv := en.P.Mk("param", "e", m.Params[0].Type())
					args := []*engine.Term{recv}
					for _, p := range m.Params[1:] {
						args = append(args, en.P.Mk("param", p.Name(), p.Type()))
					}
					s := en.Run(m, args, known(en, recv))
					for _, p := range s.Paths {
						a, ft := addrOf(en, recv, recv.Typ, lead.path)
						if v, k := en.Decide(p.St, en.Eq(en.Load(p.St, a, ft), en.P.Int(lead.min))); p.Panic || k && !v {
							continue
						}
						for _, x := range follow {
							a, ft := addrOf(en, recv, recv.Typ, x.path)
							if v, k := en.Decide(p.St, en.Eq(en.Load(p.St, a, ft), en.P.Int(x.v))); !(k && v) {
								dropped[x.name] = true
							}
						}
					}
					if !s.Complete {
						return one
					}
				}
			}
			if len(dropped) == 0 {
				return cases(follow)
			}
			var rest []cell
			for _, x := range follow {
				if !dropped[x.name] {
					rest = append(rest, x)
				}
			}
			follow = rest
		}
	}
	return one
}
