package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

var streamPrims = map[string]bool{"Next": true, "NextInt64": true, "NextUInt64": true, "NextBytes": true, "NextString": true,
	"NextFloat": true, "NextDouble": true, "Seek": true, "Close": true, "Finished": true}

// opaqueStreams keeps the primitive operations of streams as events.
func opaqueStreams(f *ssa.Function) bool {
	p := f.Package()
	if p == nil || !strings.HasSuffix(p.Pkg.Path(), "/orc/stream") {
		return false
	}
	if f.Signature.Recv() == nil {
		return strings.HasPrefix(f.Name(), "New")
	}
	return streamPrims[f.Name()]
}

// implementers returns the named types of a package whose pointers implement an interface of it.
func (w *World) implementers(pkg, iface string) []*types.Named {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(iface)
	if t == nil {
		return nil
	}
	it, ok := t.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			r = append(r, nt)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func (w *World) method(t *types.Named, name string) *ssa.Function {
	s := w.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(t.Obj().Pkg(), name)
	if s == nil {
		return nil
	}
	return w.Prog.MethodValue(s)
}

func (w *World) colEngine() *engine.Engine {
	en := w.newEngine()
	en.Opaque = opaqueStreams
	return en
}
