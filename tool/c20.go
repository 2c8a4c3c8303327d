package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["C19"] = property{"points-to and effect summaries of all functions over memory regions (interprocedural, over SSA): no store into memory of the caller, no path from kept memory to it", rulesC19}
	properties["C20"] = property{"points-to and effect summaries of all functions over memory regions (interprocedural, over SSA): what a batch leads to is made for it and reached from nothing else, and made anew for every value", rulesC20}
}

// holdsBatch tells whether a type is a batch: one of the api whose memory holds values.
func holdsBatch(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/orc/api") && carriesValues(n, map[types.Type]bool{})
}

func carriesValues(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return carriesValues(u.Elem(), seen)
	case *types.Slice:
		return carriesValues(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i).Type()
			if it, ok := f.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				return true
			}
			if carriesValues(f, seen) {
				return true
			}
		}
	}
	return false
}

// closure is every region memory of a region leads to.
func (s *effects) closure(reg string) map[string]bool {
	out := map[string]bool{}
	work := []string{reg}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		for c, m := range s.content {
			if c.reg != r {
				continue
			}
			for x := range m {
				if !out[x.reg] {
					out[x.reg] = true
					if isAlloc(x.reg) {
						work = append(work, x.reg)
					}
				}
			}
		}
	}
	return out
}

// at finds where something reached a region.
func (s *effects) at(from, to string) (token.Pos, *ssa.Function) {
	var ps []edgeAt
	for e, at := range s.edges {
		if e.src.reg != to {
			continue
		}
		if e.dst.reg == from {
			ps = append(ps, at)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].pos < ps[j].pos })
	if len(ps) == 0 {
		return s.fn.Pos(), s.fn
	}
	return ps[0].pos, ps[0].fn
}

func (s *effects) paramName(reg string) string {
	switch reg {
	case "g":
		return "a package variable"
	case "x":
		return "a function outside of the module"
	}
	var k int
	fmt.Sscanf(reg, "p%d", &k)
	if k < len(s.fn.Params) {
		p := s.fn.Params[k]
		if k == 0 && s.fn.Signature.Recv() != nil {
			return "memory of " + types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() })
		}
		return "parameter " + p.Name()
	}
	return "a captured variable"
}

// others lists the regions besides allocations a function knows.
func (s *effects) others() []string {
	m := map[string]bool{"g": true, "x": true}
	for i, p := range s.fn.Params {
		if pointerful(p.Type()) {
			m[fmt.Sprintf("p%d", i)] = true
		}
	}
	return sortedMembers2(m)
}

func sortedMembers2(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// notKept checks that nothing leads to the memory of a parameter when the function has returned.
func (c *Check) notKept(rule string, s *effects, k int) {
	p := fmt.Sprintf("p%d", k)
	con := short(s.fn) + " " + s.fn.Params[k].Name()
	c.ob(rule, con)
	for _, o := range s.others() {
		if o == p {
			continue
		}
		if s.closure(o)[p] {
			pos, fn := s.at(o, p)
			c.fail(rule, con, pos, "%s may keep memory of parameter %s of %s: it is stored in %s", s.paramName(o), s.fn.Params[k].Name(), short(s.fn), short(fn))
		}
	}
	for i, r := range s.ret {
		for x := range r {
			if x.reg == p {
				c.fail(rule, con, s.fn.Pos(), "result %d of %s leads to memory of parameter %s", i, short(s.fn), s.fn.Params[k].Name())
			}
		}
	}
}

// notChanged checks that memory of a parameter is left alone.
func (c *Check) notChanged(rule string, s *effects, k int) {
	p := fmt.Sprintf("p%d", k)
	con := short(s.fn) + " " + s.fn.Params[k].Name()
	c.ob(rule, con)
	for _, o := range s.others() {
		if o != p && s.closure(o)[p] {
			return // it is kept, what is changed cannot be told apart
		}
	}
	for ch, at := range s.changes {
		if ch.reg.reg == p {
			c.fail(rule, con, at.pos, "%s stores into memory of parameter %s of %s (%s)", short(at.fn), s.fn.Params[k].Name(), short(s.fn), describeChange(ch))
		}
	}
}

func describeChange(ch change) string {
	b := func(s string) string { return s[strings.LastIndex(s, "/")+1:] }
	switch {
	case ch.owner != "" && ch.elem != "":
		return "an element of " + b(ch.owner) + "." + ch.field
	case ch.owner != "":
		return b(ch.owner) + "." + ch.field
	case ch.elem != "":
		return "a " + b(ch.elem)
	}
	return "given to a function not known to leave it alone"
}

// methodsNamed lists the methods of a name of all implementers of an interface.
func (w *World) methodsNamed(pkg, iface, name string) (r []*ssa.Function) {
	for _, t := range w.implementers(pkg, iface) {
		if m := w.method(t, name); m != nil {
			r = append(r, m)
		}
	}
	return r
}

func rulesC19(c *Check) {
	w := c.W
	const ruleChange, ruleKeep, ruleSchema = "what is written is not changed", "what is written is not kept", "schemas are not changed by writing"
	var writes, all []*ssa.Function
	for _, t := range w.implementers("orc", "Writer") {
		for _, m := range w.methodsOfType(t) {
			all = append(all, m)
			if m.Name() == "Write" {
				writes = append(writes, m)
			}
		}
	}
	var inner []*ssa.Function
	inner = append(inner, w.methodsNamed("orc/column", "Writer", "Write")...)
	inner = append(inner, w.methodsNamed("orc/stream", "Writer", "Write")...)
	inner = append(inner, w.methodsNamed("orc/encoding", "Encoder", "Encode")...)
	makers := w.exportedWith("orc", func(t types.Type) bool { return strings.HasSuffix(types.TypeString(t, nil), "/api.TypeDescription") })
	makers = append(makers, w.exportedWith("orc/column", func(t types.Type) bool { return strings.HasSuffix(types.TypeString(t, nil), "/api.TypeDescription") })...)
	g := w.regions(append(append(append([]*ssa.Function{}, all...), inner...), makers...))
	c.sawRegions(g)
	c.expect(len(writes) > 0, ruleKeep, "orc.Writer", 0, "no Write method of an implementation of orc.Writer found")
	for i, f := range append(append([]*ssa.Function{}, writes...), inner...) {
		s := g.sum[f]
		for k, p := range f.Params {
			if k == 0 && f.Signature.Recv() != nil || !pointerful(p.Type()) || isBytesBuffer(p.Type()) {
				continue
			}
			_ = i
			c.notChanged(ruleChange, s, k)
			c.notKept(ruleKeep, s, k)
		}
	}
	for _, f := range append(append([]*ssa.Function{}, all...), makers...) {
		s := g.sum[f]
		con := short(f)
		c.ob(ruleSchema, con)
		for ch, at := range s.changes {
			if !strings.HasSuffix(ch.owner, "/api.TypeDescription") && !strings.HasSuffix(ch.elem, "/api.TypeDescription") {
				continue
			}
			if ch.owner != "" && ch.field == "Id" {
				continue // columns are numbered
			}
			c.fail(ruleSchema, con, at.pos, "%s changes the schema: %s", short(at.fn), describeChange(ch))
		}
	}
	c.atLeast(ruleChange, 20)
	c.atLeast(ruleKeep, 20)
	c.atLeast(ruleSchema, 3)
}

func (c *Check) sawRegions(g *regions) {
	for f := range g.sum {
		c.funcs[f.String()] = true
	}
}

func (w *World) methodsOfType(t *types.Named) (r []*ssa.Function) {
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Exported() {
			if d := w.Prog.FuncValue(o); d != nil && len(d.Blocks) > 0 {
				r = append(r, d)
			}
		}
	}
	return r
}

// exportedWith lists exported functions of a package with a parameter of a type.
func (w *World) exportedWith(pkg string, is func(types.Type) bool) (r []*ssa.Function) {
	for _, f := range w.Funcs {
		if f.Pkg == nil || w.rel(f.Pkg.Pkg) != pkg || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		for _, p := range f.Params {
			if is(p.Type()) {
				r = append(r, f)
				break
			}
		}
	}
	return r
}

func rulesC20(c *Check) {
	w := c.W
	const ruleKeep, ruleOwn, ruleEach, ruleMade, ruleUnsafe = "readers keep no batches", "values have memory of their own", "every value has memory of its own", "batches are made anew", "strings are copies"
	var reads, inner []*ssa.Function
	var ts []*types.Named
	ts = append(ts, w.implementers("orc", "Reader")...)
	ts = append(ts, w.implementers("orc", "BatchReader")...)
	for _, t := range ts {
		reads = append(reads, w.methodsOfType(t)...)
	}
	inner = append(inner, w.methodsNamed("orc/column", "Reader", "NextBatch")...)
	var makers []*ssa.Function
	for _, f := range w.Funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		if r := w.rel(f.Pkg.Pkg); r != "orc" && r != "orc/api" {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if holdsBatch(f.Signature.Results().At(i).Type()) {
				makers = append(makers, f)
				break
			}
		}
	}
	g := w.regions(append(append(append([]*ssa.Function{}, reads...), inner...), makers...))
	c.sawRegions(g)
	given := 0
	for _, f := range append(append([]*ssa.Function{}, reads...), inner...) {
		s := g.sum[f]
		for k, p := range f.Params {
			if !holdsBatch(p.Type()) || k == 0 && f.Signature.Recv() != nil {
				continue
			}
			given++
			me := fmt.Sprintf("p%d", k)
			c.notKept(ruleKeep, s, k)
			con := short(f) + " " + p.Name()
			c.ob(ruleOwn, con)
			c.ob(ruleEach, con)
			mine := s.closure(me)
			apart := true
			for _, o := range s.others() {
				if o == me {
					continue
				}
				if mine[o] {
					apart = false
					pos, fn := s.at(me, o)
					c.fail(ruleOwn, con, pos, "what %s puts in the batch (in %s) is memory of %s", short(f), short(fn), s.paramName(o))
				}
				theirs := s.closure(o)
				for r := range mine {
					if isAlloc(r) && theirs[r] {
						pos, _ := s.at(o, r)
						c.fail(ruleOwn, con, pos, "memory made at %s is put in the batch by %s and kept by %s", c.W.pos(g.made[r].Pos()), short(f), s.paramName(o))
					}
				}
			}
			for r, at := range s.many {
				if apart && mine[r] {
					c.fail(ruleEach, con, at.pos, "%s puts the same memory, made at %s, in the batch again and again", short(at.fn), c.W.pos(g.made[r].Pos()))
				}
			}
		}
	}
	c.expect(given > 5, ruleKeep, "orc.BatchReader", 0, "only %d functions take batches to fill them", given)
	for _, f := range makers {
		s := g.sum[f]
		con := short(f)
		c.ob(ruleMade, con)
		for i := range s.ret {
			if !holdsBatch(f.Signature.Results().At(i).Type()) {
				continue
			}
			for r := range s.ret[i] {
				if !isAlloc(r.reg) {
					c.fail(ruleMade, con, f.Pos(), "the batch %s returns is memory of %s", con, s.paramName(r.reg))
					continue
				}
				mine := s.closure(r.reg)
				mine[r.reg] = true
				for _, o := range s.others() {
					if mine[o] {
						pos, _ := s.at(r.reg, o)
						c.fail(ruleMade, con, pos, "the batch %s returns leads to memory of %s", con, s.paramName(o))
					}
					for x := range s.closure(o) {
						if isAlloc(x) && mine[x] {
							pos, _ := s.at(o, x)
							c.fail(ruleMade, con, pos, "the batch %s returns is kept by %s", con, s.paramName(o))
						}
					}
				}
				for x, at := range s.many {
					if mine[x] {
						c.fail(ruleMade, con, at.pos, "%s puts the same memory in several places of a batch", short(at.fn))
					}
				}
			}
		}
	}
	for f := range g.sum {
		c.ob(ruleUnsafe, short(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						c.fail(ruleUnsafe, short(f), in.Pos(), "%s uses unsafe pointers, which may make strings or slices share memory", short(f))
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if b, ok := call.Common().Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "StringData" || b.Name() == "Slice" || b.Name() == "SliceData") {
						c.fail(ruleUnsafe, short(f), in.Pos(), "%s uses unsafe.%s", short(f), b.Name())
					}
				}
			}
		}
	}
	c.atLeast(ruleUnsafe, 40)
	c.atLeast(ruleMade, 1)
}
