package main

import (
	"go/types"
	"strings"

	"goorcvet/engine"
)

// addend is one term of an accumulated sum, with the loop iteration that adds it.
type addend struct {
	t  *engine.Term
	lp *engine.Loop
	it *engine.Path
}

// addends takes a sum accumulated along a path, its loops included, apart.
func addends(en *engine.Engine, t *engine.Term) ([]addend, bool) {
	return addends1(en, t, nil, nil, nil, 0)
}

// addends1 does not look into the loop variables listed in stop.
func addends1(en *engine.Engine, t *engine.Term, lp *engine.Loop, it *engine.Path, stop []*engine.Term, depth int) (r []addend, ok bool) {
	if depth > 20 {
		return nil, false
	}
	lin := en.P.LinOf(stripConv(t))
	if lin.K != 0 {
		r = append(r, addend{en.P.Int(lin.K), lp, it})
	}
	for a, k := range lin.Coef {
		if k != 1 {
			return nil, false
		}
		if s := stripConv(a); s.Op == "lin" {
			m, ok := addends1(en, s, lp, it, stop, depth+1)
			if !ok {
				return nil, false
			}
			r = append(r, m...)
			continue
		} else {
			a = s
		}
		l, isIter := a.Any.(*engine.Loop)
		stopped := false
		for _, s := range stop {
			stopped = stopped || s == a
		}
		if a.Op != "iter" || !isIter || stopped {
			r = append(r, addend{a, lp, it})
			continue
		}
		ph := phiOf(l, a)
		if ph == nil {
			return nil, false
		}
		m, ok := addends1(en, ph.Init, lp, it, stop, depth+1)
		if !ok {
			return nil, false
		}
		r = append(r, m...)
		for i, nx := range ph.Next {
			m, ok := addends1(en, nx, l, l.Iters[i], append(stop[:len(stop):len(stop)], ph.Term), depth+1)
			if !ok {
				return nil, false
			}
			carried := 0
			for _, x := range m {
				if x.t == ph.Term {
					carried++
				} else {
					r = append(r, x)
				}
			}
			if carried != 1 {
				return nil, false
			}
		}
	}
	return r, true
}

func phiOf(l *engine.Loop, t *engine.Term) *engine.LoopPhi {
	for _, ph := range l.Phis {
		if ph.Term == t {
			return ph
		}
	}
	return nil
}

// piece is a part of a sequence built along a path: an element, a slice spread, or the
// pieces each iteration of a loop adds.
type piece struct {
	elem   *engine.Term
	spread *engine.Term
	lp     *engine.Loop
	iters  [][]piece
}

// pieces takes a sequence built by appending apart.
func pieces(en *engine.Engine, t *engine.Term) ([]piece, bool) {
	if t.Op == "nil" {
		return nil, true
	}
	if t.Op == "sl" && len(t.Args) == 3 {
		if n, ok := en.Len(t).IntVal(); ok && n == 0 {
			return nil, true
		}
	}
	if t.Op == "make" || t.Op == "alloc" {
		if n, ok := en.Len(t).IntVal(); ok && n == 0 {
			return nil, true
		}
	}
	l, isIter := t.Any.(*engine.Loop)
	if t.Op == "iter" && isIter {
		ph := phiOf(l, t)
		if ph == nil {
			return nil, false
		}
		r, ok := pieces(en, ph.Init)
		if !ok {
			return nil, false
		}
		p := piece{lp: l}
		for _, nx := range ph.Next {
			ps, ok := piecesAfter(en, nx, t)
			if !ok {
				return nil, false
			}
			p.iters = append(p.iters, ps)
		}
		return append(r, p), true
	}
	if t.Op != "seq" {
		return []piece{{spread: t}}, true
	}
	var r []piece
	for _, a := range t.Args {
		switch a.Op {
		case "e":
			r = append(r, piece{elem: a.Args[0]})
		case "s":
			ps, ok := pieces(en, a.Args[0])
			if !ok {
				return nil, false
			}
			r = append(r, ps...)
		default:
			return nil, false
		}
	}
	return r, true
}

// piecesAfter is what next adds to the end of cur.
func piecesAfter(en *engine.Engine, next, cur *engine.Term) ([]piece, bool) {
	if next == cur {
		return nil, true
	}
	if l, ok := next.Any.(*engine.Loop); ok && next.Op == "iter" {
		ph := phiOf(l, next)
		if ph == nil {
			return nil, false
		}
		r, ok := piecesAfter(en, ph.Init, cur)
		if !ok {
			return nil, false
		}
		p := piece{lp: l}
		for _, nx := range ph.Next {
			ps, ok := piecesAfter(en, nx, next)
			if !ok {
				return nil, false
			}
			p.iters = append(p.iters, ps)
		}
		return append(r, p), true
	}
	if next.Op != "seq" || len(next.Args) == 0 || next.Args[0].Op != "s" {
		return nil, false
	}
	r, ok := piecesAfter(en, next.Args[0].Args[0], cur)
	if !ok {
		return nil, false
	}
	for _, a := range next.Args[1:] {
		switch a.Op {
		case "e":
			r = append(r, piece{elem: a.Args[0]})
		case "s":
			ps, ok := pieces(en, a.Args[0])
			if !ok {
				return nil, false
			}
			r = append(r, ps...)
		default:
			return nil, false
		}
	}
	return r, true
}

// at is an event with the iteration it occurs in.
type at struct {
	e  *engine.Event
	lp *engine.Loop
	it *engine.Path
}

// flat lists events in program order, those of loop iterations in place of the loop.
func flat(p *engine.Path) []at { return flat1(p, nil, nil) }

func flat1(p *engine.Path, lp *engine.Loop, it *engine.Path) []at {
	var r []at
	for _, e := range p.Events {
		if e.Kind == "loop" {
			for _, i := range e.Loop.Iters {
				r = append(r, flat1(i, e.Loop, i)...)
			}
			continue
		}
		r = append(r, at{e, lp, it})
	}
	return r
}

// takes tells that a call gets x as receiver or argument.
func takes(e *engine.Event, x *engine.Term) bool {
	if e.Kind != "call" {
		return false
	}
	if e.Recv != nil && engine.StripIface(e.Recv) == x {
		return true
	}
	for _, a := range e.Args {
		if engine.StripIface(a) == x {
			return true
		}
	}
	return false
}

// content is one run of bytes put into a buffer: as they are, or compressed.
type content struct {
	bytes      *engine.Term // a byte slice
	compressed bool
	kind, size *engine.Term // arguments of the compression
}

// bufferHolds lists what was put into a buffer before event stop; ok is false if that cannot be told.
func bufferHolds(en *engine.Engine, p *engine.Path, buf *engine.Term, stop *engine.Event) ([]content, bool) {
	var r []content
	x := engine.StripIface(buf)
	if ev, ok := x.Any.(*engine.Event); ok && x.Op == "res" && ev.Name == "NewBuffer" {
		r = append(r, content{bytes: ev.Args[0]})
	} else if x.Op != "alloc" {
		return nil, false
	}
	for _, e := range p.Events {
		if e == stop {
			return r, true
		}
		if e.Kind == "loop" {
			bad := false
			deep([]*engine.Event{e}, func(f *engine.Event, _ *engine.Loop) { bad = bad || takes(f, x) })
			if bad {
				return nil, false
			}
		}
		if !takes(e, x) {
			continue
		}
		switch {
		case e.Recv != nil && engine.StripIface(e.Recv) == x && e.Name == "Reset":
			r = nil
		case e.Recv != nil && engine.StripIface(e.Recv) == x && e.Name == "Write":
			r = append(r, content{bytes: e.Args[0]})
		case e.Recv != nil && engine.StripIface(e.Recv) == x && (e.Name == "Len" || e.Name == "Bytes" || e.Name == "Cap" || e.Name == "Grow"):
		case strings.HasSuffix(e.Callee, "orc/common.CompressingAllInChunks") && len(e.Args) == 4 && engine.StripIface(e.Args[2]) == x:
			src, ok := bufferHolds(en, p, e.Args[3], e)
			if !ok {
				return nil, false
			}
			for _, s := range src {
				if s.compressed {
					return nil, false
				}
				r = append(r, content{bytes: s.bytes, compressed: true, kind: e.Args[0], size: e.Args[1]})
			}
		case strings.HasSuffix(e.Callee, "orc/common.CompressingAllInChunks") && len(e.Args) == 4 && engine.StripIface(e.Args[3]) == x:
			r = nil // drained
		default:
			return nil, false
		}
	}
	return r, stop == nil
}

// written is what a call writes to a file or writer.
func written(en *engine.Engine, p *engine.Path, e *engine.Event) ([]content, bool) {
	switch e.Name {
	case "Write":
		x := e.Args[0]
		if ev, ok := x.Any.(*engine.Event); ok && x.Op == "res" && ev.Name == "Bytes" && ev.Recv != nil {
			return bufferHolds(en, p, ev.Recv, ev)
		}
		return []content{{bytes: x}}, true
	case "WriteTo":
		return bufferHolds(en, p, e.Recv, e)
	}
	return nil, false
}

// isCount tells that t is the number of bytes written by e.
func isCount(en *engine.Engine, st *engine.State, t *engine.Term, e *engine.Event) bool {
	t = stripConv(t)
	if len(e.Res) > 0 && t == stripConv(e.Res[0]) {
		return true
	}
	if e.Name == "Write" && len(e.Args) > 0 {
		return t == stripConv(en.Len(e.Args[0])) || knownTrue(en, st, en.Eq(t, en.Len(e.Args[0])))
	}
	return false
}

// deref reads a pointer field of an object: the pointed to value.
func deref(en *engine.Engine, p *engine.Path, obj *engine.Term, t types.Type, field string) *engine.Term {
	path := fieldIndex(t, named(field))
	if path == nil {
		return nil
	}
	a, ft := addrIn(en, p, obj, t, path)
	v := en.Load(p.St, a, ft)
	if pt, ok := ft.Underlying().(*types.Pointer); ok {
		return en.Load(p.St, v, pt.Elem())
	}
	return v
}

// derefInit is deref on entry.
func derefInit(en *engine.Engine, obj *engine.Term, t types.Type, field string) *engine.Term {
	v := fieldTerm(en, obj, t, named(field))
	if v == nil {
		return nil
	}
	if pt, ok := v.Typ.Underlying().(*types.Pointer); ok {
		return en.P.Mk("load", "0", pt.Elem(), v)
	}
	return v
}
