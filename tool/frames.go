package main

import (
	"go/types"
	"strings"

	"goorcvet/engine"
)

// Bytes on their way: what buffers, byte slices and compressors hold on a path, in terms of what was taken from where.

// blob is a run of bytes.
type blob struct {
	kind string       // rest (what is left of something), tok (taken from something), data (a slice from elsewhere), byte, pack (compressed), unpack (decompressed), open (being compressed)
	of   []*blob      // pack, unpack
	t    *engine.Term // data: the slice, byte: the value, rest: the object
	n    *engine.Term // a term equal to its length
	comp *packer
}

type packer struct {
	out    *engine.Term
	in     []*blob
	known  bool
	closed bool
}

type moved struct {
	en     *engine.Engine
	p      *engine.Path
	outer  []*engine.Path
	hold   map[*engine.Term][]*blob
	slices map[*engine.Term][]*blob
	packs  map[*engine.Term]*packer
	unpack map[*engine.Term]*engine.Term
	same   map[*engine.Term]*engine.Term // lengths known to be equal
	taken  map[*engine.Term][]*blob      // what was taken out of an object, in order
	why    string                        // what could not be followed
	where  *engine.Event
}

func newMoved(en *engine.Engine, p *engine.Path) *moved {
	return &moved{en: en, p: p, hold: map[*engine.Term][]*blob{}, slices: map[*engine.Term][]*blob{}, packs: map[*engine.Term]*packer{},
		unpack: map[*engine.Term]*engine.Term{}, same: map[*engine.Term]*engine.Term{}, taken: map[*engine.Term][]*blob{}}
}

// inside continues in an iteration of a loop.
func (m *moved) inside(it *engine.Path) *moved {
	n := newMoved(m.en, it)
	n.outer = append(append([]*engine.Path{}, m.outer...), m.p)
	for k, v := range m.hold {
		n.hold[k] = append([]*blob{}, v...)
	}
	for k, v := range m.slices {
		n.slices[k] = v
	}
	for k, v := range m.packs {
		c := *v
		n.packs[k] = &c
	}
	for k, v := range m.unpack {
		n.unpack[k] = v
	}
	for k, v := range m.same {
		n.same[k] = v
	}
	return n
}

func (m *moved) lost(e *engine.Event, why string) {
	if m.why == "" {
		m.why, m.where = why, e
	}
}

func isBytesBuffer(t types.Type) bool {
	return t != nil && deptr(t).String() == "bytes.Buffer"
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// canon replaces lengths by one representative each.
func (m *moved) canon(t *engine.Term) engine.Lin {
	r := engine.Lin{Coef: map[*engine.Term]int64{}}
	l := m.en.P.LinOf(stripConv(t))
	r.K = l.K
	for x, c := range l.Coef {
		y := stripConv(x)
		for i := 0; i < 8; i++ {
			z, ok := m.same[y]
			if !ok {
				break
			}
			y = stripConv(z)
		}
		k := m.en.P.LinOf(y)
		r.K += c * k.K
		for a, b := range k.Coef {
			r.Coef[a] += c * b
			if r.Coef[a] == 0 {
				delete(r.Coef, a)
			}
		}
	}
	return r
}

func (m *moved) term(l engine.Lin) *engine.Term {
	return m.en.P.FromLin(l, types.Typ[types.Int])
}

func (m *moved) equal(a, b *engine.Term) bool {
	if a == nil || b == nil {
		return false
	}
	return m.term(m.canon(a)) == m.term(m.canon(b))
}

// size is the length of some blobs, nil if one is not known.
func (m *moved) size(bs []*blob) *engine.Term {
	s := m.en.P.Int(0)
	for _, b := range bs {
		if b.n == nil {
			return nil
		}
		s = m.en.P.Add(s, b.n, 1, types.Typ[types.Int])
	}
	return s
}

// isSize notes that a term is the length of some blobs.
func (m *moved) isSize(t *engine.Term, bs []*blob) {
	t = stripConv(t)
	var open *blob
	sum := m.en.P.Int(0)
	for _, b := range bs {
		if b.n != nil {
			sum = m.en.P.Add(sum, b.n, 1, types.Typ[types.Int])
		} else if open == nil {
			open = b
		} else {
			return
		}
	}
	if open != nil {
		open.n = m.en.P.Add(t, sum, -1, types.Typ[types.Int])
		return
	}
	if _, isConst := t.IntVal(); !isConst && t.Op != "lin" && stripConv(sum) != t {
		if _, ok := m.same[t]; !ok {
			m.same[t] = sum
		}
	}
}

func (m *moved) rest(x *engine.Term) *blob {
	n := m.en.P.Fresh("left", "bytes", types.Typ[types.Int])
	return &blob{kind: "rest", t: x, n: n}
}

func (m *moved) contents(x *engine.Term) []*blob {
	if c, ok := m.hold[x]; ok {
		return c
	}
	var c []*blob
	if x.Op != "alloc" {
		c = []*blob{m.rest(x)}
	}
	m.hold[x] = c
	return c
}

// takeN takes n bytes from the front.
func (m *moved) takeN(e *engine.Event, x, n *engine.Term) []*blob {
	c := m.contents(x)
	if v, ok := n.IntVal(); ok && v == 0 {
		return nil
	}
	for i := 1; i <= len(c); i++ {
		if s := m.size(c[:i]); s != nil && m.equal(s, n) {
			r := append([]*blob{}, c[:i]...)
			m.hold[x] = append([]*blob{}, c[i:]...)
			m.taken[x] = append(m.taken[x], r...)
			return r
		}
	}
	if len(c) == 0 || c[0].kind != "rest" {
		m.lost(e, "a part of known contents is taken")
		return nil
	}
	r := &blob{kind: "tok", t: x, n: n}
	m.hold[x] = append([]*blob{m.rest(x)}, c[1:]...)
	m.taken[x] = append(m.taken[x], r)
	return []*blob{r}
}

func (m *moved) takeAll(x *engine.Term) []*blob {
	c := m.contents(x)
	m.hold[x] = nil
	m.taken[x] = append(m.taken[x], c...)
	return c
}

// drain is what a reader has left to give.
func (m *moved) drain(e *engine.Event, r *engine.Term) []*blob {
	if src, ok := m.unpack[r]; ok {
		of := m.takeAll(src)
		return []*blob{{kind: "unpack", of: of}}
	}
	if m.packs[r] != nil {
		m.lost(e, "a compressor is read")
	}
	return m.takeAll(r)
}

func (m *moved) put(e *engine.Event, w *engine.Term, bs []*blob) {
	if p := m.packs[w]; p != nil {
		if !p.known || p.closed {
			m.lost(e, "a compressor is written to that was closed, or used before, and not reset")
			return
		}
		p.in = append(p.in, bs...)
		m.pending(e, p)
		return
	}
	m.hold[w] = append(append([]*blob{}, m.contents(w)...), bs...)
}

// pending marks that a compressor may have put bytes into its buffer.
func (m *moved) pending(e *engine.Event, p *packer) {
	c := m.contents(p.out)
	if n := len(c); n > 0 && c[n-1].kind == "open" && c[n-1].comp == p {
		return
	}
	m.hold[p.out] = append(append([]*blob{}, c...), &blob{kind: "open", comp: p})
}

func (m *moved) slice(t *engine.Term) []*blob {
	if t.Op == "nil" {
		return nil
	}
	if c, ok := m.slices[t]; ok {
		return c
	}
	n := m.en.Len(t)
	if v, ok := n.IntVal(); ok {
		if v == 0 {
			return nil
		}
		if v <= 16 && !m.foreign(t) {
			if el, ok := m.en.SliceElems(m.p.St, t); ok {
				var r []*blob
				for _, x := range el {
					r = append(r, &blob{kind: "byte", t: x, n: m.en.P.Int(1)})
				}
				return r
			}
		}
	}
	if t.Op == "sl" && len(t.Args) == 3 && t.Args[1].Op == "nil" {
		if c, ok := m.slices[t.Args[0]]; ok {
			if s := m.size(c); s != nil && m.equal(s, n) {
				return c
			}
		}
	}
	return []*blob{{kind: "data", t: t, n: n}}
}

// foreign tells that the elements of a slice were put there by a call.
func (m *moved) foreign(t *engine.Term) bool {
	r := engine.Root(t)
	for k := range m.slices {
		if engine.Root(k) == r {
			return true
		}
	}
	return t.Op == "res"
}

func (m *moved) fill(t *engine.Term, bs []*blob) {
	r := engine.Root(t)
	for k := range m.slices {
		if engine.Root(k) == r {
			delete(m.slices, k)
		}
	}
	m.slices[t] = bs
}

func packerType(t types.Type) bool {
	return t != nil && strings.Contains(deptr(t).String(), "flate.Writer")
}

// touched lists the objects which calls in a loop are about.
func touched(lp *engine.Loop) map[*engine.Term]bool {
	r := map[*engine.Term]bool{}
	for _, it := range lp.Iters {
		deep(it.Events, func(e *engine.Event, _ *engine.Loop) {
			if e.Kind != "call" {
				return
			}
			if e.Recv != nil {
				r[engine.StripIface(e.Recv)] = true
			}
			for _, a := range e.Args {
				r[engine.StripIface(a)] = true
			}
		})
	}
	return r
}

// forget drops what is known about objects a loop is about.
func (m *moved) forget(lp *engine.Loop) {
	ts := touched(lp)
	outs := map[*engine.Term]bool{}
	for x, p := range m.packs {
		if ts[x] {
			p.known = false
			p.in = nil
			if p.out != nil {
				outs[p.out] = true
			}
		}
	}
	for x := range ts {
		if isBytesBuffer(x.Typ) || m.hold[x] != nil {
			outs[x] = true
		}
		if isByteSlice(x.Typ) {
			r := engine.Root(x)
			for k := range m.slices {
				if engine.Root(k) == r {
					delete(m.slices, k)
				}
			}
		}
	}
	for x := range outs {
		if x.ID > lp.Mark && (x.Op == "alloc" || x.Op == "make" || x.Op == "res") {
			continue // made in the loop
		}
		m.hold[x] = []*blob{m.rest(x)}
	}
}

// step follows one event; loops are up to the caller.
func (m *moved) step(e *engine.Event) {
	if e.Kind != "call" {
		return
	}
	arg := func(i int) *engine.Term { return engine.StripIface(e.Args[i]) }
	res := func(i int) *engine.Term { return e.Res[i] }
	var x *engine.Term
	if e.Recv != nil {
		x = engine.StripIface(e.Recv)
	}
	switch {
	case x != nil && m.packs[x] != nil:
		p := m.packs[x]
		switch e.Name {
		case "Write":
			m.put(e, x, m.slice(arg(0)))
		case "Flush":
			m.pending(e, p)
		case "Reset":
			*p = packer{out: arg(0), known: true}
		case "Close":
			if !p.known || p.closed {
				m.lost(e, "a compressor is closed that was closed before, or used, and not reset")
				return
			}
			m.pending(e, p)
			p.closed = true
			c := m.contents(p.out)
			if l := c[len(c)-1]; l.kind == "open" && l.comp == p {
				m.hold[p.out] = append(append([]*blob{}, c[:len(c)-1]...), &blob{kind: "pack", of: p.in})
			}
		default:
			m.lost(e, "compressor."+e.Name)
		}
		return
	case x != nil && m.unpack[x] != nil:
		if e.Name != "Close" {
			m.lost(e, "decompressor."+e.Name)
		}
		return
	case x != nil && isBytesBuffer(x.Typ):
		switch e.Name {
		case "Reset":
			m.takeAll(x)
		case "Truncate":
			if v, ok := arg(0).IntVal(); ok && v == 0 {
				m.takeAll(x)
			} else {
				m.lost(e, "a buffer is cut")
			}
		case "Cap", "Grow", "Available":
		case "Len":
			m.isSize(res(0), m.contents(x))
		case "Bytes":
			c := m.contents(x)
			m.slices[res(0)] = c
			m.isSize(m.en.Len(res(0)), c)
		case "Next":
			c := m.takeN(e, x, arg(0))
			m.slices[res(0)] = c
			m.isSize(m.en.Len(res(0)), c)
		case "Write":
			m.put(e, x, m.slice(arg(0)))
			m.isSize(res(0), m.slice(arg(0)))
		case "WriteByte":
			m.put(e, x, []*blob{{kind: "byte", t: arg(0), n: m.en.P.Int(1)}})
		case "WriteTo":
			c := m.takeAll(x)
			m.isSize(res(0), c)
			m.put(e, arg(0), c)
		case "ReadFrom":
			c := m.drain(e, arg(0))
			m.isSize(res(0), c)
			m.put(e, x, c)
		default:
			m.lost(e, "Buffer."+e.Name)
		}
		return
	}
	switch e.Callee {
	case "bytes.NewBuffer", "bytes.NewReader":
		m.hold[res(0)] = m.slice(arg(0))
		return
	case "io.ReadFull":
		c := m.takeN(e, arg(0), m.en.Len(arg(1)))
		m.fill(arg(1), c)
		m.isSize(res(0), c)
		return
	case "io.CopyN":
		c := m.takeN(e, arg(1), e.Args[2])
		m.isSize(res(0), c)
		m.put(e, arg(0), c)
		return
	case "io.Copy":
		c := m.drain(e, arg(1))
		m.isSize(res(0), c)
		m.put(e, arg(0), c)
		return
	}
	if strings.HasSuffix(e.Callee, "flate.NewWriter") && len(e.Args) >= 1 {
		m.packs[res(0)] = &packer{out: arg(0), known: true}
		return
	}
	if strings.HasSuffix(e.Callee, "flate.NewReader") && len(e.Args) >= 1 {
		m.unpack[res(0)] = arg(0)
		return
	}
	// other calls must keep off what is followed
	if x != nil && (m.hold[x] != nil || packerType(x.Typ)) {
		m.lost(e, e.Name)
	}
	for _, a := range e.Args {
		a = engine.StripIface(a)
		if isBytesBuffer(a.Typ) || packerType(a.Typ) || m.slices[a] != nil {
			m.lost(e, e.Name)
		}
	}
}

// atMost proves a <= b from what is known on the path.
func (m *moved) atMost(a, b *engine.Term) bool {
	var facts []engine.Lin
	sub := func(x, y engine.Lin, k int64) engine.Lin {
		r := engine.Lin{Coef: map[*engine.Term]int64{}, K: x.K + k*y.K}
		for t, c := range x.Coef {
			r.Coef[t] = c
		}
		for t, c := range y.Coef {
			r.Coef[t] += k * c
			if r.Coef[t] == 0 {
				delete(r.Coef, t)
			}
		}
		return r
	}
	zero := engine.Lin{Coef: map[*engine.Term]int64{}}
	add := func(p *engine.Path, out bool) {
		for _, l := range p.Lits {
			if l.Cond.Op != "le0" && l.Cond.Op != "eq0" {
				continue
			}
			if out && l.Cond.Find(func(t *engine.Term) bool { return t.Op == "iter" }) != nil {
				continue // of another iteration
			}
			f := m.canon(l.Cond.Args[0])
			if l.Cond.Op == "le0" {
				if !l.Val {
					f = sub(zero, f, -1)
					f.K++
				}
				facts = append(facts, f)
			} else if l.Val {
				facts = append(facts, f, sub(zero, f, -1))
			}
		}
	}
	for _, p := range m.outer {
		add(p, true)
	}
	add(m.p, false)
	goal := sub(m.canon(a), m.canon(b), -1)
	var prove func(g engine.Lin, d int) bool
	prove = func(g engine.Lin, d int) bool {
		ok := g.K <= 0
		for t, c := range g.Coef {
			if c > 0 || !m.natural(t) {
				ok = false
			}
		}
		if ok {
			return true
		}
		if d == 0 {
			return false
		}
		for _, f := range facts {
			useful := false
			for t, c := range f.Coef {
				if g.Coef[t]*c > 0 {
					useful = true
				}
			}
			if useful && prove(sub(g, f, -1), d-1) {
				return true
			}
		}
		return false
	}
	return prove(goal, 4)
}

// natural tells that a term is never negative.
func (m *moved) natural(t *engine.Term) bool {
	switch t.Op {
	case "left", "len":
		return true
	case "res":
		if e, ok := t.Any.(*engine.Event); ok {
			switch e.Name {
			case "Len", "WriteTo", "ReadFull", "CopyN", "Copy", "Write", "ReadFrom", "Cap":
				return true
			}
		}
	}
	lo, _ := m.en.TermBounds(m.p.St, t)
	return lo >= 0
}
