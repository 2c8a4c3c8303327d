package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C07"] = property{"path summaries of compressing and decompressing functions (abstract interpretation over SSA) with a model of buffers, slices and compressors holding runs of bytes; provenance of every header bit, composed from writer to reader; linear facts of the path bound chunk lengths", rulesC07}
}

const maxChunk = 1<<23 - 1

func rulesC07(c *Check) {
	units := chunksWritten(c)
	c.atLeast("compressed data leaves in chunks", 2)
	c.atLeast("data is stored as it is without compression", 2)
	c.atLeast("what is left is compressed in the end", 1)
	chunksRead(c, units)
	c.atLeast("chunks are taken apart as they were put together", 2)
	c.atLeast("bytes read are handed out in order", 2)
}

// unit is one chunk as written: header and length of its body.
type unit struct {
	stored bool
	head   [3]bits
	length bits
	where  string
	pos    token.Pos
}

// compressors are the functions with a kind of compression and two buffers, by whether they compress.
func compressors(w *World) (comp, decomp []*ssa.Function) {
	for _, f := range w.Funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil {
			continue
		}
		if w.rel(f.Pkg.Pkg) != "orc/common" || !token.IsExported(f.Name()) {
			continue
		}
		kinds, bufs := 0, 0
		for _, p := range f.Params {
			if typeIs(p.Type(), "pb/pb.CompressionKind") {
				kinds++
			}
			if isBytesBuffer(p.Type()) {
				bufs++
			}
		}
		if kinds != 1 || bufs != 2 {
			continue
		}
		switch {
		case callsOutside(w, f, "flate.NewWriter"):
			comp = append(comp, f)
		case callsOutside(w, f, "flate.NewReader"):
			decomp = append(decomp, f)
		}
	}
	return
}

// callsOutside tells that a function reaches a call of a function with this name.
func callsOutside(w *World, f *ssa.Function, name string) bool {
	for g := range w.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && strings.HasSuffix(s.String(), name) {
						return true
					}
				}
			}
		}
	}
	return false
}

// callers are the calls of a function from other packages.
func callersOutside(w *World, f *ssa.Function) (r []ssa.CallInstruction) {
	for _, g := range w.Funcs {
		if g.Pkg == nil || g.Pkg == f.Pkg {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					r = append(r, c)
				}
			}
		}
	}
	return
}

// buffersOf tells which parameter is read and which is written, by what is done with them.
func buffersOf(s *engine.Summary) (dst, src *engine.Term) {
	var bs []*engine.Term
	for _, p := range s.Params {
		if isBytesBuffer(p.Typ) {
			bs = append(bs, p)
		}
	}
	if len(bs) != 2 {
		return nil, nil
	}
	score := func(x *engine.Term) (n int) {
		for _, p := range s.Paths {
			deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
				if e.Kind != "call" {
					return
				}
				if e.Recv != nil && engine.StripIface(e.Recv) == x {
					switch e.Name {
					case "Write", "WriteByte", "ReadFrom":
						n++
					case "WriteTo", "Bytes", "Next", "Read":
						n--
					}
					return
				}
				for i, a := range e.Args {
					if engine.StripIface(a) != x {
						continue
					}
					switch {
					case e.Name == "WriteTo", i == 0 && (e.Name == "Copy" || e.Name == "CopyN"):
						n++
					default:
						n--
					}
				}
			})
		}
		return
	}
	if score(bs[0]) >= score(bs[1]) {
		return bs[0], bs[1]
	}
	return bs[1], bs[0]
}

func paramOf(s *engine.Summary, is func(t types.Type) bool) *engine.Term {
	for _, p := range s.Params {
		if p.Typ != nil && is(p.Typ) {
			return p
		}
	}
	return nil
}

func isKindType(t types.Type) bool { return typeIs(t, "pb/pb.CompressionKind") }

// plainInt is an integer type without a name.
func plainInt(t types.Type) bool {
	_, ok := t.(*types.Basic)
	return ok && isIntType(t)
}

// segment is what happened between two loops: what was taken from src and what was put to dst.
type segment struct {
	m        *moved
	taken    []*blob
	added    []*blob
	last     bool // up to the end of the path
	inLoop   bool
	leftover []*blob
}

// segments follows a path from loop to loop, and the iterations of its loops.
func segments(en *engine.Engine, p *engine.Path, dst, src *engine.Term, f func(s *segment)) *moved {
	m := newMoved(en, p)
	segmentsIn(m, dst, src, false, f)
	return m
}

func segmentsIn(m *moved, dst, src *engine.Term, inLoop bool, f func(s *segment)) {
	cut := func(last bool) {
		s := &segment{m: m, last: last, inLoop: inLoop, taken: m.taken[src], leftover: m.contents(src)}
		d := m.contents(dst)
		if len(d) > 0 && d[0].kind == "rest" {
			s.added = d[1:]
		} else {
			m.lost(nil, "what was written before is gone")
		}
		f(s)
	}
	m.hold[dst] = []*blob{m.rest(dst)}
	m.contents(src)
	m.taken[src] = nil
	for _, e := range m.p.Events {
		if e.Kind == "loop" {
			cut(false)
			ts := touched(e.Loop)
			m.forget(e.Loop)
			m.taken[src] = nil
			m.hold[dst] = []*blob{m.rest(dst)}
			if !ts[src] && !ts[dst] {
				continue
			}
			for _, it := range e.Loop.Iters {
				n := m.inside(it)
				segmentsIn(n, dst, src, true, f)
				if n.why != "" && m.why == "" {
					m.why, m.where = n.why, n.where
				}
			}
			continue
		}
		m.step(e)
	}
	cut(true)
}

func chunksWritten(c *Check) (units []*unit) {
	rule := "compressed data leaves in chunks"
	plain := "data is stored as it is without compression"
	w := c.W
	comp, _ := compressors(w)
	drains := map[*ssa.Function]bool{}
	for _, f := range comp {
		out := len(callersOutside(w, f)) > 0
		drains[f] = true
		for _, zip := range []bool{false, true} {
			r := plain
			if zip {
				r = rule
			}
			con := short(f)
			en := w.newEngine()
			s := c.run(en, r, f, nil, func(st *engine.State) {})
			if s == nil {
				continue
			}
			c.ob(r, con)
			dst, src := buffersOf(s)
			kind, size := paramOf(s, isKindType), paramOf(s, plainInt)
			if !c.expect(dst != nil && kind != nil && size != nil, r, con, f.Pos(), "%s does not have a kind, a chunk size and two buffers", con) {
				continue
			}
			seen := 0
			for _, p := range s.Paths {
				k, known := eqConst(en, p, kind)
				isZip := known && k == 1
				isPlain := known && k == 0
				if !isZip && !isPlain {
					if zip && failed(en, p) != yes {
						c.fail(r, con+" other kinds", p.RetPos, "%s accepts kinds of compression it does not know", con)
					}
					continue
				}
				if isZip != zip {
					continue
				}
				if failed(en, p) != no {
					if out && zip && ownError(p) {
						m := newMoved(en, p)
						for _, e := range p.Events {
							if e.Kind == "loop" {
								m.forget(e.Loop)
							} else {
								m.step(e)
							}
						}
						c.expect(m.atMost(size, en.P.Int(0)) || m.atMost(en.P.Int(maxChunk+1), size) || m.impossible(), r, con+" refuses", p.RetPos, "%s refuses data for a chunk size that fits the header", con)
					}
					if failed(en, p) == yes {
						continue
					}
				}
				seen++
				m := segments(en, p, dst, src, func(sg *segment) {
					if sg.m.why != "" {
						return
					}
					pos := p.RetPos
					if !zip {
						if !sameBlobs(sg.added, sg.taken) {
							c.fail(r, con, pos, "%s does not hand on exactly the bytes it takes: takes %s, hands on %s", con, blobNames(sg.taken), blobNames(sg.added))
						}
					} else {
						us, ok := framed(c, en, r, con, pos, sg, size)
						if ok {
							units = append(units, us...)
						}
					}
					if sg.last && !sg.inLoop && !nothingLeft(sg.m, sg.leftover) {
						drains[f] = false
					}
				})
				if m.why != "" {
					pos := p.RetPos
					if m.where != nil {
						pos = m.where.Pos
					}
					c.fail(r, con+" followed", pos, "what %s does with the data cannot be followed: %s", con, m.why)
				}
			}
			c.expect(seen > 0, r, con, f.Pos(), "%s never succeeds", con)
		}
	}
	left := "what is left is compressed in the end"
	for _, f := range comp {
		if drains[f] {
			continue
		}
		for _, call := range callersOutside(w, f) {
			g := call.Parent()
			con := short(g)
			c.ob(left, con)
			ok := false
			if v := bufferField(call, f, c, 1); v != nil {
				for _, h := range comp {
					if !drains[h] {
						continue
					}
					for _, end := range callersOutside(w, h) {
						ok = ok || bufferField(end, h, c, 1) == v && bufferField(end, h, c, 0) == bufferField(call, f, c, 0)
					}
				}
			}
			c.expect(ok, left, con, call.Pos(), "%s may leave data uncompressed and nothing compresses the rest into the same buffer", short(f))
		}
	}
	for _, f := range comp {
		if !drains[f] {
			continue
		}
		for _, call := range callersOutside(w, f) {
			c.ob(left, short(call.Parent())+" at the end")
		}
	}
	return
}

// ownError tells that a path fails without a call having failed.
func ownError(p *engine.Path) bool {
	if e := errOf(p); e != nil && e.Find(func(t *engine.Term) bool { return t.Op == "res" }) != nil {
		return false
	}
	for _, l := range p.Lits {
		if l.Cond.Op == "isnil" && !l.Val && l.Cond.Args[0].Op == "res" {
			return false
		}
	}
	return true
}

// bufferField is the field which the first (written) or second (read) buffer of a call comes from.
func bufferField(call ssa.CallInstruction, f *ssa.Function, c *Check, which int) *types.Var {
	en := c.W.newEngine()
	s := en.Run(f, nil, nil)
	dst, src := buffersOf(s)
	want := dst
	if which == 1 {
		want = src
	}
	for i, p := range s.Params {
		if p != want || i >= len(call.Common().Args) {
			continue
		}
		if ld, ok := call.Common().Args[i].(*ssa.UnOp); ok {
			return fieldVar(ld.X)
		}
	}
	return nil
}

func sameBlobs(a, b []*blob) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func blobNames(bs []*blob) string {
	var r []string
	for _, b := range bs {
		switch b.kind {
		case "rest":
			r = append(r, "all that is left")
		case "tok":
			r = append(r, "some bytes")
		case "byte":
			r = append(r, "a byte")
		case "pack":
			r = append(r, "compressed("+blobNames(b.of)+")")
		case "unpack":
			r = append(r, "decompressed("+blobNames(b.of)+")")
		case "open":
			r = append(r, "unfinished compressed bytes")
		default:
			r = append(r, "other bytes")
		}
	}
	if len(r) == 0 {
		return "nothing"
	}
	return strings.Join(r, " + ")
}

// nothingLeft tells that an object is known to be empty.
func nothingLeft(m *moved, bs []*blob) bool {
	if len(bs) == 0 {
		return true
	}
	s := m.size(bs)
	return s != nil && m.atMost(s, m.en.P.Int(0))
}

// impossible tells that what is known on the path contradicts itself.
func (m *moved) impossible() bool {
	for _, l := range m.p.Lits {
		if l.Cond.Op != "le0" {
			continue
		}
		one := m.en.P.Int(1)
		zero := m.en.P.Int(0)
		x := l.Cond.Args[0]
		if l.Val && m.atMost(one, x) || !l.Val && m.atMost(x, zero) {
			return true
		}
	}
	return false
}

// framed checks that what was added are chunks of exactly what was taken.
func framed(c *Check, en *engine.Engine, rule, con string, pos token.Pos, sg *segment, size *engine.Term) (us []*unit, ok bool) {
	m := sg.m
	var body []*blob
	bad := func(format string, a ...interface{}) ([]*unit, bool) {
		c.fail(rule, con, pos, format, a...)
		return nil, false
	}
	i := 0
	for i < len(sg.added) {
		if i+3 > len(sg.added) || sg.added[i].kind != "byte" || sg.added[i+1].kind != "byte" || sg.added[i+2].kind != "byte" {
			return bad("%s writes bytes without a header of three bytes: %s", con, blobNames(sg.added[i:]))
		}
		h := sg.added[i : i+3]
		i += 3
		j := i
		for j < len(sg.added) && sg.added[j].kind != "byte" {
			j++
		}
		bs := sg.added[i:j]
		i = j
		u := &unit{where: con, pos: pos}
		orig := bs
		switch {
		case len(bs) == 1 && bs[0].kind == "pack":
			orig = bs[0].of
		default:
			u.stored = true
		}
		for _, b := range orig {
			if b.kind != "tok" && b.kind != "rest" {
				return bad("%s writes a chunk of something else than the data: %s", con, blobNames(bs))
			}
		}
		body = append(body, orig...)
		n := m.size(bs)
		if n == nil {
			return bad("the length of a chunk written by %s is never looked at", con)
		}
		on := m.size(orig)
		if on == nil || !m.atMost(on, size) {
			return bad("%s may write a chunk of more than the chunk size of original bytes", con)
		}
		if !m.atMost(n, en.P.Int(maxChunk)) || !m.atMost(n, size) {
			return bad("%s may write a chunk whose length does not fit the header or is more than the chunk size", con)
		}
		l := m.term(m.canon(n))
		view := &bitView{en: en, below: func(t *engine.Term) int {
			if m.term(m.canon(t)) == l || m.atMost(t, en.P.Int(maxChunk)) && m.atMost(en.P.Int(0), t) {
				return 23
			}
			return 64
		}}
		// every term for the length counts as the same
		view.env = map[*engine.Term]bits{}
		lb := view.whole(l)
		for k := 0; k < 3; k++ {
			h[k].t.Find(func(t *engine.Term) bool {
				if t != l && m.equal(t, l) && t.Op != "bin" && t.Op != "conv" {
					view.env[t] = lb
				}
				return false
			})
		}
		view.env[l] = lb
		for k := 0; k < 3; k++ {
			u.head[k] = view.of(h[k].t).cut(8, false)
		}
		u.length = lb
		us = append(us, u)
	}
	if !sameBlobs(body, sg.taken) {
		return bad("%s does not put every byte it takes into a chunk once and in order: takes %s, chunks hold %s", con, blobNames(sg.taken), blobNames(body))
	}
	return us, true
}

func chunksRead(c *Check, units []*unit) {
	rule := "chunks are taken apart as they were put together"
	w := c.W
	_, decomp := compressors(w)
	for _, f := range decomp {
		con := short(f)
		en := w.newEngine()
		s := c.run(en, rule, f, nil, nil)
		if s == nil {
			continue
		}
		dst, src := buffersOf(s)
		kind := paramOf(s, isKindType)
		if !c.expect(dst != nil && kind != nil, rule, con, f.Pos(), "%s does not have a kind and two buffers", con) {
			continue
		}
		var rs []*readUnit
		whole, chunked := 0, 0
		for _, p := range s.Paths {
			if k, known := eqConst(en, p, kind); !known || k != 1 {
				if failed(en, p) != yes {
					c.fail(rule, con+" other kinds", p.RetPos, "%s accepts kinds of compression it does not know", con)
				}
				continue
			}
			if failed(en, p) == yes {
				c.expect(!ownError(p), rule, con+" refuses", p.RetPos, "%s refuses data although nothing failed", con)
				continue
			}
			n := 0
			m := segments(en, p, dst, src, func(sg *segment) {
				if sg.m.why != "" {
					return
				}
				if len(sg.taken) == 1 && len(sg.added) == 1 && sg.added[0].kind == "unpack" && sameBlobs(sg.added[0].of, sg.taken) && sg.taken[0].kind == "rest" {
					whole++
					return
				}
				if sg.last && !sg.inLoop {
					c.expect(nothingLeft(sg.m, sg.leftover), rule, con, p.RetPos, "%s may stop before all chunks are read", con)
				}
				if len(sg.taken) == 0 && len(sg.added) == 0 {
					return
				}
				if r := takenApart(c, en, rule, con, p.RetPos, sg); r != nil {
					rs = append(rs, r)
					n++
				}
			})
			if m.why != "" {
				pos := p.RetPos
				if m.where != nil {
					pos = m.where.Pos
				}
				c.fail(rule, con+" followed", pos, "what %s does with the data cannot be followed: %s", con, m.why)
			}
			chunked += n
		}
		if chunked == 0 && whole > 0 {
			c.ob("a chunk is decompressed whole", con)
			continue
		}
		c.ob(rule, con)
		composed(c, en, rule, con, f.Pos(), rs, units)
	}
	streamChunks(c, units)
}

// readUnit is one chunk as read on one path.
type readUnit struct {
	m      *moved
	stored bool
	n      *engine.Term
	head   [3]*engine.Term
	pos    token.Pos
}

// takenApart checks that a header and the bytes after it were taken, and delivered as they are or decompressed.
func takenApart(c *Check, en *engine.Engine, rule, con string, pos token.Pos, sg *segment) *readUnit {
	m := sg.m
	if len(sg.taken) != 2 || sg.taken[0].kind != "tok" || sg.taken[1].kind != "tok" || !m.equal(sg.taken[0].n, en.P.Int(3)) {
		c.fail(rule, con, pos, "%s does not take a header of three bytes and one run of bytes: %s", con, blobNames(sg.taken))
		return nil
	}
	r := &readUnit{m: m, n: sg.taken[1].n, pos: pos}
	b := sg.taken[1]
	switch {
	case len(sg.added) == 1 && sg.added[0] == b:
		r.stored = true
	case len(sg.added) == 1 && sg.added[0].kind == "unpack" && len(sg.added[0].of) == 1 && sg.added[0].of[0] == b:
	default:
		c.fail(rule, con, pos, "%s does not deliver exactly the bytes of the chunk: takes %s, delivers %s", con, blobNames(sg.taken), blobNames(sg.added))
		return nil
	}
	for t, bs := range m.slices {
		if len(bs) == 1 && bs[0] == sg.taken[0] {
			for i := range r.head {
				r.head[i] = en.Load(m.p.St, en.ElemAddr(t, en.P.Int(int64(i)), types.Typ[types.Uint8]), types.Typ[types.Uint8])
			}
		}
	}
	if r.head[0] == nil {
		c.fail(rule, con, pos, "%s does not look at the header", con)
		return nil
	}
	return r
}

// composed puts the headers written into what is read.
func composed(c *Check, en *engine.Engine, rule, con string, pos token.Pos, rs []*readUnit, units []*unit) {
	for _, u := range units {
		kind := "compressed"
		if u.stored {
			kind = "stored"
		}
		fits := 0
		for _, r := range rs {
			view := &bitView{en: en, env: map[*engine.Term]bits{}}
			for i, h := range r.head {
				view.env[h] = u.head[i]
			}
			possible := true
			for _, l := range r.m.p.Lits {
				v := view.truth(l.Cond)
				if v == yes && !l.Val || v == no && l.Val {
					possible = false
				}
			}
			if !possible {
				continue
			}
			fits++
			c.expect(r.stored == u.stored, rule, con, r.pos, "%s takes a %s chunk of %s for the other kind", con, kind, u.where)
			n := view.of(r.n)
			for i := range n {
				if n[i] != u.length[i] {
					c.fail(rule, con, r.pos, "bit %d of the length of a %s chunk written by %s is read as something else by %s", i, kind, u.where, con)
					break
				}
			}
		}
		c.expect(fits > 0, rule, con, pos, "%s cannot read a %s chunk written by %s", con, kind, u.where)
	}
	c.expect(len(units) > 0, rule, con, pos, "no chunks are written")
}

// streamChunks checks the streams' reader.
func streamChunks(c *Check, units []*unit) {
	rule := "chunks are taken apart as they were put together"
	order := "bytes read are handed out in order"
	w := c.W
	sp := w.Pkgs["orc/stream"]
	for _, mem := range sortedMembers(sp) {
		tm, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := tm.Type().(*types.Named)
		if !ok || fieldIndex(nt, func(v *types.Var) bool { return isBytesBuffer(v.Type()) }) == nil || fieldOfType(nt, "orc/io.File") == nil {
			continue
		}
		rd, rb := w.method(nt, "Read"), w.method(nt, "ReadByte")
		if !c.expect(rd != nil && rb != nil, order, short(nil2(rd, rb)), 0, "a stream's reader is no reader of bytes") {
			continue
		}
		// what loads a chunk: methods reading the file, called by both
		var fill *ssa.Function
		fromByte := staticReach(rb)
		for f := range staticReach(rd) {
			if !fromByte[f] || f == rd || f == rb || f.Signature.Recv() == nil || deptr(f.Signature.Recv().Type()) != types.Type(nt) || !takesFromFile(w, f) {
				continue
			}
			if fill == nil {
				fill = f
			} else if staticReach(f)[fill] {
				fill = f
			}
		}
		if !c.expect(fill != nil, rule, nt.Obj().Name(), nt.Obj().Pos(), "no method of %s loads a chunk", nt.Obj().Name()) {
			continue
		}
		bufVar := handedOut(c, order, nt, fill, rd, rb)
		if bufVar == nil {
			continue
		}
		chunkLoaded(c, rule, nt, fill, bufVar, units)
	}
}

// staticReach are the functions called by name, one by another.
func staticReach(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{f: true}
	for queue := []*ssa.Function{f}; len(queue) > 0; queue = queue[1:] {
		for _, b := range queue[0].Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Pkg == f.Pkg && !r[s] {
						r[s] = true
						queue = append(queue, s)
					}
				}
			}
		}
	}
	return r
}

func nil2(f, g *ssa.Function) *ssa.Function {
	if f != nil {
		return f
	}
	return g
}

// fieldOfType is a field of a struct itself.
func fieldOfType(nt *types.Named, typ string) *types.Var {
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeIs(st.Field(i).Type(), typ) {
			return st.Field(i)
		}
	}
	return nil
}

func takesFromFile(w *World, f *ssa.Function) bool {
	return callsOutside(w, f, "io.ReadFull") || callsOutside(w, f, "io.CopyN") || w.reaches(f, "orc/io.File", "Read")
}

// handedOut checks Read and ReadByte and tells the buffer they read from.
func handedOut(c *Check, rule string, nt *types.Named, fill *ssa.Function, fns ...*ssa.Function) (buf *types.Var) {
	for _, fn := range fns {
		con := short(fn)
		c.ob(rule, con)
		en := c.W.newEngine()
		en.Opaque = func(f *ssa.Function) bool { return f == fill }
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			return nil
		}
		n := 0
		for _, p := range s.Paths {
			if failed(en, p) == yes {
				continue
			}
			n++
			var from *engine.Event
			bad := ""
			scan := func(e *engine.Event, in *engine.Loop) {
				if e.Kind != "call" {
					return
				}
				if calledIs(e, fill) {
					if from != nil {
						bad = "loads more after bytes were taken"
					}
					return
				}
				if e.Recv != nil && isBytesBuffer(e.Recv.Typ) {
					switch e.Name {
					case "Len", "Cap", "Grow":
					case "Read", "ReadByte":
						if from != nil || in != nil {
							bad = "takes bytes more than once"
						}
						from = e
					default:
						bad = "does " + e.Name + " on the buffer"
					}
					return
				}
				for _, a := range e.Args {
					if isBytesBuffer(engine.StripIface(a).Typ) {
						if e.Callee == "io.ReadFull" && from == nil && in == nil {
							from = e
							continue
						}
						bad = "hands the buffer to " + e.Name
					}
				}
				if e.Iface && e.Recv != nil && typeIs(e.Recv.Typ, "orc/io.File") {
					bad = "uses the file beside the chunks"
				}
			}
			deep(p.Events, scan)
			if bad == "" && from == nil {
				// nothing to read
				bad = "succeeds without reading"
				if len(p.Ret) == 2 && zeroTerm(p.Ret[0]) && fn.Name() == "Read" && len(s.Params) > 1 && knownZero(en, p, en.Len(s.Params[1])) {
					continue
				}
			}
			if bad != "" {
				c.fail(rule, con, p.RetPos, "%s %s", con, bad)
				continue
			}
			var x *engine.Term
			if from.Callee == "io.ReadFull" {
				x = engine.StripIface(from.Args[0])
			} else {
				x = engine.StripIface(from.Recv)
			}
			v := fieldOfTerm(nt, s.Params[0], x)
			if !c.expect(v != nil && (buf == nil || buf == v), rule, con, p.RetPos, "%s does not read from the reader's buffer", con) {
				continue
			}
			buf = v
			c.expect(len(p.Ret) == 2 && stripConv(p.Ret[0]) == from.Res[0] || from.Callee == "io.ReadFull" && stripConv(p.Ret[0]) == stripConv(en.Len(from.Args[1])), rule, con, p.RetPos, "%s does not return what it took from the buffer", con)
			if from.Name != "ReadByte" {
				a := from.Args[len(from.Args)-1]
				c.expect(len(s.Params) > 1 && a == s.Params[1], rule, con, p.RetPos, "%s does not fill the slice it is given", con)
			}
		}
		c.expect(n > 0, rule, con, fnPos(fn), "%s never succeeds", con)
	}
	return
}

// fieldOfTerm is the field of an object which a term is the initial content of.
func fieldOfTerm(nt *types.Named, obj, x *engine.Term) *types.Var {
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if own2(x, obj, v.Name()) || x.Op == "field" && x.Aux == v.Name() && x.Args[0] == obj {
			return v
		}
	}
	return nil
}

// chunkLoaded checks the method which loads a chunk.
func chunkLoaded(c *Check, rule string, nt *types.Named, fill *ssa.Function, buf *types.Var, units []*unit) {
	w := c.W
	con := short(fill)
	for _, zip := range []bool{true, false} {
		con := con
		if !zip {
			con += " without compression"
		}
		c.ob(rule, con)
		en := w.newEngine()
		en.TrackStores = true
		rt := types.Type(fill.Params[0].Type())
		s := c.run(en, rule, fill, nil, func(st *engine.State) {
			recv := en.P.Mk("param", fill.Params[0].Name(), rt)
			_ = recv
		})
		if s == nil {
			return
		}
		recv := s.Params[0]
		dst := fieldTerm(en, recv, rt, isVar(buf))
		src := fieldTerm(en, recv, rt, ofType("orc/io.File"))
		opts := fieldTerm(en, recv, rt, ofType("orc/config.ReaderOptions"))
		if !c.expect(dst != nil && src != nil && opts != nil, rule, con, fnPos(fill), "%s has no buffer, file or options", con) {
			return
		}
		kind := fieldTerm(en, opts, opts.Typ, named("CompressionKind"))
		size := fieldTerm(en, opts, opts.Typ, named("ChunkSize"))
		var rs []*readUnit
		counters := map[string]int{}
		n := 0
		for _, p := range s.Paths {
			none, known := en.Decide(p.St, en.Eq(kind, en.P.Int(0)))
			z, zk := en.Decide(p.St, en.Eq(kind, en.P.Int(1)))
			switch {
			case zip && (known && none || zk && !z):
				if !(known && none) && failed(en, p) != yes {
					c.fail(rule, con+" other kinds", p.RetPos, "%s accepts kinds of compression it does not know", con)
				}
				continue
			case !zip && !(known && none):
				continue
			}
			if failed(en, p) == yes {
				if ownError(p) {
					m := newMoved(en, p)
					for _, e := range p.Events {
						if e.Kind == "loop" {
							m.forget(e.Loop)
						} else {
							m.step(e)
						}
					}
					ok := false
					for _, b := range m.taken[src] {
						ok = ok || b.kind == "tok" && m.atMost(en.P.Add(size, en.P.Int(1), 1, types.Typ[types.Int]), b.n)
					}
					if zip && !ok {
						ok = refusesLong(en, p, size)
					}
					c.expect(ok, rule, con+" refuses", p.RetPos, "%s refuses chunks which are not longer than the chunk size", con)
				}
				continue
			}
			n++
			m := segments(en, p, dst, src, func(sg *segment) {
				if sg.m.why != "" {
					return
				}
				if sg.inLoop || !sg.last {
					if len(sg.taken)+len(sg.added) > 0 {
						c.fail(rule, con, p.RetPos, "%s takes bytes in pieces", con)
					}
					return
				}
				if zip {
					if r := takenApart(c, en, rule, con, p.RetPos, sg); r != nil {
						rs = append(rs, r)
					}
				} else {
					c.expect(sameBlobs(sg.taken, sg.added) && len(sg.taken) == 1, rule, con, p.RetPos, "%s does not deliver exactly the bytes it takes", con)
				}
				// the counter
				sum := sg.m.size(sg.taken)
				st := nt.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					v := st.Field(i)
					if !isIntType(v.Type()) || sum == nil {
						continue
					}
					was := fieldTerm(en, recv, rt, isVar(v))
					is := now(en, p, recv, rt, v)
					if is != nil && sg.m.equal(en.P.Add(is, was, -1, types.Typ[types.Int]), sum) {
						counters[v.Name()]++
						if !zip && len(sg.taken) == 1 {
							inEnd(c, en, rule, con, p, sg.m, recv, rt, was, sg.taken[0].n)
						}
					}
				}
			})
			if m.why != "" {
				pos := p.RetPos
				if m.where != nil {
					pos = m.where.Pos
				}
				c.fail(rule, con+" followed", pos, "what %s does with the data cannot be followed: %s", con, m.why)
			}
		}
		all := false
		for _, k := range counters {
			all = all || k == n
		}
		c.expect(n > 0 && all, rule, con+" counts", fnPos(fill), "%s does not count exactly the bytes it takes from the file", con)
		if zip {
			composed(c, en, rule, con, fnPos(fill), rs, units)
		}
	}
}

// refusesLong tells that a path compares a value with the chunk size and found it to be more.
func refusesLong(en *engine.Engine, p *engine.Path, size *engine.Term) bool {
	m := newMoved(en, p)
	for _, l := range p.Lits {
		if l.Cond.Op != "le0" || !l.Cond.Contains(size) {
			continue
		}
		lin := en.P.LinOf(l.Cond.Args[0])
		s, ok := lin.Coef[size]
		if !ok || s != 1 && s != -1 {
			continue
		}
		n := en.P.Int(0)
		for t, k := range lin.Coef {
			if t != size {
				n = en.P.Add(n, t, -s*k, types.Typ[types.Int])
			}
		}
		if m.atMost(en.P.Add(size, en.P.Int(1), 1, types.Typ[types.Int]), n) && fromHeader(n) {
			return true
		}
	}
	return false
}

// fromHeader tells that a value is made of bytes of a slice.
func fromHeader(t *engine.Term) bool {
	return t.Find(func(x *engine.Term) bool { return x.Op == "load" || x.Op == "res" }) != nil
}

// inEnd checks that without compression no bytes beyond the stream are taken.
func inEnd(c *Check, en *engine.Engine, rule, con string, p *engine.Path, m *moved, recv *engine.Term, rt types.Type, was, n *engine.Term) {
	ok := false
	info := fieldTerm(en, recv, rt, ofType("pb/pb.Stream"))
	if info != nil {
		from := []*engine.Term{n}
		for _, l := range p.Lits {
			from = append(from, l.Cond)
		}
		for _, x := range from {
			x.Find(func(t *engine.Term) bool {
				if t.Op == "load" && t.Contains(info) && isIntType(nilInt(t.Typ)) && m.atMost(en.P.Add(was, n, 1, types.Typ[types.Int]), t) {
					ok = true
				}
				return false
			})
		}
	}
	c.expect(ok, rule, con+" end", p.RetPos, "%s may take bytes beyond the end of the stream", con)
}

func nilInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.String]
	}
	return t
}
