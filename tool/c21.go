package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C21"] = property{"typestate over go/ssa path summaries: every value stream is flushed exactly once and not written after, encoders are drained before compression and compression before the length is taken, columns are flushed before anything of the stripe is written, the last stripe is flushed on closing", rulesC21}
}

func rulesC21(c *Check) {
	rule := "a column flushes each of its streams once"
	for _, col := range c.writers(rule) {
		for _, nulls := range []bool{false, true} {
			columnFlushed(c, col, nulls)
		}
	}
	c.atLeast(rule, 20)
	streamFlushed(c)
	encodersDrained(c)
	stripeFlushed(c)
	lastStripe(c)
}

func columnFlushed(c *Check, col *column, nulls bool) {
	rule := "a column flushes each of its streams once"
	con := col.name + cfgName(nulls)
	fn, s := c.runMethod(col, rule, "Flush", col.withNulls(nulls))
	if fn == nil {
		return
	}
	live := map[*colStream]bool{}
	for _, st := range col.live(nulls) {
		live[st] = true
	}
	for _, p := range good(col.en, fn, s) {
		flushed := map[*colStream]int{}
		for _, a := range flat(p) {
			if a.e.Kind != "call" {
				continue
			}
			st := col.streamOf(a.e.Recv)
			if st == nil {
				continue
			}
			c.expect(live[st], rule, con, a.e.Pos, "stream %s is not there without nulls, but %s is called", st.name, a.e.Name)
			switch a.e.Name {
			case "Flush":
				c.expect(a.lp == nil, rule, con, a.e.Pos, "stream %s is flushed in a loop", st.name)
				flushed[st]++
			case "Write":
				c.expect(flushed[st] == 0, rule, con, a.e.Pos, "stream %s is written after it was flushed", st.name)
			case "Info":
				c.expect(flushed[st] > 0, rule, con, a.e.Pos, "the length of stream %s is taken before it is flushed", st.name)
			case "Size", "GetPosition":
			default:
				c.fail(rule, con, a.e.Pos, "%s is called on stream %s while flushing", a.e.Name, st.name)
			}
		}
		for _, st := range col.live(nulls) {
			c.expect(flushed[st] == 1, rule, con, p.RetPos, "stream %s is flushed %d times [%s]", st.name, flushed[st], lits(p))
		}
	}
}

// drains tells that a call moves everything left in buf, compressed, into another buffer.
func drains(e *engine.Event, buf *engine.Term) *engine.Term {
	if e.Kind != "call" || len(e.Args) != 4 || engine.StripIface(e.Args[3]) != buf {
		return nil
	}
	if strings.HasSuffix(e.Callee, "orc/common.CompressingAllInChunks") || strings.HasSuffix(e.Callee, "orc/common.CompressingLeft") {
		return engine.StripIface(e.Args[2])
	}
	return nil
}

// looks tells that a call on a buffer does not change it.
func looks(e *engine.Event, buf *engine.Term) bool {
	if e.Recv == nil || engine.StripIface(e.Recv) != buf {
		return false
	}
	switch e.Name {
	case "Len", "Bytes", "Cap", "Available", "Grow", "String":
		return true
	}
	return false
}

// knownEmpty tells that a path found buf empty after event from.
func knownEmpty(en *engine.Engine, p *engine.Path, buf *engine.Term, from *engine.Event) bool {
	seen := false
	for _, a := range flat(p) {
		if a.e == from {
			seen = true
		}
		if seen && a.e.Kind == "call" && a.e.Name == "Len" && a.e.Recv != nil && engine.StripIface(a.e.Recv) == buf && len(a.e.Res) > 0 {
			if v, k := en.Decide(p.St, en.Le(a.e.Res[0], en.P.Int(0))); k && v {
				return true
			}
			if v, k := en.Decide(p.St, en.Eq(a.e.Res[0], en.P.Int(0))); k && v {
				return true
			}
		}
	}
	return false
}

// streamFlushed: the stream hands values to its encoder, and a flush moves all of them to what is written out.
func streamFlushed(c *Check) {
	rule := "a stream flush encodes and compresses everything"
	rule2 := "every value written is encoded"
	for _, t := range c.W.implementers(streamPkg, "Writer") {
		for _, comp := range []bool{false, true} {
			con := t.Obj().Name() + compName(comp)
			en := c.W.streamEngine()
			recv := en.P.Mk("param", "w", types.NewPointer(t))
			as := withCompression(en, recv, recv.Typ, comp)
			wr, fl, wo := c.W.method(t, "Write"), c.W.method(t, "Flush"), c.W.method(t, "WriteOut")
			if !c.expect(wr != nil && fl != nil && wo != nil, rule, con, 0, "methods not found") {
				continue
			}
			encoder := fieldTerm(en, recv, recv.Typ, ofType("orc/encoding.Encoder"))
			opts := fieldTerm(en, recv, recv.Typ, ofType("orc/config.WriterOptions"))
			if !c.expect(encoder != nil && opts != nil, rule, con, 0, "encoder or options not found") {
				continue
			}
			kind, chunk := fieldTerm(en, opts, opts.Typ, named("CompressionKind")), fieldTerm(en, opts, opts.Typ, named("ChunkSize"))
			// the buffer written out
			var outBuf *engine.Term
			out := en.P.Mk("param", "out", wo.Params[1].Type())
			for _, p := range good(en, wo, c.run(en, rule, wo, []*engine.Term{recv, out}, as)) {
				for _, a := range flat(p) {
					if takes(a.e, out) {
						if a.e.Name == "WriteTo" && a.e.Recv != nil {
							outBuf = engine.StripIface(a.e.Recv)
						} else if len(a.e.Args) == 1 {
							if ev, ok := a.e.Args[0].Any.(*engine.Event); ok && ev.Name == "Bytes" {
								outBuf = engine.StripIface(ev.Recv)
							}
						}
					}
				}
			}
			if !c.expect(outBuf != nil, rule, con, wo.Pos(), "the buffer written out cannot be told") {
				continue
			}
			var buf *engine.Term
			packs := func(e *engine.Event) {
				c.expect(kind != nil && chunk != nil && stripConv(e.Args[0]) == kind && stripConv(e.Args[1]) == chunk, rule, con, e.Pos, "compressed with %s in chunks of %s instead of the options'", e.Args[0], e.Args[1])
			}

			// write
			v := en.P.Mk("param", "v", wr.Params[1].Type())
			for _, p := range good(en, wr, c.run(en, rule2, wr, []*engine.Term{recv, v}, as)) {
				n := 0
				for _, a := range flat(p) {
					if takes(a.e, encoder) && a.e.Name == "Encode" {
						n++
						if !c.expect(len(a.e.Args) == 2 && a.lp == nil && engine.StripIface(a.e.Args[0]) == v, rule2, con, a.e.Pos, "what is encoded is not the value handed in") {
							continue
						}
						b := engine.StripIface(a.e.Args[1])
						c.expect(buf == nil || buf == b, rule2, con, a.e.Pos, "encoded into different buffers")
						buf = b
					} else if takes(a.e, encoder) {
						c.expect(a.e.Name == "GetPosition", rule2, con, a.e.Pos, "%s is called on the encoder", a.e.Name)
					}
				}
				c.expect(n == 1, rule2, con, p.RetPos, "a value is encoded %d times [%s]", n, lits(p))
				if buf == nil {
					continue
				}
				for _, a := range flat(p) {
					c.touches(rule2, con, a.e, buf, outBuf, encoder, comp, packs)
				}
				for a := range p.Writes {
					c.expect(!replaced(en, p, a, buf) && !replaced(en, p, a, outBuf) && !replaced(en, p, a, encoder), rule2, con, p.RetPos, "%s is replaced", a)
				}
			}
			if !c.expect(buf != nil, rule2, con, wr.Pos(), "no value is encoded") {
				continue
			}
			c.expect(comp || buf == outBuf, rule, con, fl.Pos(), "values are encoded into %s, but %s is written out", buf, outBuf)
			c.expect(!comp || buf != outBuf, rule, con, fl.Pos(), "what is written out is not compressed")

			// flush
			for _, p := range good(en, fl, c.run(en, rule, fl, []*engine.Term{recv}, as)) {
				var flushed, drained *engine.Event
				for _, a := range flat(p) {
					e := a.e
					if takes(e, encoder) {
						if !c.expect(e.Name == "Flush" && flushed == nil && a.lp == nil && len(e.Args) == 1 && engine.StripIface(e.Args[0]) == buf, rule, con, e.Pos, "%s is called on the encoder", e.Name) {
							continue
						}
						c.expect(drained == nil, rule, con, e.Pos, "the encoder is flushed after compressing")
						flushed = e
						continue
					}
					c.touches(rule, con, e, buf, outBuf, encoder, comp, packs)
					if o := drains(e, buf); o != nil {
						c.expect(o == outBuf, rule, con, e.Pos, "compressed into %s, but %s is written out", o, outBuf)
						drained = e
					}
				}
				c.expect(flushed != nil, rule, con, p.RetPos, "the encoder is not flushed [%s]", lits(p))
				if comp && flushed != nil {
					c.expect(drained != nil || knownEmpty(en, p, buf, flushed), rule, con, p.RetPos, "what was encoded is not compressed [%s]", lits(p))
				}
				for a := range p.Writes {
					c.expect(!replaced(en, p, a, buf) && !replaced(en, p, a, outBuf) && !replaced(en, p, a, encoder), rule, con, p.RetPos, "%s is replaced", a)
				}
			}
		}
	}
	c.atLeast(rule, 2)
	c.atLeast(rule2, 2)
}

// replaced tells that a path stores something else into the cell x was read from.
func replaced(en *engine.Engine, p *engine.Path, a, x *engine.Term) bool {
	return loadAddr(x) == a && p.Writes[a] != x
}

// touches reports calls which change a buffer of a stream other than by encoding and compressing.
func (c *Check) touches(rule, con string, e *engine.Event, buf, out, encoder *engine.Term, comp bool, packs func(e *engine.Event)) {
	if !takes(e, buf) && !takes(e, out) || takes(e, encoder) {
		return
	}
	if looks(e, buf) || looks(e, out) {
		return
	}
	if strings.Contains(e.Callee, "orc/common.Compressing") && len(e.Args) == 4 {
		c.expect(comp, rule, con, e.Pos, "compressed without being asked to")
		packs(e)
		c.expect(engine.StripIface(e.Args[2]) == out && engine.StripIface(e.Args[3]) == buf, rule, con, e.Pos, "compressed from %s into %s", e.Args[3], e.Args[2])
		return
	}
	c.fail(rule, con, e.Pos, "%s changes the bytes of the stream", e.Name)
}

// encodersDrained: after a flush an encoder holds nothing back, and what it held went to the buffer.
func encodersDrained(c *Check) {
	rule := "a flushed encoder holds nothing back"
	w := c.W
	encs := w.implementers("orc/encoding", "Encoder")
	fresh := freshEncoders(c, rule)
	for _, nt := range encs {
		enc, fl := w.method(nt, "Encode"), w.method(nt, "Flush")
		con := nt.Obj().Name()
		if enc == nil || fl == nil {
			continue
		}
		en := w.newEngine()
		en.TrackStores = true
		appends := w.appending(encs)
		en.Opaque = func(f *ssa.Function) bool {
			return w.rel(pkgOf(f)) == "orc/encoding" && f.Parent() == nil && !appends[f] && f.Name() != "Encode" && f.Name() != "Flush"
		}
		recv := en.P.Mk("param", "e", enc.Params[0].Type())
		v, out := en.P.Mk("param", "v", enc.Params[1].Type()), en.P.Mk("param", "out", enc.Params[2].Type())
		// cells values are gathered in
		held := map[*engine.Term]types.Type{}
		stored := map[*engine.Term]int{} // paths changing a cell
		cases := w.encoderCases(nt, en.Opaque, fresh)
		var encPaths, flPaths []*engine.Path
		for _, known := range cases {
			encPaths = append(encPaths, good(en, enc, c.run(en, rule, enc, []*engine.Term{recv, v, out}, known(en, recv)))...)
			flPaths = append(flPaths, good(en, fl, c.run(en, rule, fl, []*engine.Term{recv, out}, known(en, recv)))...)
		}
		for _, p := range encPaths {
			for a, x := range p.Writes {
				stored[a]++
				if base(a) != recv {
					continue
				}
				old := en.P.Mk("load", "0", x.Typ, a)
				if x != old && gathers(x, old, 0) {
					held[a] = x.Typ
				}
			}
		}
		c.ob(rule, con)
		if len(held) == 0 {
			continue
		}
		for _, p := range flPaths {
			empty := false
			for a, t := range held {
				old := en.P.Mk("load", "0", t, a)
				c.expect(isFresh(en, p, en.Load(p.St, a, t), fresh[fieldName(old)+"@"+ownerOf(a)]), rule, con, p.RetPos, "%s is %s after a flush [%s]", fieldName(old), en.Load(p.St, a, t), lits(p))
				// what every value changes tells whether there is any
				empty = empty || stored[a] == len(encPaths) && isFresh(en, p, old, fresh[fieldName(old)+"@"+ownerOf(a)])
			}
			if empty {
				continue
			}
			used := false
			for a, t := range held {
				if a.Args[0] != recv {
					continue // another encoder's
				}
				old := en.P.Mk("load", "0", t, a)
				deepPaths(p, func(q *engine.Path, lp *engine.Loop, k int) {
					for _, e := range q.Events {
						if e.Kind == "call" && takes(e, out) {
							for _, x := range e.Args {
								used = used || x.Contains(old)
							}
							used = used || len(e.Args) > 0 && e.Args[0] == recv || e.Recv == recv
						}
						if e.Kind == "loop" {
							for _, ph := range e.Loop.Phis {
								used = used || ph.Init.Contains(old)
							}
						}
					}
				})
			}
			c.expect(used, rule, con, p.RetPos, "values held back are not written [%s]", lits(p))
		}
	}
	c.atLeast(rule, 5)
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg == nil {
		return nil
	}
	return f.Pkg.Pkg
}

// gathers tells that a value is made from the old one.
func gathers(x, old *engine.Term, depth int) bool {
	if depth > 8 {
		return false
	}
	if x.Contains(old) {
		return true
	}
	if l, ok := x.Any.(*engine.Loop); ok && x.Op == "iter" {
		if ph := phiOf(l, x); ph != nil {
			return gathers(ph.Init, old, depth+1)
		}
	}
	return false
}

func ownerOf(a *engine.Term) string {
	if a.Op != "field" || a.Args[0].Typ == nil {
		return ""
	}
	t := a.Args[0].Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil)
}

// freshEncoders lists what the constructors of encoders leave in their fields.
func freshEncoders(c *Check, rule string) map[string][]*engine.Term {
	r := map[string][]*engine.Term{}
	w := c.W
	it := w.Pkgs["orc/encoding"].Type("Encoder").Type()
	for _, m := range sortedMembers(w.Pkgs["orc/encoding"]) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), it) {
			continue
		}
		en := w.newEngine()
		for _, p := range c.run(en, rule, fn, nil, nil).Paths {
			if p.Panic || len(p.Ret) != 1 {
				continue
			}
			x := engine.StripIface(p.Ret[0])
			allFields(x.Typ, func(path []int, v *types.Var) {
				a, ft := addrIn(en, p, x, x.Typ, path)
				k := v.Name() + "@" + ownerOf(a)
				y := en.Load(p.St, a, ft)
				if _, isSlice := ft.Underlying().(*types.Slice); isSlice {
					y = en.Len(y)
				}
				r[k] = append(r[k], y)
			})
		}
	}
	return r
}

// isFresh tells that a value is what a constructor would leave: an equal number, or an empty slice.
func isFresh(en *engine.Engine, p *engine.Path, x *engine.Term, fresh []*engine.Term) bool {
	if _, isSlice := x.Typ.Underlying().(*types.Slice); isSlice {
		n, ok := eqConst(en, p, en.Len(x))
		return ok && n == 0 || x.Op == "nil" || knownZero(en, p, en.Len(x))
	}
	n, ok := eqConst(en, p, x)
	if !ok {
		return false
	}
	for _, f := range fresh {
		if m, ok := f.IntVal(); ok && m == n {
			return true
		}
	}
	return len(fresh) == 0 && n == 0
}

// appending are the functions which may change the slices encoders hold values in.
func (w *World) appending(encs []*types.Named) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	isEnc := map[string]bool{}
	for _, t := range encs {
		isEnc[types.TypeString(t, nil)] = true
	}
	for {
		n := len(r)
		for _, fn := range w.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						fa, ok := in.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						pt, ok := fa.X.Type().Underlying().(*types.Pointer)
						_, isSlice := in.Val.Type().Underlying().(*types.Slice)
						if ok && isSlice && isEnc[types.TypeString(pt.Elem(), nil)] {
							r[fn] = true
						}
					case ssa.CallInstruction:
						if f := in.Common().StaticCallee(); f != nil && r[f] {
							r[fn] = true
						}
					}
				}
			}
		}
		if len(r) == n {
			return r
		}
	}
}

// columnSlice is the slice of column writers of a stripe writer.
func columnSlice(en *engine.Engine, recv *engine.Term) *engine.Term {
	return fieldTerm(en, recv, recv.Typ, func(v *types.Var) bool {
		sl, ok := v.Type().(*types.Slice)
		return ok && typeIs(sl.Elem(), "orc/column.Writer")
	})
}

// stripeFlushed: all columns are flushed before anything of the stripe is taken from them.
func stripeFlushed(c *Check) {
	rule := "all columns are flushed before the stripe is written"
	fn := c.W.fn("orc", "stripeWriter.flushOut")
	if !c.expect(fn != nil, rule, "flushOut", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	cws := columnSlice(en, recv)
	if !c.expect(cws != nil, rule, "flushOut", fn.Pos(), "column writers not found") {
		return
	}
	isCol := func(e *engine.Event) bool {
		return e.Kind == "call" && e.Recv != nil && typeIs(e.Recv.Typ, "orc/column.Writer")
	}
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		all := 0
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				c.expect(!isCol(ev), rule, "flushOut", ev.Pos, "%s is called outside of a loop over the columns", ev.Name)
				continue
			}
			lp := ev.Loop
			idx := fullLoop(en, lp, p, en.Len(cws))
			flushes := false
			for _, it := range lp.Iters {
				here := 0
				for _, a := range flat(it) {
					if !isCol(a.e) {
						continue
					}
					c.ob(rule, a.e.Name)
					own := idx != nil && isElem(engine.StripIface(a.e.Recv), cws, idx)
					c.expect(own && a.lp == nil, rule, a.e.Name, a.e.Pos, "%s is not called for each column in turn", a.e.Name)
					switch a.e.Name {
					case "Flush":
						here++
						flushes = true
					case "WriteOut", "GetStreamInfos", "GetIndex":
						c.expect(all == 1 || here == 1 && all == 0, rule, a.e.Name, a.e.Pos, "%s is called before the column was flushed", a.e.Name)
					case "GetStats", "Size":
					default:
						c.fail(rule, a.e.Name, a.e.Pos, "%s is called while the stripe is written", a.e.Name)
					}
				}
				if here > 0 {
					c.expect(here == 1, rule, "Flush", lp.Pos, "a column is flushed %d times", here)
				}
			}
			if flushes {
				for _, it := range lp.Iters {
					c.expect(len(calls(it.Events, func(e *engine.Event) bool { return isCol(e) && e.Name == "Flush" })) == 1, rule, "Flush", lp.Pos, "a column is not flushed [%s]", lits(it))
				}
				all++
			}
		}
		c.expect(all == 1, rule, "Flush", p.RetPos, "columns are flushed %d times [%s]", all, lits(p))
	}
	c.expect(n > 0, rule, "flushOut", fn.Pos(), "no successful path")
	c.atLeast(rule, 3)
}

// lastStripe: closing the file flushes the rows of the last stripe, and only if there are any.
func lastStripe(c *Check) {
	rule := "closing flushes the last stripe"
	fn := c.W.fn("orc", "writer.Close")
	fl := c.W.fn("orc", "stripeWriter.flushOut")
	if !c.expect(fn != nil && fl != nil, rule, "Close", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	old := en.Opaque
	tail := c.W.fn("orc", "writer.writeFileTail")
	en.Opaque = func(f *ssa.Function) bool { return f == fl || f == tail || old != nil && old(f) }
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	sw := fieldTerm(en, recv, recv.Typ, ofType("orc.stripeWriter"))
	if !c.expect(sw != nil, rule, "Close", fn.Pos(), "stripe writer not found") {
		return
	}
	info := fieldTerm(en, sw, sw.Typ, ofType("pb/pb.StripeInformation"))
	isInfos := func(v *types.Var) bool {
		sl, ok := v.Type().(*types.Slice)
		return ok && typeIs(sl.Elem(), "pb/pb.StripeInformation")
	}
	infosPath := fieldIndex(sw.Typ, isInfos)
	if !c.expect(info != nil && infosPath != nil, rule, "Close", fn.Pos(), "stripe records not found") {
		return
	}
	rows := derefInit(en, info, info.Typ, "NumberOfRows")
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		var flush, end []*engine.Event
		for _, a := range flat(p) {
			if calledIs(a.e, fl) {
				c.expect(a.lp == nil && takes(a.e, sw), rule, "Close", a.e.Pos, "another stripe is flushed")
				c.expect(len(end) == 0, rule, "Close", a.e.Pos, "flushed after the tail of the file was written")
				flush = append(flush, a.e)
			}
			if calledIs(a.e, tail) {
				end = append(end, a.e)
			}
		}
		any, known := en.Decide(p.St, en.Eq(rows, en.P.Int(0)))
		switch {
		case known && any:
			c.expect(len(flush) == 0, rule, "Close", p.RetPos, "a stripe without rows is written")
		default:
			c.expect(len(flush) == 1, rule, "Close", p.RetPos, "the last stripe is flushed %d times [%s]", len(flush), lits(p))
		}
		// its record
		a, ft := addrIn(en, p, sw, sw.Typ, infosPath)
		ps, ok := pieces(en, en.Load(p.St, a, ft))
		was := en.P.Mk("load", "0", ft, a)
		switch {
		case known && any:
			c.expect(ok && len(ps) == 1 && ps[0].spread == was, rule, "record", p.RetPos, "a stripe without rows is listed")
		default:
			c.expect(ok && len(ps) == 2 && ps[0].spread == was && ps[1].elem == info, rule, "record", p.RetPos, "the last stripe is not listed behind the others [%s]", lits(p))
		}
	}
	c.expect(n > 0, rule, "Close", fn.Pos(), "no successful path")
	c.atLeast(rule, 1)
}
