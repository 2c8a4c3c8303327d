package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C05"] = property{"byte ledger dataflow over go/ssa path summaries: order and sum of stream writes against the list of streams of each column, recorded lengths as sums of write results, offsets as linear forms over the recorded lengths on the writing and the reading side", rulesC05}
}

func rulesC05(c *Check) {
	ws := c.writers("streams are written in the order listed")
	for _, col := range ws {
		for _, nulls := range []bool{false, true} {
			writtenAsListed(c, col, nulls)
		}
		listedUnder(c, col)
	}
	c.atLeast("streams are written in the order listed", 20)
	streamLengths(c)
	stripeLedger(c)
	nextStripe(c)
	firstStripe(c)
	stripeRead(c)
	streamsLocated(c)
	streamStarts(c)
}

// live are the streams of a writer present in a configuration.
func (col *column) live(nulls bool) []*colStream {
	var r []*colStream
	for _, s := range col.streams {
		if s.kind == "PRESENT" && !nulls {
			continue
		}
		r = append(r, s)
	}
	return r
}

// streamOf is the stream of the column a term holds.
func (col *column) streamOf(t *engine.Term) *colStream {
	if t == nil {
		return nil
	}
	t = engine.StripIface(t)
	for _, s := range col.streams {
		if s.term == t {
			return s
		}
	}
	return nil
}

func writtenAsListed(c *Check, col *column, nulls bool) {
	rule := "streams are written in the order listed"
	con := col.name + cfgName(nulls)
	en := col.en
	live := col.live(nulls)
	gi, gs := c.runMethod(col, rule, "GetStreamInfos", col.withNulls(nulls))
	wo, w := c.runMethod(col, rule, "WriteOut", col.withNulls(nulls))
	if gi == nil || wo == nil {
		return
	}
	orders := map[string]bool{}
	for _, p := range gs.Paths {
		if p.Panic {
			continue
		}
		var o []string
		el, ok := en.SliceElems(p.St, p.Ret[0])
		if p.Ret[0].Op == "nil" {
			el, ok = nil, true
		}
		if !c.expect(ok, rule, con, gi.Pos(), "the streams listed cannot be told: %s", p.Ret[0]) {
			return
		}
		for _, x := range el {
			var s *colStream
			if ev, ok := x.Any.(*engine.Event); ok && x.Op == "res" && ev.Name == "Info" {
				s = col.streamOf(ev.Recv)
			}
			if !c.expect(s != nil, rule, con, gi.Pos(), "%s is listed, which is not the information of a stream of the column", x) {
				return
			}
			o = append(o, s.name)
		}
		orders[strings.Join(o, ",")] = true
		for _, s := range live {
			n := 0
			for _, x := range o {
				if x == s.name {
					n++
				}
			}
			c.expect(n == 1, rule, con, gi.Pos(), "stream %s is listed %d times", s.name, n)
		}
		c.expect(len(o) == len(live), rule, con, gi.Pos(), "%d streams are listed, the column has %d", len(o), len(live))
	}
	c.expect(len(orders) == 1, rule, con, gi.Pos(), "streams are listed in different orders: %v", sortedKeys(orders))
	out := engine.StripIface(w.Params[1])
	for _, p := range good(en, wo, w) {
		var o []string
		var evs []*engine.Event
		for _, a := range flat(p) {
			s := (*colStream)(nil)
			if a.e.Kind == "call" {
				s = col.streamOf(a.e.Recv)
			}
			if s == nil || a.e.Name != "WriteOut" {
				if takes(a.e, out) {
					c.fail(rule, con, a.e.Pos, "bytes which are no stream's are written by %s", a.e.Name)
				}
				if s != nil && (a.e.Name == "Write" || a.e.Name == "Flush" || a.e.Name == "Reset") {
					c.fail(rule, con, a.e.Pos, "stream %s is changed while it is written out", s.name)
				}
				continue
			}
			c.expect(a.lp == nil, rule, con, a.e.Pos, "stream %s is written in a loop", s.name)
			c.expect(takes(a.e, out), rule, con, a.e.Pos, "stream %s is not written to the file handed in", s.name)
			o = append(o, s.name)
			evs = append(evs, a.e)
		}
		c.expect(orders[strings.Join(o, ",")], rule, con, p.RetPos, "written in order %v, listed as %v [%s]", o, sortedKeys(orders), lits(p))
		// the number of bytes
		ad, ok := addends(en, p.Ret[0])
		for _, e := range evs {
			n := 0
			for _, x := range ad {
				if len(e.Res) > 0 && x.t == stripConv(e.Res[0]) {
					n++
				}
			}
			ok = ok && n == 1
		}
		c.expect(ok && len(ad) == len(evs), rule, con, p.RetPos, "the number of bytes returned is not the sum of the streams' [%s]", lits(p))
	}
}

// listedUnder checks that streams carry the id of their column.
func listedUnder(c *Check, col *column) {
	rule := "streams are listed under their column"
	for _, s := range col.streams {
		if s.ctor == "" {
			continue
		}
		x := stripConv(s.ctorArgs[0])
		ok := x.Op == "load" && fieldName(x) == "Id" && x.Args[0].Args[0].Op == "param"
		c.expect(ok, rule, col.name+"."+s.name, 0, "created with id %s, not the id of the column's schema", x)
	}
	c.atLeast(rule, 15)
}

// streamEngine keeps encoders and compression as effects.
func (w *World) streamEngine() *engine.Engine {
	en := w.newEngine()
	en.TrackStores = true
	en.Opaque = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Parent() != nil {
			return false
		}
		switch w.rel(f.Pkg.Pkg) {
		case "orc/common", "orc/encoding", "orc/io":
			return true
		}
		return false
	}
	return en
}

const streamPkg = "orc/stream"

// withCompression assumes the options of an object to ask for compression or not.
func withCompression(en *engine.Engine, recv *engine.Term, t types.Type, comp bool) func(s *engine.State) {
	return func(s *engine.State) {
		for _, o := range []string{"orc/config.WriterOptions", "orc/config.ReaderOptions"} {
			if x := fieldTerm(en, recv, t, ofType(o)); x != nil {
				if k := fieldTerm(en, x, x.Typ, named("CompressionKind")); k != nil {
					if comp {
						en.Assume(s, en.Eq(k, en.P.Int(1)), true, 0)
					} else {
						en.Assume(s, en.Eq(k, en.P.Int(0)), true, 0)
					}
				}
			}
		}
	}
}

func compName(comp bool) string {
	if comp {
		return " compressed"
	}
	return " uncompressed"
}

// streamLengths: the length a stream lists after a flush is that of the buffer it writes out.
func streamLengths(c *Check) {
	rule := "a stream lists the length of what it writes"
	for _, t := range c.W.implementers(streamPkg, "Writer") {
		for _, comp := range []bool{false, true} {
			con := t.Obj().Name() + compName(comp)
			en := c.W.streamEngine()
			recv := en.P.Mk("param", "w", types.NewPointer(t))
			as := withCompression(en, recv, recv.Typ, comp)
			wo, fl, inf := c.W.method(t, "WriteOut"), c.W.method(t, "Flush"), c.W.method(t, "Info")
			if !c.expect(wo != nil && fl != nil && inf != nil, rule, con, 0, "methods not found") {
				continue
			}
			out := en.P.Mk("param", "out", wo.Params[1].Type())
			var buf *engine.Term
			for _, p := range good(en, wo, c.run(en, rule, wo, []*engine.Term{recv, out}, as)) {
				n := 0
				for _, a := range flat(p) {
					if !takes(a.e, out) {
						continue
					}
					n++
					var b *engine.Term
					switch {
					case a.e.Name == "WriteTo" && a.e.Recv != nil:
						b = a.e.Recv
					case a.e.Name == "Write" && len(a.e.Args) == 1:
						if ev, ok := a.e.Args[0].Any.(*engine.Event); ok && ev.Name == "Bytes" {
							b = ev.Recv
						}
					}
					if !c.expect(b != nil && a.lp == nil, rule, con, a.e.Pos, "what %s writes cannot be told", a.e.Name) {
						continue
					}
					c.expect(buf == nil || buf == b, rule, con, a.e.Pos, "different buffers are written")
					buf = b
					c.expect(isCount(en, p.St, p.Ret[0], a.e), rule, con, p.RetPos, "the number returned is not the number of bytes written [%s]", lits(p))
				}
				c.expect(n == 1, rule, con, p.RetPos, "%d writes to the file [%s]", n, lits(p))
			}
			if !c.expect(buf != nil, rule, con, wo.Pos(), "nothing is written") {
				continue
			}
			for _, p := range good(en, fl, c.run(en, rule, fl, []*engine.Term{recv}, as)) {
				// what Info hands out afterwards
				info := infoOf(c, en, rule, recv, inf)
				if !c.expect(info != nil, rule, con, inf.Pos(), "the information handed out cannot be told") {
					break
				}
				l := stripConv(deref(en, p, info, info.Typ, "Length"))
				var lenEv *engine.Event
				if ev, ok := l.Any.(*engine.Event); ok && l.Op == "res" && ev.Name == "Len" && ev.Recv == buf {
					lenEv = ev
				} else if l.Op == "len" {
					if ev, ok := l.Args[0].Any.(*engine.Event); ok && ev.Name == "Bytes" && ev.Recv == buf {
						lenEv = ev
					}
				}
				if !c.expect(lenEv != nil, rule, con, p.RetPos, "after a flush the length listed is %s, not that of the buffer %s written out [%s]", l, buf, lits(p)) {
					continue
				}
				after := false
				for _, a := range flat(p) {
					if a.e == lenEv {
						after = true
						continue
					}
					if after && takes(a.e, buf) && !(a.e.Recv == buf && (a.e.Name == "Len" || a.e.Name == "Bytes" || a.e.Name == "Cap")) {
						c.fail(rule, con, a.e.Pos, "%s changes the buffer after its length was taken", a.e.Name)
					}
				}
			}
		}
	}
	c.atLeast(rule, 2)

	// constructors
	rule = "streams are listed under their column"
	p := c.W.Pkgs[streamPkg]
	n := 0
	for _, m := range sortedMembers(p) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || !typeIs(fn.Signature.Results().At(0).Type(), "orc/stream.Writer") || len(fn.Params) < 2 {
			continue
		}
		n++
		en := c.W.streamEngine()
		s := c.run(en, rule, fn, nil, nil)
		for _, q := range s.Paths {
			if q.Panic {
				continue
			}
			x := q.Ret[0]
			if !c.expect(x.Op == "iface", rule, fn.Name(), fn.Pos(), "what is created cannot be told") {
				continue
			}
			x = x.Args[0]
			path := fieldIndex(x.Typ, ofType("pb/pb.Stream"))
			if !c.expect(path != nil, rule, fn.Name(), fn.Pos(), "no stream information found") {
				continue
			}
			a, ft := addrIn(en, q, x, x.Typ, path)
			info := en.Load(q.St, a, ft)
			col, kind, l := deref(en, q, info, ft, "Column"), deref(en, q, info, ft, "Kind"), deref(en, q, info, ft, "Length")
			c.expect(col == s.Params[0], rule, fn.Name(), fn.Pos(), "listed under column %s instead of the id handed in", col)
			c.expect(kind == s.Params[1], rule, fn.Name(), fn.Pos(), "listed as kind %s instead of the kind handed in", kind)
			c.expect(zeroTerm(l), rule, fn.Name(), fn.Pos(), "starts with length %s", l)
		}
	}
	c.expect(n > 0, rule, "constructors", 0, "no constructors of streams found")
}

// infoOf is what Info of a stream returns, as a term over its receiver.
func infoOf(c *Check, en *engine.Engine, rule string, recv *engine.Term, fn *ssa.Function) *engine.Term {
	a := recv
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
		return nil
	}
	var r *engine.Term
	for _, p := range c.run(en, rule, fn, []*engine.Term{a}, nil).Paths {
		if p.Panic || len(p.Ret) != 1 || r != nil && r != p.Ret[0] {
			return nil
		}
		r = p.Ret[0]
	}
	return r
}

// stripeLedger accounts for the bytes written by a flush of a stripe.
func stripeLedger(c *Check) {
	rule := "recorded lengths are the bytes written"
	fn := c.W.fn("orc", "stripeWriter.flushOut")
	if !c.expect(fn != nil, rule, "flushOut", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	en.TrackStores = true
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	out := fieldTerm(en, recv, recv.Typ, ofTypeIface("io.Writer"))
	info := fieldTerm(en, recv, recv.Typ, ofType("pb/pb.StripeInformation"))
	cws := fieldTerm(en, recv, recv.Typ, func(v *types.Var) bool {
		sl, ok := v.Type().(*types.Slice)
		return ok && typeIs(sl.Elem(), "orc/column.Writer")
	})
	schemas := fieldTerm(en, recv, recv.Typ, func(v *types.Var) bool {
		sl, ok := v.Type().(*types.Slice)
		return ok && typeIs(sl.Elem(), "orc/api.TypeDescription")
	})
	if !c.expect(out != nil && info != nil && cws != nil && schemas != nil, rule, "flushOut", fn.Pos(), "fields of the stripe writer not found") {
		return
	}
	phases := []string{"IndexLength", "DataLength", "FooterLength"}
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		var ws []at
		for _, a := range flat(p) {
			if takes(a.e, out) {
				ws = append(ws, a)
			}
		}
		phase := make([]int, len(ws))
		for i := range phase {
			phase[i] = -1
		}
		for ph, f := range phases {
			old := derefInit(en, info, info.Typ, f)
			ad, ok := addends(en, deref(en, p, info, info.Typ, f))
			if !c.expect(ok, rule, f, fn.Pos(), "%s is recorded as %s, which is no sum of bytes written [%s]", f, deref(en, p, info, info.Typ, f), lits(p)) {
				continue
			}
			for _, x := range ad {
				if x.t == old && x.lp == nil {
					continue
				}
				hit := false
				for i, w := range ws {
					if w.it == x.it && isCount(en, p.St, x.t, w.e) {
						c.expect(phase[i] < 0, rule, f, w.e.Pos, "bytes written by %s are recorded twice", w.e.Name)
						phase[i] = ph
						hit = true
					}
				}
				c.expect(hit, rule, f, fn.Pos(), "%s contains %s, which is not the size of something written [%s]", f, x.t, lits(p))
			}
		}
		last := 0
		for i, w := range ws {
			if !c.expect(phase[i] >= 0, rule, "flushOut", w.e.Pos, "bytes written by %s are recorded in no length [%s]", w.e.Name, lits(p)) {
				continue
			}
			c.ob(rule, phases[phase[i]])
			c.expect(phase[i] >= last, rule, phases[phase[i]], w.e.Pos, "written after the part following it")
			last = phase[i]
		}

		// data: every column once, in the order of the directory
		rule2 := "columns are written in the order of the directory"
		var full []*engine.Loop
		for _, lp := range loops(p.Events) {
			if idx := fullLoop(en, lp, p, en.Len(cws)); idx != nil {
				for _, it := range lp.Iters {
					k := 0
					for _, e := range calls(it.Events, func(e *engine.Event) bool { return e.Name == "WriteOut" && takes(e, out) }) {
						k++
						c.expect(e.Recv != nil && isElem(engine.StripIface(e.Recv), cws, idx), rule2, "WriteOut", e.Pos, "%s is written in place of the next column", e.Recv)
					}
					if k > 0 {
						full = append(full, lp)
						c.expect(k == 1, rule2, "WriteOut", lp.Pos, "a column is written %d times", k)
					}
				}
				for _, it := range lp.Iters {
					if len(full) > 0 && full[len(full)-1] == lp {
						c.expect(len(calls(it.Events, func(e *engine.Event) bool { return e.Name == "WriteOut" })) == 1, rule2, "WriteOut", lp.Pos, "a column is not written [%s]", lits(it))
					}
				}
			}
		}
		c.expect(len(uniqLoops(full)) == 1, rule2, "WriteOut", fn.Pos(), "%d loops write all columns", len(uniqLoops(full)))
		for _, w := range ws {
			if w.e.Name == "WriteOut" {
				ok := false
				for _, lp := range full {
					ok = ok || lp == w.lp
				}
				c.expect(ok, rule2, "WriteOut", w.e.Pos, "columns are not all written in order")
			}
		}

		// footer
		if len(ws) == 0 {
			continue
		}
		fw := ws[len(ws)-1]
		ct, ok := written(en, p, fw.e)
		if !c.expect(ok && fw.lp == nil && len(ct) == 1, rule2, "footer", fw.e.Pos, "what is written as footer cannot be told [%s]", lits(p)) {
			continue
		}
		me, ok := ct[0].bytes.Any.(*engine.Event)
		if !c.expect(ok && me.Name == "Marshal" && len(me.Args) == 1 && typeIs(engine.StripIface(me.Args[0]).Typ, "pb/pb.StripeFooter"), rule2, "footer", fw.e.Pos, "what is written last is not the marshalled stripe footer") {
			continue
		}
		ftr := engine.StripIface(me.Args[0])
		ps, ok := pieces(en, deref(en, p, ftr, ftr.Typ, "Streams"))
		infosOK := ok && len(ps) == 1 && ps[0].lp != nil
		if infosOK {
			lp := ps[0].lp
			idx := fullLoop(en, lp, p, en.Len(cws))
			infosOK = idx != nil
			for _, it := range ps[0].iters {
				infosOK = infosOK && idx != nil && len(it) == 1 && spreadOf(en, p, it[0], func(x *engine.Term) bool {
					ev, ok := x.Any.(*engine.Event)
					return ok && x.Op == "res" && ev.Name == "GetStreamInfos" && ev.Recv != nil && isElem(engine.StripIface(ev.Recv), cws, idx)
				})
			}
		}
		c.expect(infosOK, rule2, "footer", me.Pos, "the streams listed are not those of each column in order [%s]", lits(p))

		rule3 := "the footer records the encoding of each column"
		ps, ok = pieces(en, deref(en, p, ftr, ftr.Typ, "Columns"))
		encOK := ok && len(ps) == 1 && ps[0].lp != nil
		if encOK {
			lp := ps[0].lp
			idx := fullLoop(en, lp, p, en.Len(schemas))
			encOK = idx != nil
			for k, it := range ps[0].iters {
				encOK = encOK && idx != nil && len(it) == 1 && it[0].elem != nil
				if encOK {
					e := it[0].elem
					kind := stripConv(deref(en, lp.Iters[k], e, e.Typ, "Kind"))
					a := loadAddr(kind)
					encOK = kind.Op == "load" && a != nil && a.Op == "field" && a.Aux == "Encoding" && isElem(a.Args[0], schemas, idx)
				}
			}
		}
		c.expect(encOK, rule3, "footer", me.Pos, "the encodings listed are not those of each schema in order [%s]", lits(p))
	}
	c.expect(n > 0, rule, "flushOut", fn.Pos(), "no successful path")
	c.atLeast(rule, 3)
}

func uniqLoops(l []*engine.Loop) map[*engine.Loop]bool {
	r := map[*engine.Loop]bool{}
	for _, x := range l {
		r[x] = true
	}
	return r
}

// spreadOf tells that a piece is all of a slice satisfying f.
func spreadOf(en *engine.Engine, exit *engine.Path, x piece, f func(t *engine.Term) bool) bool {
	if x.spread != nil {
		return f(x.spread)
	}
	if x.lp == nil || len(x.iters) == 0 {
		return false
	}
	// element by element
	for _, it := range x.iters {
		if len(it) != 1 || it[0].elem == nil {
			return false
		}
		a := loadAddr(it[0].elem)
		if a == nil || a.Op != "elem" || !f(a.Args[0]) {
			return false
		}
		if idx := fullLoop(en, x.lp, exit, en.Len(a.Args[0])); idx == nil || a.Args[1] != idx {
			return false
		}
	}
	return true
}

// ofTypeIface finds a field by the qualified name of a type of another module.
func ofTypeIface(n string) func(v *types.Var) bool {
	return func(v *types.Var) bool { return v.Type().String() == n }
}

// nextStripe: the record of the next stripe begins where the last one ended.
func nextStripe(c *Check) {
	rule := "the next stripe is recorded behind the previous one"
	fn := c.W.fn("orc", "stripeWriter.forward")
	if !c.expect(fn != nil, rule, "forward", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	path := fieldIndex(recv.Typ, ofType("pb/pb.StripeInformation"))
	info := fieldTerm(en, recv, recv.Typ, ofType("pb/pb.StripeInformation"))
	infosPath := fieldIndex(recv.Typ, func(v *types.Var) bool {
		sl, ok := v.Type().(*types.Slice)
		return ok && typeIs(sl.Elem(), "pb/pb.StripeInformation")
	})
	if !c.expect(path != nil && infosPath != nil, rule, "forward", fn.Pos(), "fields not found") {
		return
	}
	sum := en.P.Int(0)
	for _, f := range []string{"Offset", "IndexLength", "DataLength", "FooterLength"} {
		sum = en.P.Add(sum, derefInit(en, info, info.Typ, f), 1, types.Typ[types.Uint64])
	}
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		a, ft := addrIn(en, p, recv, recv.Typ, path)
		next := en.Load(p.St, a, ft)
		c.expect(next.Op == "alloc", rule, "record", fn.Pos(), "the next stripe has no record of its own")
		off := deref(en, p, next, ft, "Offset")
		c.expect(stripConv(off) == sum, rule, "offset", fn.Pos(), "the next stripe begins at %s instead of %s", off, sum)
		for _, f := range []string{"IndexLength", "DataLength", "FooterLength", "NumberOfRows"} {
			v := deref(en, p, next, ft, f)
			c.expect(v != nil && zeroTerm(v), rule, f, fn.Pos(), "the record of the next stripe starts with %s %s", f, v)
		}
		a, ft = addrIn(en, p, recv, recv.Typ, infosPath)
		is := en.Load(p.St, a, ft)
		old := en.P.Mk("load", "0", ft, a)
		ps, ok := pieces(en, is)
		c.expect(ok && len(ps) == 2 && ps[0].spread == old && ps[1].elem == info, rule, "records", fn.Pos(), "the record of the stripe written is not kept behind the previous ones: %s", is)
	}
}

// firstStripe: the first stripe begins behind the header.
func firstStripe(c *Check) {
	rule := "the first stripe is recorded behind the header"
	fn := c.W.fn("orc", "newWriter")
	if !c.expect(fn != nil, rule, "newWriter", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	var file *engine.Term
	for _, p := range s.Params {
		if c.W.isFile(p.Typ) {
			file = p
		}
	}
	if !c.expect(file != nil, rule, "newWriter", fn.Pos(), "file not found") {
		return
	}
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		w := p.Ret[0]
		path := fieldIndex(w.Typ, ofType("orc.stripeWriter"))
		if !c.expect(path != nil, rule, "newWriter", fn.Pos(), "stripe writer not found") {
			return
		}
		a, ft := addrIn(en, p, w, w.Typ, path)
		sw := en.Load(p.St, a, ft)
		ia, it := addrIn(en, p, sw, ft, fieldIndex(ft, ofType("pb/pb.StripeInformation")))
		info := en.Load(p.St, ia, it)
		off := deref(en, p, info, it, "Offset")
		var ws []*engine.Event
		for _, x := range flat(p) {
			if takes(x.e, file) && x.e.Name == "Write" {
				c.expect(x.lp == nil, rule, "offset", x.e.Pos, "written in a loop")
				ws = append(ws, x.e)
			}
		}
		ad, ok := addends(en, off)
		if ok && len(ws) == 1 && (len(ad) == 1 && isCount(en, p.St, ad[0].t, ws[0])) {
		} else {
			// constant sizes
			sum := en.P.Int(0)
			for _, e := range ws {
				sum = en.P.Add(sum, en.Len(e.Args[0]), 1, types.Typ[types.Int])
			}
			ok = stripConv(sum) == stripConv(off)
			sv, k1 := sum.IntVal()
			ov, k2 := stripConv(off).IntVal()
			ok = ok || k1 && k2 && sv == ov
		}
		c.expect(ok, rule, "offset", fn.Pos(), "the first stripe is recorded at %s, not behind the bytes written before [%s]", off, lits(p))
		for _, f := range []string{"IndexLength", "DataLength", "FooterLength", "NumberOfRows"} {
			v := deref(en, p, info, it, f)
			c.expect(v != nil && zeroTerm(v), rule, f, fn.Pos(), "the record of the first stripe starts with %s %s", f, v)
		}
		// one writer per schema, in order
		ca, ct := addrIn(en, p, sw, ft, fieldIndex(ft, func(v *types.Var) bool {
			sl, ok := v.Type().(*types.Slice)
			return ok && typeIs(sl.Elem(), "orc/column.Writer")
		}))
		ps, ok := pieces(en, en.Load(p.St, ca, ct))
		ok = ok && len(ps) == 1 && ps[0].lp != nil
		if ok {
			for _, it := range ps[0].iters {
				ok = ok && len(it) == 1 && it[0].elem != nil
				if ok {
					ev, isEv := it[0].elem.Any.(*engine.Event)
					ok = isEv && ev.Name == "NewWriter" && loadAddr(ev.Args[0]) != nil && loadAddr(ev.Args[0]).Op == "elem"
					if ok {
						arr := loadAddr(ev.Args[0]).Args[0]
						idx := fullLoop(en, ps[0].lp, p, en.Len(arr))
						ok = idx != nil && idx == loadAddr(ev.Args[0]).Args[1]
					}
				}
			}
		}
		c.expect(ok, rule, "columns", fn.Pos(), "there is not one column writer for each schema in order [%s]", lits(p))
	}
	c.expect(n > 0, rule, "newWriter", fn.Pos(), "no successful path")
}

// stripeRead: the reader finds footer, index and streams by the recorded lengths.
func stripeRead(c *Check) {
	rule := "streams are located by the recorded lengths"
	fn := c.W.fn("orc", "newStripeReader")
	if !c.expect(fn != nil, rule, "newStripeReader", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	var info, file *engine.Term
	for _, p := range s.Params {
		if typeIs(p.Typ, "pb/pb.StripeInformation") {
			info = p
		}
		if c.W.isFile(p.Typ) {
			file = p
		}
	}
	if !c.expect(info != nil && file != nil, rule, "newStripeReader", fn.Pos(), "parameters not found") {
		return
	}
	f := func(n string) *engine.Term { return derefInit(en, info, info.Typ, n) }
	add := func(a, b *engine.Term) *engine.Term { return en.P.Add(a, b, 1, types.Typ[types.Uint64]) }
	dataStart := add(f("Offset"), f("IndexLength"))
	footerAt := add(dataStart, f("DataLength"))
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		// footer
		var seek, read *engine.Event
		for _, e := range calls(p.Events, nil) {
			if e.Recv != nil && engine.StripIface(e.Recv) == file && e.Name == "Seek" {
				if seek == nil {
					seek = e
				}
			} else if takes(e, file) && read == nil && (e.Name == "ReadFull" || e.Name == "ReadAtLeast" || e.Name == "CopyN") {
				read = e
				c.expect(seek != nil, rule, "footer", e.Pos, "the footer is read without seeking")
			}
		}
		if c.expect(seek != nil && read != nil, rule, "footer", fn.Pos(), "reading of the footer not found") {
			w, k := seek.Args[1].IntVal()
			c.expect(stripConv(seek.Args[0]) == footerAt && k && w == 0, rule, "footer", seek.Pos, "the footer is looked for at %s instead of %s", seek.Args[0], footerAt)
			ok := false
			if read.Name == "ReadFull" {
				ok = stripConv(en.Len(read.Args[1])) == f("FooterLength")
			} else {
				ok = stripConv(read.Args[2]) == f("FooterLength")
			}
			c.expect(ok, rule, "footer", read.Pos, "not as many bytes as the footer's length are read")
		}
		// streams
		var loop *engine.Loop
		for _, lp := range loops(p.Events) {
			for _, it := range lp.Iters {
				for _, e := range calls(it.Events, nil) {
					if e.Name == "InitStream" {
						loop = lp
					}
				}
			}
		}
		if !c.expect(loop != nil, rule, "streams", fn.Pos(), "no loop over the streams found [%s]", lits(p)) {
			continue
		}
		var arr, idx *engine.Term
		for _, it := range loop.Iters {
			for _, e := range calls(it.Events, nil) {
				if e.Name == "InitStream" && arr == nil {
					if a := loadAddr(e.Args[0]); a != nil && a.Op == "elem" {
						arr = a.Args[0]
						idx = fullLoop(en, loop, p, en.Len(arr))
					}
				}
			}
		}
		a := (*engine.Term)(nil)
		if arr != nil {
			a = loadAddr(arr)
		}
		if !c.expect(idx != nil && a != nil && a.Op == "field" && a.Aux == "Streams", rule, "streams", loop.Pos, "the loop does not visit all streams listed in order") {
			continue
		}
		el := arr.Typ.Underlying().(*types.Slice).Elem()
		st := (*engine.Term)(nil)
		for i, it := range loop.Iters {
			st = en.Load(it.St, en.ElemAddr(arr, idx, el), el)
			kind := stripConv(deref(en, it, st, el, "Kind"))
			length := stripConv(deref(en, it, st, el, "Length"))
			isIndex, known := en.Decide(it.St, en.Eq(kind, en.P.Int(6)))
			if !c.expect(known, rule, "streams", loop.Pos, "index and data streams are not told apart [%s]", lits(it)) {
				continue
			}
			want := map[*engine.LoopPhi]bool{} // advances by length
			for _, ph := range loop.Phis {
				if !isIntType(ph.Term.Typ) && ph.Term.Typ.String() != "uint64" {
					continue
				}
				var who string
				switch stripConv(ph.Init) {
				case f("Offset"):
					who = "index"
				case dataStart:
					who = "data"
				default:
					continue
				}
				d := en.P.Add(ph.Next[i], ph.Term, -1, types.Typ[types.Uint64])
				v, isK := d.IntVal()
				if (who == "index") == isIndex {
					c.expect(stripConv(d) == length, rule, who+" position", loop.Pos, "passing over a stream advances by %s instead of its length [%s]", d, lits(it))
					want[ph] = true
				} else {
					c.expect(isK && v == 0, rule, who+" position", loop.Pos, "moved by %s by a stream of the other part [%s]", d, lits(it))
				}
			}
			for _, e := range calls(it.Events, nil) {
				var pos *engine.Term
				switch e.Name {
				case "InitStream":
					pos = e.Args[1]
					c.expect(!isIndex, rule, "streams", e.Pos, "an index is taken for data")
					c.expect(e.Args[0] == st, rule, "streams", e.Pos, "a stream is set up from the record of another")
				case "InitIndex":
					pos = e.Args[0]
					c.expect(isIndex, rule, "streams", e.Pos, "data is taken for an index")
					c.expect(stripConv(e.Args[1]) == length, rule, "index position", e.Pos, "%s bytes of index are read instead of the length listed", e.Args[1])
				default:
					continue
				}
				ph := phiOf(loop, stripConv(pos))
				c.expect(ph != nil && want[ph], rule, e.Name, e.Pos, "the stream is looked for at %s, not behind the streams listed before it [%s]", pos, lits(it))
			}
		}
	}
	c.expect(n > 0, rule, "newStripeReader", fn.Pos(), "no successful path")
	c.atLeast(rule, 5)
}

// streamsLocated: a column hands position and record of a stream on, and places the file there.
func streamsLocated(c *Check) {
	rule := "a stream is read where it was located"
	for _, col := range c.readers(rule) {
		fn := c.W.method(col.T, "InitStream")
		en := c.W.colEngine()
		recv := en.P.Mk("param", "r", types.NewPointer(col.T))
		s := c.run(en, rule, fn, []*engine.Term{recv, en.P.Mk("param", "info", fn.Params[1].Type()), en.P.Mk("param", "start", fn.Params[2].Type())}, nil)
		for _, p := range good(en, fn, s) {
			for _, e := range calls(p.Events, func(e *engine.Event) bool { return strings.Contains(e.Callee, "/orc/stream.New") }) {
				kind, _ := c.W.kindOn(en, p, func(t *engine.Term) bool { return t.Contains(s.Params[1]) })
				con := col.name + " " + kind
				var file *engine.Term
				hasInfo, hasStart := false, false
				for _, x := range e.Args {
					if c.W.isFile(x.Typ) {
						file = engine.StripIface(x)
					}
					hasInfo = hasInfo || x == s.Params[1]
					hasStart = hasStart || stripConv(x) == s.Params[2]
				}
				c.expect(hasInfo, rule, con, e.Pos, "the stream is not given its record")
				c.expect(hasStart, rule, con, e.Pos, "the stream is not told its position")
				if !c.expect(file != nil, rule, con, e.Pos, "file not found") {
					continue
				}
				var last *engine.Event
				for _, k := range calls(p.Events, func(k *engine.Event) bool { return takes(k, file) && k.Name != "Close" && k != e }) {
					last = k
				}
				ok := last != nil && last.Name == "Seek" && stripConv(last.Args[0]) == s.Params[2]
				if ok {
					w, k := last.Args[1].IntVal()
					ok = k && w == 0
				}
				c.expect(ok, rule, con, e.Pos, "the file is not placed at the start of the stream")
			}
		}
	}
	c.atLeast(rule, 20)
}

// streamStarts: a stream keeps position and record; positions in it count from its start.
func streamStarts(c *Check) {
	rule := "positions in a stream count from its start"
	p := c.W.Pkgs[streamPkg]
	n := 0
	for _, m := range sortedMembers(p) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || fn.Parent() != nil {
			continue
		}
		var info, start, file int = -1, -1, -1
		for i, x := range fn.Params {
			switch {
			case typeIs(x.Type(), "pb/pb.Stream"):
				info = i
			case x.Type().String() == "uint64":
				start = i
			case c.W.isFile(x.Type()):
				file = i
			}
		}
		if info < 0 || start < 0 || file < 0 {
			continue
		}
		n++
		en := c.W.streamEngine()
		s := c.run(en, rule, fn, nil, nil)
		for _, q := range s.Paths {
			if q.Panic {
				continue
			}
			x := engine.StripIface(q.Ret[0])
			got := map[string]*engine.Term{}
			bad := ""
			var walk func(obj *engine.Term, t types.Type, depth int)
			walk = func(obj *engine.Term, t types.Type, depth int) {
				if depth > 4 {
					return
				}
				allFields(t, func(path []int, v *types.Var) {
					a, ft := addrIn(en, q, obj, t, path)
					val := en.Load(q.St, a, ft)
					switch {
					case typeIs(ft, "pb/pb.Stream"):
						got["record"] = val
					case c.W.isFile(ft):
						got["file"] = val
					case ft.String() == "uint64":
						if val == s.Params[start] {
							got["start"] = val
						} else if z, k := val.IntVal(); !k || z != 0 {
							bad = v.Name()
						}
					default:
						if pt, ok := ft.Underlying().(*types.Pointer); ok && !v.Embedded() {
							if nt, ok := pt.Elem().(*types.Named); ok && c.W.rel(nt.Obj().Pkg()) == streamPkg {
								walk(val, ft, depth+1)
							}
						}
					}
				})
			}
			walk(x, x.Typ, 0)
			c.expect(got["record"] == s.Params[info], rule, fn.Name(), fn.Pos(), "the record kept is %v", got["record"])
			c.expect(got["start"] == s.Params[start], rule, fn.Name(), fn.Pos(), "the position of the stream is not kept")
			c.expect(got["file"] == s.Params[file], rule, fn.Name(), fn.Pos(), "the file kept is not the one handed in")
			c.expect(bad == "", rule, fn.Name(), fn.Pos(), "%s does not start with zero", bad)
		}
	}
	c.atLeast(rule, 6)
}
