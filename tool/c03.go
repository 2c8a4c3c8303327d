package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C03"] = property{"path summaries of writers, encoders and readers (abstract interpretation over SSA): when an index entry is appended and from which GetPosition calls its positions are concatenated, compared position by position with the arguments every stream's Seek gets in SeekStride; typestate of each stream after Seek", rulesC03}
}

func rulesC03(c *Check) {
	widths := streamWidths(c)
	layouts := map[string][]string{} // stream kinds in the order recorded, by sorted kinds
	for _, col := range c.writers("writer") {
		recordEntries(c, col, layouts)
	}
	c.atLeast("an entry is recorded every stride", 11)
	for _, col := range c.readers("reader") {
		seekStride(c, col, layouts, widths)
	}
	c.atLeast("positions reach the streams they were recorded for", 40)
	c.atLeast("the start of a stripe is position zero", 13)
	streamSeeks(c)
	c.atLeast("a stream's seek starts afresh", 7)
	pendingCounts(c)
}

// isNamedCall tells a call by its name.
func isNamedCall(n string) func(e *engine.Event) bool {
	return func(e *engine.Event) bool { return e.Name == n }
}

// streamWidths: how many positions the writer of a stream records, without those of compression.
func streamWidths(c *Check) map[string]int {
	rule := "positions recorded by a stream"
	r := map[string]int{}
	sp := c.W.Pkgs["orc/stream"]
	wt := sp.Type("writer")
	if !c.expect(wt != nil, rule, "stream.writer", 0, "stream writer not found") {
		return r
	}
	named := wt.Type().(*types.Named)
	en := c.W.newEngine()
	fn := c.W.method(named, "GetPosition")
	en.Opaque = func(f *ssa.Function) bool { return false }
	s := c.run(en, rule, fn, nil, nil)
	if s == nil {
		return r
	}
	recv := s.Params[0]
	pt := types.Type(fn.Params[0].Type())
	opts := fieldTerm(en, recv, pt, ofType("orc/config.WriterOptions"))
	c.ob(rule, "GetPosition")
	if opts == nil {
		c.fail(rule, "GetPosition", fn.Pos(), "options not found")
		return r
	}
	wi := fieldTerm(en, opts, opts.Typ, nameIs("WriteIndex"))
	ck := fieldTerm(en, opts, opts.Typ, nameIs("CompressionKind"))
	for _, p := range s.Paths {
		on, k := en.Decide(p.St, wi)
		if k && !on {
			v, known := en.Decide(p.St, en.Eq(en.Len(p.Ret[0]), en.P.Int(0)))
			_ = v
			_ = known
			continue // nothing is recorded then
		}
		none, k2 := en.Decide(p.St, en.Eq(ck, en.P.Int(0)))
		parts := en.Parts(p.Ret[0])
		var got []string
		for _, q := range parts {
			x := stripConv(q.Args[0])
			ev, ok := x.Any.(*engine.Event)
			if !ok || ev.Recv == nil {
				got = append(got, "?"+x.String())
				continue
			}
			got = append(got, fieldName(ev.Recv)+"."+ev.Name)
		}
		want := "buf.Len,encoder.GetPosition"
		if k2 && !none {
			want = "compressedBuf.Len," + want
		}
		if !k2 {
			c.fail(rule, "GetPosition", p.RetPos, "positions do not depend on compression (%s)", lits(p))
			continue
		}
		// the compressed bytes so far, the bytes not compressed yet, what is pending in the encoder
		c.expect(samePositions(en, p, got, parts, recv, pt, !none), rule, "GetPosition", p.RetPos, "records %s, %s expected (%s)", strings.Join(got, ","), want, lits(p))
	}
	// constructors
	for _, m := range sortedMembers(sp) {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "New") || f.Signature.Results().Len() != 1 || !typeIs(f.Signature.Results().At(0).Type(), "orc/stream.Writer") {
			continue
		}
		en := c.W.newEngine()
		s := c.run(en, rule, f, nil, nil)
		c.ob(rule, f.Name())
		for _, p := range s.Paths {
			obj := engine.StripIface(p.Ret[0])
			a, ft := addrIn(en, p, obj, types.NewPointer(named), fieldIndex(named, ofType("orc/encoding.Encoder")))
			enc := en.Load(p.St, a, ft)
			if enc.Op != "iface" {
				c.fail(rule, f.Name(), p.RetPos, "the encoder of the stream is not known: %s", enc)
				continue
			}
			n, ok := encoderWidth(c, rule, enc.Typ)
			if !ok {
				c.fail(rule, f.Name(), p.RetPos, "the number of positions of %s is not known", enc.Typ)
				continue
			}
			if o, done := r[f.Name()]; done && o != n {
				c.fail(rule, f.Name(), p.RetPos, "records %d or %d positions", o, n)
			}
			r[f.Name()] = n
		}
	}
	return r
}

func nameIs(n string) func(v *types.Var) bool { return named(n) }

func fieldName(t *engine.Term) string {
	t = engine.StripIface(t)
	if t.Op == "load" {
		return t.Args[0].Aux
	}
	return t.Aux
}

// samePositions: the lengths of the two buffers of the stream writer and the encoder's positions, in this order.
func samePositions(en *engine.Engine, p *engine.Path, got []string, parts []*engine.Term, recv *engine.Term, pt types.Type, compressed bool) bool {
	want := 2
	if compressed {
		want = 3
	}
	if len(parts) != want {
		return false
	}
	var bufs []string
	for i, q := range parts {
		ev, ok := stripConv(q.Args[0]).Any.(*engine.Event)
		if !ok || ev.Recv == nil || base(ev.Recv) != recv {
			return false
		}
		last := i == want-1
		if last != (q.Op == "s") || last != (ev.Name == "GetPosition") || !last && ev.Name != "Len" {
			return false
		}
		bufs = append(bufs, fieldName(ev.Recv))
	}
	if !compressed {
		return bufs[0] == "buf"
	}
	return bufs[0] == "compressedBuf" && bufs[1] == "buf"
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	names := map[string]bool{}
	for n := range p.Members {
		names[n] = true
	}
	var r []ssa.Member
	for _, n := range sortedKeys(names) {
		r = append(r, p.Members[n])
	}
	return r
}

// encoderWidth is the number of values an encoder's GetPosition returns.
func encoderWidth(c *Check, rule string, t types.Type) (int, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	nt, ok := t.(*types.Named)
	if !ok {
		return 0, false
	}
	fn := c.W.method(nt, "GetPosition")
	if fn == nil {
		return 0, false
	}
	en := c.W.newEngine()
	s := c.run(en, rule, fn, nil, nil)
	n := -1
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		v, ok := en.Len(p.Ret[0]).IntVal()
		if !ok || n >= 0 && n != int(v) {
			return 0, false
		}
		n = int(v)
	}
	return n, n >= 0
}

// recordEntries: an entry is appended each time as many rows as the stride were written.
func recordEntries(c *Check, col *column, layouts map[string][]string) {
	en := col.en
	rule := "an entry is recorded every stride"
	fn := c.W.method(col.T, "Write")
	if fn == nil {
		return
	}
	if col.opts == nil {
		c.fail(rule, col.name, fn.Pos(), "options not found")
		return
	}
	wi := fieldTerm(en, col.opts, col.opts.Typ, nameIs("WriteIndex"))
	stride := fieldTerm(en, col.opts, col.opts.Typ, nameIs("IndexStride"))
	for _, nulls := range []bool{true, false} {
		_, s := c.runMethod(col, rule, "Write", func(st *engine.State) {
			col.withNulls(nulls)(st)
			en.Assume(st, wi, true, 0)
		})
		if s == nil {
			return
		}
		con := col.name + ".Write " + cfgName(nulls)
		paths := good(en, fn, s)
		any := false
		for _, p := range paths {
			any = any || entryOf(en, p, col) != nil
		}
		var active []*colStream
		for _, st := range col.streams {
			if st != col.present || nulls {
				active = append(active, st)
			}
		}
		if !any {
			// a writer which records nothing: not at all then
			if !nulls && col.present != nil && len(active) == 0 {
				continue
			}
			if hasDictStreams(col) {
				continue
			}
			c.fail(rule, con, fn.Pos(), "no row index entry is recorded")
			continue
		}
		c.ob(rule, con)
		for _, p := range paths {
			c.sites++
			// the row counter is what the stride is compared with
			var cnt *engine.Term
			for _, l := range p.Lits {
				if l.Cond.Op != "le0" && l.Cond.Op != "eq0" || !l.Cond.Contains(stride) {
					continue
				}
				lin := en.P.LinOf(l.Cond.Args[0])
				for t := range lin.Coef {
					if b := stripConv(t); b != stride && b.Op == "load" && base(b.Args[0]) == col.recv {
						cnt = b
					}
				}
			}
			if cnt == nil {
				c.fail(rule, con, p.RetPos, "a row is written without regard to the index stride (%s)", lits(p))
				continue
			}
			full, k := en.Decide(p.St, en.Le(stride, en.P.Add(cnt, en.P.Int(1), 1, cnt.Typ)))
			if !k {
				c.fail(rule, con, p.RetPos, "whether the stride is complete is not decided by the rows written (%s)", lits(p))
				continue
			}
			end := en.Load(p.St, cnt.Args[0], cnt.Typ)
			entry := entryOf(en, p, col)
			if !full {
				c.expect(entry == nil, rule, con, p.RetPos, "an entry is recorded before the stride is complete (%s)", lits(p))
				c.expect(end == en.P.Add(cnt, en.P.Int(1), 1, cnt.Typ), rule, con, p.RetPos, "a row is not counted: %s rows afterwards (%s)", end, lits(p))
				continue
			}
			if !c.expect(entry != nil, rule, con, p.RetPos, "no entry is recorded although the stride is complete (%s)", lits(p)) {
				continue
			}
			z, ok := end.IntVal()
			c.expect(ok && z == 0, rule, con, p.RetPos, "the rows are not counted anew after an entry: %s", end)
			ptr, et := entry, entry.Typ
			a, ft := addrOf(en, ptr, et, fieldIndex(et, nameIs("Positions")))
			pos := en.Load(p.St, a, ft)
			var order []*colStream
			for _, q := range en.Parts(pos) {
				ev, ok := q.Args[0].Any.(*engine.Event)
				var st *colStream
				if ok && (q.Op == "s") && ev.Name == "GetPosition" {
					for _, x := range active {
						if engine.StripIface(ev.Recv) == x.term {
							st = x
						}
					}
				}
				if st == nil {
					c.fail(rule, con, p.RetPos, "an entry holds %s, which is not the position of one of its streams", q.Args[0])
					order = nil
					break
				}
				// taken after the row's values
				after := true
				seen := false
				for _, e := range p.Events {
					if e == ev {
						seen = true
					} else if seen && e.Kind == "call" && e.Recv != nil && engine.StripIface(e.Recv) == st.term && e.Name == "Write" {
						after = false
					}
				}
				c.expect(after, rule, con, ev.Pos, "the position of %s is taken before the row's value is written", st.name)
				order = append(order, st)
			}
			var kinds []string
			for _, o := range order {
				kinds = append(kinds, o.kind)
			}
			c.expect(len(order) == len(active), rule, con, p.RetPos, "an entry holds the positions of %v, not of each of the %d streams once", kinds, len(active))
			key := layoutKey(col, kinds)
			if o, ok := layouts[key]; ok {
				c.expect(strings.Join(o, ",") == strings.Join(kinds, ","), rule, con, p.RetPos, "positions of %v are recorded as %v here and as %v elsewhere", key, kinds, o)
			}
			layouts[key] = kinds
			layouts["ctor:"+col.name] = nil
		}
	}
	_ = fn
}

func hasDictStreams(col *column) bool { return len(col.dict) > 0 }

// layoutKey names a layout by the reader it is for: the column's base name and the kinds of its streams.
func layoutKey(col *column, kinds []string) string {
	m := map[string]bool{}
	for _, k := range kinds {
		m[k] = true
	}
	return baseName(col.name) + " " + strings.Join(sortedKeys(m), "+")
}

// baseName of a column type without Reader, Writer and version.
func baseName(n string) string {
	n = strings.ToLower(n)
	for _, s := range []string{"reader", "writer", "v2"} {
		n = strings.ReplaceAll(n, s, "")
	}
	return n
}

// entryOf returns the entry a path appends to the row index.
func entryOf(en *engine.Engine, p *engine.Path, col *column) *engine.Term {
	for a, v := range p.Writes {
		if base(a) != col.recv || v.Typ == nil {
			continue
		}
		sl, ok := v.Typ.Underlying().(*types.Slice)
		if !ok || !typeIs(sl.Elem(), "pb/pb.RowIndexEntry") {
			continue
		}
		parts := en.Parts(v)
		if len(parts) != 2 || parts[0].Op != "s" || parts[1].Op != "e" {
			return en.P.Mk("badentry", v.String(), v.Typ)
		}
		return parts[1].Args[0]
	}
	return nil
}

// seekStride: every stream is sought to the positions recorded for it.
func seekStride(c *Check, col *column, layouts map[string][]string, widths map[string]int) {
	en := col.en
	rule := "positions reach the streams they were recorded for"
	rule0 := "the start of a stripe is position zero"
	fn := c.W.method(col.T, "SeekStride")
	if fn == nil {
		c.fail(rule0, col.name, 0, "no SeekStride")
		return
	}
	ck := fieldTerm(en, col.opts, col.opts.Typ, nameIs("CompressionKind"))
	stride := en.P.Mk("param", "stride", fn.Params[1].Type())
	for _, nulls := range []bool{true, false} {
		for _, comp := range []bool{false, true} {
			cfg := col.name + ".SeekStride " + cfgName(nulls)
			if comp {
				cfg += " compressed"
			}
			_, s := c.runMethod(col, rule, "SeekStride", func(st *engine.State) {
				col.withNulls(nulls)(st)
				en.Assume(st, en.Eq(ck, en.P.Int(0)), !comp, 0)
				en.Assume(st, en.Le(en.P.Int(0), stride), true, 0)
			}, stride)
			if s == nil {
				return
			}
			zero, pos := 0, 0
			for _, p := range good(en, fn, s) {
				isZero, k := en.Decide(p.St, en.Eq(stride, en.P.Int(0)))
				if k && isZero {
					zero++
					c.ob(rule0, cfg)
					for _, st := range col.streams {
						n := len(st.on(p.Events, map[string]bool{"Seek": true}))
						want := 1
						if isDict(col, st) || st == col.present && !nulls {
							want = 0
						}
						if isDict(col, st) && n == 1 { // harmless: to the start as well
							want = 1
						}
						c.expect(n == want, rule0, cfg, p.RetPos, "%s is sought %d times for the start of a stripe", st.name, n)
						for _, e := range st.on(p.Events, map[string]bool{"Seek": true}) {
							for _, a := range e.Args {
								c.expect(zeroTerm(stripConv(a)), rule0, cfg, e.Pos, "%s is sought to %s for the start of a stripe", st.name, a)
							}
						}
					}
					childStride(c, col, p, rule0, cfg, en.P.Int(0))
					continue
				}
				if !k {
					// one path for all strides: both rules apply, positions must be those of an entry, which stride 0 has not
					c.fail(rule0, cfg, p.RetPos, "the start of a stripe is not told from other strides (%s)", lits(p))
					continue
				}
				pos++
				c.sites++
				entryPositions(c, col, p, rule, cfg, stride, nulls, comp, layouts, widths)
				childStride(c, col, p, rule, cfg, stride)
			}
			c.expect(zero > 0, rule0, cfg, fn.Pos(), "the start of a stripe cannot be sought")
			if len(col.dict) == 0 {
				c.expect(pos > 0, rule, cfg, fn.Pos(), "no stride can be sought")
			}
		}
	}
}

func isDict(col *column, s *colStream) bool {
	for _, d := range col.dict {
		if d == s {
			return true
		}
	}
	return false
}

// entryPositions compares Seek's arguments with the layout recorded.
func entryPositions(c *Check, col *column, p *engine.Path, rule, cfg string, stride *engine.Term, nulls, comp bool, layouts map[string][]string, widths map[string]int) {
	en := col.en
	kinds := []string{}
	for _, st := range col.streams {
		if st == col.present && !nulls || isDict(col, st) {
			continue
		}
		kinds = append(kinds, st.kind)
	}
	order := kindOrder(kinds)
	if o, ok := layouts[layoutKey(col, kinds)]; ok {
		order = o
	}
	base := 0
	for _, k := range order {
		var st *colStream
		for _, x := range col.streams {
			if x.kind == k && !isDict(col, x) {
				if st == nil || len(x.on(p.Events, map[string]bool{"Seek": true})) > 0 {
					st = x
				}
			}
		}
		if st == nil {
			c.fail(rule, cfg+" "+k, p.RetPos, "no stream of kind %s although its positions are recorded", k)
			continue
		}
		con := cfg + " " + k
		c.ob(rule, con)
		w, ok := streamWidth(st, widths)
		if !ok {
			c.fail(rule, con, p.RetPos, "no writer counterpart of %s", st.ctor)
			continue
		}
		es := st.on(p.Events, map[string]bool{"Seek": true})
		n := 1 + w
		if comp {
			n++
		}
		if len(es) != 1 {
			c.fail(rule, con, p.RetPos, "%s is sought %d times (%s)", st.name, len(es), lits(p))
			base += n
			continue
		}
		args := es[0].Args
		if len(args) != 2+w {
			c.fail(rule, con, es[0].Pos, "%s takes %d positions, %d are recorded", st.name, len(args), 2+w)
			base += n
			continue
		}
		j := base
		for i, a := range args {
			a = stripConv(a)
			if i == 0 && !comp {
				// without chunks there is one offset: in either of the two
				if zeroTerm(a) {
					continue
				}
				if ok := entryPos(en, col, a, stride, j); ok && zeroTerm(stripConv(args[1])) {
					j++
					break
				}
				c.fail(rule, con, es[0].Pos, "%s is sought to chunk %s without compression", st.name, a)
				continue
			}
			c.expect(entryPos(en, col, a, stride, j), rule, con, es[0].Pos, "argument %d of the seek of %s is %s, not position %d of the entry", i, st.name, a, j)
			j++
		}
		base += n
	}
}

func kindOrder(kinds []string) []string {
	rank := map[string]int{"PRESENT": 0, "DATA": 1, "LENGTH": 2, "SECONDARY": 2}
	var r []string
	for i := 0; i < 3; i++ {
		for _, k := range kinds {
			if rank[k] == i {
				r = append(r, k)
			}
		}
	}
	return uniq(r)
}

func uniq(s []string) []string {
	var r []string
	seen := map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			r = append(r, x)
		}
		seen[x] = true
	}
	return r
}

// streamWidth is the number of positions recorded by the writer of what the stream reads.
func streamWidth(s *colStream, widths map[string]int) (int, bool) {
	m := map[string]string{"NewBoolReader": "NewBoolWriter", "NewByteReader": "NewByteWriter", "NewIntRLV2Reader": "NewIntRLV2Writer",
		"NewDateV2Reader": "NewIntRLV2Writer", "NewVarIntReader": "NewVarint64V2Writer", "NewStringContentsReader": "NewStringContentsWriter", "NewFloatReader": "NewFloatWriter"}
	w, ok := widths[m[s.ctor]]
	return w, ok
}

// entryPos tells that a is position k of the entry before the stride.
func entryPos(en *engine.Engine, col *column, a, stride *engine.Term, k int) bool {
	if a.Op != "load" || a.Args[0].Op != "elem" {
		return false
	}
	el := a.Args[0]
	if v, ok := el.Args[1].IntVal(); !ok || int(v) != k {
		return false
	}
	pos := stripConv(el.Args[0])
	if pos.Op != "load" || pos.Args[0].Aux != "Positions" {
		return false
	}
	entry := pos.Args[0].Args[0]
	if entry.Op != "load" || entry.Args[0].Op != "elem" {
		return false
	}
	if entry.Args[0].Args[1] != en.P.Add(stride, en.P.Int(1), -1, stride.Typ) {
		return false
	}
	arr := entry.Args[0].Args[0]
	return base(arr) == col.recv && arr.Op == "load" && arr.Args[0].Aux == "Entry"
}

// childStride: children are sought to the same stride.
func childStride(c *Check, col *column, p *engine.Path, rule, cfg string, stride *engine.Term) {
	en := col.en
	is := func(e *engine.Event) bool { return e.Iface && e.Name == "SeekStride" }
	ok := func(e *engine.Event) bool {
		return len(e.Args) == 1 && (e.Args[0] == stride || sameInt(e.Args[0], stride) || knownZero(en, p, e.Args[0]) && knownZero(en, p, stride))
	}
	for _, ch := range col.children {
		con := cfg + " child " + ch.String()
		es := calls(p.Events, func(e *engine.Event) bool { return is(e) && e.Recv == ch })
		c.expect(len(es) == 1, rule, con, p.RetPos, "a child is sought %d times", len(es))
		for _, e := range es {
			c.expect(ok(e), rule, con, e.Pos, "a child is sought to stride %s", e.Args[0])
		}
	}
	if col.childArr != nil {
		con := cfg + " children"
		n := 0
		for _, lp := range loops(p.Events) {
			idx := fullLoop(en, lp, p, en.Len(col.childArr))
			for _, it := range lp.Iters {
				es := calls(it.Events, is)
				if len(es) == 0 {
					continue
				}
				n++
				c.expect(idx != nil && len(es) == 1 && isElem(es[0].Recv, col.childArr, idx), rule, con, lp.Pos, "not every child is sought once")
				c.expect(ok(es[0]), rule, con, es[0].Pos, "a child is sought to stride %s", es[0].Args[0])
			}
		}
		c.expect(n > 0, rule, con, p.RetPos, "the children are not sought")
	}
}

func knownZero(en *engine.Engine, p *engine.Path, t *engine.Term) bool {
	v, k := en.Decide(p.St, en.Eq(t, en.P.Int(0)))
	return v && k
}

// streamSeeks: Seek of a stream moves its bytes, forgets what was decoded and passes over what was recorded.
func streamSeeks(c *Check) {
	rule := "a stream's seek starts afresh"
	sp := c.W.Pkgs["orc/stream"]
	for _, m := range sortedMembers(sp) {
		tm, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := tm.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		fn := c.W.method(nt, "Seek")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		streamSeek(c, rule, nt, fn)
	}
	// the bytes
	rule = "bytes are read on from the position sought"
	var rd *types.Named
	if t := sp.Type("reader"); t != nil {
		rd = t.Type().(*types.Named)
	}
	var fn *ssa.Function
	if rd != nil {
		fn = c.W.method(rd, "seek")
	}
	if !c.expect(fn != nil, rule, "stream.reader.seek", 0, "not found") {
		return
	}
	en := c.W.newEngine()
	en.TrackStores = true
	s := c.run(en, rule, fn, nil, nil)
	recv, chunk, off := s.Params[0], s.Params[1], s.Params[2]
	pt := fn.Params[0].Type()
	opts := fieldTerm(en, recv, pt, ofType("orc/config.ReaderOptions"))
	ck := fieldTerm(en, opts, opts.Typ, nameIs("CompressionKind"))
	start := fieldTerm(en, recv, pt, nameIs("start"))
	con := short(fn)
	c.ob(rule, con)
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		none, k := en.Decide(p.St, en.Eq(ck, en.P.Int(0)))
		if !k {
			c.fail(rule, con, p.RetPos, "seeking does not depend on compression")
			continue
		}
		to := chunk
		if none {
			to = en.P.Add(chunk, off, 1, chunk.Typ)
		}
		at := en.P.Add(start, to, 1, start.Typ)
		reset, sought, read, skipped := -1, -1, -1, -1
		for i, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			onBuf := func(t *engine.Term) bool { return t != nil && fieldName(t) == "buf" && base(t) == recv }
			switch {
			case e.Name == "Reset" && onBuf(e.Recv):
				reset = i
			case e.Name == "Seek" && fieldName(e.Recv) == "f":
				sought = i
				c.expect(stripConv(e.Args[0]) == at || e.Args[0] == at, rule, con, e.Pos, "the file is sought to %s, %s expected", e.Args[0], at)
				v, ok := e.Args[1].IntVal()
				c.expect(ok && v == 0, rule, con, e.Pos, "the file is not sought from its start")
			case e.Name == "Next" && onBuf(e.Recv):
				if v, ok := e.Args[0].IntVal(); ok && v == 0 {
					break
				}
				skipped = i
				c.expect(!none && stripConv(e.Args[0]) == off, rule, con, e.Pos, "%s bytes of the chunk are passed over", e.Args[0])
			default:
				if onBuf(e.Recv) && e.Name != "Len" {
					read = i
				}
				for _, a := range e.Args {
					if onBuf(a) {
						read = i
					}
				}
			}
		}
		c.expect(reset >= 0 && (read < 0 || reset < read), rule, con, p.RetPos, "bytes read before are kept")
		c.expect(sought >= 0 && (read < 0 || sought < read), rule, con, p.RetPos, "the file is not sought before it is read")
		if read >= 0 && !none {
			c.expect(skipped > read, rule, con, p.RetPos, "the offset into the chunk is not passed over (%s)", lits(p))
		}
		if read < 0 {
			rl := lastWrite(en, p, recv, pt, "readLength")
			c.expect(rl != nil && (rl == to || stripConv(rl) == to), rule, con, p.RetPos, "the bytes read so far are %v, not %s", rl, to)
			continue
		}
		// counted from the position sought: the first count after the seek
		var first *engine.Term
		for _, e := range p.Events {
			if e.Kind == "store" && e.Addr.Aux == "readLength" && first == nil {
				first = e.Val
			}
		}
		c.expect(first != nil && first == to, rule, con, p.RetPos, "the bytes read so far are set to %v, not to %s", first, to)
	}
	c.expect(n > 0, rule, con, fn.Pos(), "no seek succeeds")
}

func lastWrite(en *engine.Engine, p *engine.Path, recv *engine.Term, pt types.Type, field string) *engine.Term {
	a, _ := addrOf(en, recv, pt, fieldIndex(pt, nameIs(field)))
	return p.Writes[a]
}

func streamSeek(c *Check, rule string, nt *types.Named, fn *ssa.Function) {
	en := c.W.newEngine()
	en.TrackStores = true
	en.Opaque = func(f *ssa.Function) bool {
		if f.Parent() != nil || f == fn || f.Signature.Recv() == nil {
			return f.Pkg != nil && c.W.rel(f.Pkg.Pkg) == "orc/encoding"
		}
		n := f.Name()
		return strings.HasPrefix(n, "Next") || n == "Seek" || n == "seek"
	}
	con := nt.Obj().Name() + ".Seek"
	c.ob(rule, con)
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	pos := s.Params[1:]
	if len(pos) < 2 {
		c.fail(rule, con, fn.Pos(), "takes %d positions", len(pos))
		return
	}
	for _, p := range good(en, fn, s) {
		var seeks []*engine.Event
		for _, e := range p.Events {
			if e.Kind == "call" && (e.Name == "seek" || e.Name == "Seek") {
				seeks = append(seeks, e)
			}
		}
		if len(seeks) != 1 {
			c.fail(rule, con, p.RetPos, "the bytes are sought %d times", len(seeks))
			continue
		}
		sk := seeks[0]
		c.expect(sk.Recv != nil && base(sk.Recv) == recv || len(sk.Args) > 0 && base(sk.Args[0]) == recv, rule, con, sk.Pos, "something else than the stream's bytes is sought")
		args := sk.Args
		for i, a := range args {
			c.expect(i < len(pos) && stripConv(a) == pos[i], rule, con, sk.Pos, "position %d is %s", i, a)
		}
		rest := pos[min(len(args), len(pos)):]
		c.expect(len(rest) <= 1, rule, con, sk.Pos, "positions %v are not used", rest)
		c.expect(len(args) >= 2, rule, con, sk.Pos, "only %d positions are passed on", len(args))
		// decoded values forgotten, before the first value is passed over
		cells := decodedCells(c, rule, nt)
		for _, l := range cells {
			if !l.applies(en, p, recv) {
				continue
			}
			var slen, at *engine.Term
			for _, e := range p.Events {
				if e.Kind == "loop" {
					break
				}
				if e.Kind != "store" {
					continue
				}
				if e.Addr.Aux == l.slice && base(e.Addr) == recv {
					slen = en.Len(e.Val)
				}
				if e.Addr.Aux == l.pos && base(e.Addr) == recv {
					at = e.Val
				}
			}
			// loops may carry no store at all
			zs := slen != nil && knownZero(en, p, slen)
			za := at != nil && knownZero(en, p, at)
			c.expect(zs && za, rule, con, p.RetPos, "values decoded before (%s at %s) are still there after seeking", l.slice, l.pos)
		}
		if len(cells) == 0 || len(rest) == 0 {
			// nothing is decoded ahead: no value is to be passed over, or always the same number
			for _, lp := range loops(p.Events) {
				c.fail(rule, con, lp.Pos, "values are passed over although nothing is decoded ahead")
			}
			continue
		}
		lps := loops(p.Events)
		if !c.expect(len(lps) == 1, rule, con, p.RetPos, "values pending when the position was recorded are passed over by %d loops (%s)", len(lps), lits(p)) {
			continue
		}
		c.expect(times(en, lps[0], p, rest[0]) || timesConv(en, lps[0], p, rest[0]), rule, con, lps[0].Pos, "the number of values passed over is not %s", rest[0])
		for _, it := range lps[0].Iters {
			n := 0
			for _, e := range it.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "Next") {
					n++
				}
			}
			c.expect(n == 1, rule, con, lps[0].Pos, "%d values are passed over at a time (%s)", n, lits(it))
		}
	}
}

// timesConv is times with a bound converted to another integer type.
func timesConv(en *engine.Engine, lp *engine.Loop, p *engine.Path, n *engine.Term) bool {
	found := false
	seek := func(t *engine.Term) {
		t.Find(func(x *engine.Term) bool {
			if x.Op == "conv" && stripConv(x) == n && times(en, lp, p, x) {
				found = true
			}
			return false
		})
	}
	for _, l := range p.Lits {
		seek(l.Cond)
	}
	return found
}

// decoded is where a stream keeps values decoded ahead.
type decoded struct {
	slice, pos string
	lits       []*engine.Lit
	recv       *engine.Term
}

func (d *decoded) applies(en *engine.Engine, p *engine.Path, recv *engine.Term) bool {
	for _, l := range d.lits {
		want := l.Val
		// the same flag of the other run's receiver, by its field
		for _, m := range p.Lits {
			if m.Cond.String() == strings.Replace(l.Cond.String(), d.recv.Aux+".", recv.Aux+".", 1) && m.Val != want {
				return false
			}
		}
	}
	return true
}

// decodedCells: values returned by Next without reading on.
func decodedCells(c *Check, rule string, nt *types.Named) []*decoded {
	var r []*decoded
	ms := types.NewMethodSet(types.NewPointer(nt))
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		if !strings.HasPrefix(name, "Next") {
			continue
		}
		fn := c.W.method(nt, name)
		if fn == nil {
			continue
		}
		en := c.W.newEngine()
		en.Opaque = func(f *ssa.Function) bool {
			return f.Pkg != nil && c.W.rel(f.Pkg.Pkg) == "orc/encoding" || f != fn && strings.HasPrefix(f.Name(), "Next")
		}
		s := c.run(en, rule, fn, nil, nil)
		recv := s.Params[0]
		for _, p := range good(en, fn, s) {
			v := p.Ret[0].Find(func(t *engine.Term) bool { return t.Op == "elem" })
			if v == nil {
				continue
			}
			el := v
			if el.Args[0].Op != "load" || el.Args[1].Op != "load" || base(el.Args[0]) != recv {
				continue
			}
			d := &decoded{slice: el.Args[0].Args[0].Aux, pos: el.Args[1].Args[0].Aux, recv: recv}
			for _, l := range p.Lits {
				if configTerm(l.Cond, recv) && l.Cond.Op == "load" {
					d.lits = append(d.lits, l)
				}
			}
			r = append(r, d)
		}
	}
	return r
}

// pendingCounts: the position an encoder reports counts the values it holds back.
func pendingCounts(c *Check) {
	rule := "the encoder's position counts the values it holds"
	w := c.W
	for _, nt := range w.implementers("orc/encoding", "Encoder") {
		fn := w.method(nt, "GetPosition")
		enc := w.method(nt, "Encode")
		if fn == nil || enc == nil {
			continue
		}
		en := w.newEngine()
		en.TrackStores = true
		s := c.run(en, rule, fn, nil, nil)
		con := nt.Obj().Name()
		if len(s.Paths) != 1 {
			continue
		}
		recv := s.Params[0]
		var cells []*engine.Term
		elems, _ := en.SliceElems(s.Paths[0].St, s.Paths[0].Ret[0])
		for _, q := range elems {
			if x := stripConv(q); x.Op == "load" && base(x.Args[0]) == recv {
				cells = append(cells, x)
			}
		}
		if len(cells) == 0 {
			continue
		}
		c.ob(rule, con)
		en.Opaque = func(f *ssa.Function) bool {
			return f != enc && f.Signature.Recv() != nil && f.Signature.Recv().Type().String() == enc.Signature.Recv().Type().String() || f.Name() == "Encode"
		}
		es := c.run(en, rule, enc, []*engine.Term{recv, en.P.Mk("param", "v", enc.Params[1].Type()), en.P.Mk("param", "out", enc.Params[2].Type())}, nil)
		for _, p := range good(en, enc, es) {
			for _, cell := range cells {
				if cell.Args[0].Args[0] != recv {
					continue // kept by another encoder
				}
				if v, k := en.Decide(p.St, en.Eq(en.Load(p.St, cell.Args[0], cell.Typ), en.P.Int(-1))); k && v {
					continue // not recording
				}
				end := en.Load(p.St, cell.Args[0], cell.Typ)
				ok, what := pending(en, p, recv, enc, end)
				c.expect(ok, rule, con, p.RetPos, "after a value the position is %s, but %s are held (%s)", end, what, lits(p))
			}
		}
	}
	c.atLeast(rule, 3)
}

// pending tells that end is the number of values held: the length of the slice of values, or one more than the index of the last bit.
func pending(en *engine.Engine, p *engine.Path, recv *engine.Term, fn *ssa.Function, end *engine.Term) (bool, string) {
	var what []string
	ok := false
	allFields(fn.Params[0].Type(), func(path []int, v *types.Var) {
		a, ft := addrOf(en, recv, fn.Params[0].Type(), path)
		cur := en.Load(p.St, a, ft)
		if _, isSlice := v.Type().Underlying().(*types.Slice); isSlice {
			n := en.Len(cur)
			what = append(what, fmt.Sprintf("%s (%s)", n, v.Name()))
			if d, k := en.Decide(p.St, en.Eq(n, end)); n == end || k && d {
				ok = true
			}
		}
		if v.Name() == "index" {
			n := en.P.Add(cur, en.P.Int(1), 1, cur.Typ)
			what = append(what, fmt.Sprintf("%s (%s)", n, v.Name()))
			if d, k := en.Decide(p.St, en.Eq(n, end)); n == end || k && d {
				ok = true
			}
		}
	})
	return ok, strings.Join(what, " or ")
}
