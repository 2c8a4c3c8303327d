package main

import (
	"go/token"
	"go/types"

	"goorcvet/engine"
)

func init() {
	properties["C04"] = property{"static analysis: path sensitive symbolic summaries of seeking in batch, stripe and column readers; the row sought within the stripe, the stripe chosen and the positions kept are compared as linear terms, with the search for the stripe summarised inductively; typestate of what column readers remember of rows read before", rulesC04}
}

func rulesC04(c *Check) {
	m := c.batchModel("seeking")
	if m == nil {
		return
	}
	batchSeek(c, m)
	stripeSeek(c, m)
	for _, col := range c.readers("columns") {
		remembered(c, col)
	}
	c.atLeast("nothing read before a seek is remembered", 10)
}

// loadsOf are the fields of an element of a slice, however often memory was looked at since.
func elemField(t *engine.Term, arr *engine.Term, name string) *engine.Term {
	t = stripConv(t)
	if t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == name && isElemOf(t.Args[0].Args[0], arr) {
		return t.Args[0].Args[0].Args[0].Args[1]
	}
	return nil
}

// batchSeek: seeking finds the stripe holding the row, seeks the row within it, and has all later stripes start over.
func batchSeek(c *Check, m *batchModel) {
	rule := "seeking moves to the row's stripe and row"
	con := short(m.bSeek)
	en := m.engine(c.W, m.sSeek)
	s := c.run(en, rule, m.bSeek, nil, nil)
	recv := s.Params[0]
	row := s.Params[1]
	stripes := fieldTerm(en, recv, m.B, isVar(m.stripes))
	n := 0
	for _, p := range good(en, m.bSeek, s) {
		n++
		var seek *engine.Event
		for _, e := range p.Events {
			if !calledIs(e, m.sSeek) {
				continue
			}
			c.expect(seek == nil, rule, con, e.Pos, "two stripes are sought [%s]", lits(p))
			seek = e
		}
		// a seek within the exit iteration of a loop over the later stripes cannot succeed and leave
		if seek == nil {
			c.fail(rule, con, p.RetPos, "success without seeking in any stripe [%s]", lits(p))
			continue
		}
		if !c.expect(seek.Recv != nil && isElemOf(seek.Recv, stripes) && len(seek.Args) == 1, rule, con, seek.Pos, "%v is sought, not a stripe", seek.Recv) {
			continue
		}
		idx := engine.StripIface(seek.Recv).Args[0].Args[1]
		in := stripConv(seek.Args[0])
		c.expect(rowWithin(en, p, m, stripes, idx, in, row), rule, con, seek.Pos, "%v is not known to be row %v counted from the start of stripe %v [%s]", in, row, idx, lits(p))
		// the row is of this stripe
		inside := false
		walkLits(p, func(t *engine.Term) {
			if at := elemField(t, stripes, m.rows.Name()); at == idx {
				if v, k := en.Decide(p.St, en.Le(stripConv(t), in)); k && !v {
					inside = true
				}
			}
		})
		c.expect(inside, rule, con, seek.Pos, "the row sought is not known to lie in the stripe [%s]", lits(p))
		c.expect(now(en, p, recv, m.B, m.bIndex) == idx, rule, con, p.RetPos, "reading goes on with stripe %v, not with the one sought", now(en, p, recv, m.B, m.bIndex))
		c.expect(now(en, p, recv, m.B, m.bCursor) == row, rule, con, p.RetPos, "the rows done become %v", now(en, p, recv, m.B, m.bCursor))
		c.expect(laterRestarted(c, en, p, m, stripes, idx), rule, con+" later stripes", p.RetPos, "stripes behind the one sought do not start over [%s]", lits(p))
	}
	c.expect(n > 0, rule, con, fnPos(m.bSeek), "no successful path")
	c.atLeast(rule, 2)
}

// rowWithin tells that in is row less the rows of the stripes before idx.
func rowWithin(en *engine.Engine, p *engine.Path, m *batchModel, stripes, idx, in, row *engine.Term) bool {
	if n, ok := idx.IntVal(); ok && n == 0 && in == row {
		return true
	}
	it := idx.Find(func(x *engine.Term) bool { return x.Op == "iter" })
	if it == nil {
		return false
	}
	lp, ok := it.Any.(*engine.Loop)
	if !ok {
		return false
	}
	ip := phiOf(lp, it)
	if ip == nil || len(ip.Next) == 0 || !zeroTerm(en.P.Add(ip.Init, en.P.Add(idx, it, -1, it.Typ), 1, it.Typ)) {
		return false
	}
	for _, nx := range ip.Next {
		if nx != en.P.Add(it, en.P.Int(1), 1, it.Typ) {
			return false
		}
	}
	for _, ph := range lp.Phis {
		t := ph.Term
		var sign int64
		switch {
		case in == en.P.Add(row, t, -1, row.Typ) && zeroTerm(ph.Init): // rows before
			sign = 1
		case in == t && ph.Init == row: // rows left
			sign = -1
		default:
			continue
		}
		all := len(ph.Next) > 0
		for i, nx := range ph.Next {
			d := stripConv(en.P.Add(nx, t, -1, t.Typ))
			if sign < 0 {
				d = stripConv(en.P.Add(t, nx, -1, t.Typ))
			}
			all = all && elemField(d, stripes, m.rows.Name()) == idx
			// and none is passed which holds the row
			left := in
			v, k := en.Decide(lp.Iters[i].St, en.Le(d, left))
			all = all && k && v
		}
		if all {
			return true
		}
	}
	return false
}

// laterRestarted tells that the stripes after idx are sought to their first row, unless they are there.
func laterRestarted(c *Check, en *engine.Engine, p *engine.Path, m *batchModel, stripes, idx *engine.Term) bool {
	for _, lp := range loops(p.Events) {
		for _, ph := range lp.Phis {
			if len(ph.Next) == 0 {
				continue
			}
			t := ph.Term
			// the stripe an iteration looks at
			ats := make([]*engine.Term, len(ph.Next))
			var off *engine.Term
			all := true
			for i, nx := range ph.Next {
				it := lp.Iters[i]
				all = all && nx == en.P.Add(t, en.P.Int(1), 1, t.Typ)
				walkLits(it, func(x *engine.Term) {
					if k := elemField(x, stripes, m.cursor.Name()); k != nil && k.Contains(t) {
						if v, ok := en.Decide(it.St, en.Eq(x, en.P.Int(0))); ok && v {
							ats[i] = k
						}
					}
				})
				for _, e := range calls(it.Events, func(e *engine.Event) bool { return calledIs(e, m.sSeek) }) {
					if e.Recv == nil || !isElemOf(e.Recv, stripes) || len(e.Args) != 1 || !zeroTerm(stripConv(e.Args[0])) {
						return false
					}
					ats[i] = engine.StripIface(e.Recv).Args[0].Args[1]
				}
				if ats[i] != nil {
					o := en.P.Add(ats[i], t, -1, t.Typ)
					all = all && (off == nil || o == off) && !o.Contains(t)
					off = o
				}
			}
			if off == nil || !all {
				continue
			}
			at := en.P.Add(t, off, 1, t.Typ)
			first := en.P.Add(ph.Init, off, 1, t.Typ)
			fv, isConst := first.IntVal()
			all = (isConst && fv <= 0 || sureLe(en, p, first, en.P.Add(idx, en.P.Int(1), 1, idx.Typ))) && sureLe(en, p, en.Len(stripes), at)
			for i := range ph.Next {
				if ats[i] == nil { // passed over: only stripes up to the one sought may be
					all = all && sureLe(en, lp.Iters[i], at, idx)
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// stripeSeek: a stripe seeks its columns to the stride the row is in, skips the rows before it there, and remembers the row.
func stripeSeek(c *Check, m *batchModel) {
	rule := "a stripe seeks the stride and skips the rest"
	con := short(m.sSeek)
	en := m.engine(c.W)
	s := c.run(en, rule, m.sSeek, nil, nil)
	recv, row := s.Params[0], s.Params[1]
	col := fieldTerm(en, recv, m.S, ofType("orc/column.Reader"))
	opts := fieldTerm(en, recv, m.S, ofType("orc/config.ReaderOptions"))
	if !c.expect(col != nil && opts != nil, rule, con, fnPos(m.sSeek), "column or options not found") {
		return
	}
	is := fieldTerm(en, opts, opts.Typ, named("IndexStride"))
	n := 0
	for _, p := range good(en, m.sSeek, s) {
		n++
		var evs []*engine.Event
		deep(p.Events, func(e *engine.Event, in *engine.Loop) {
			if e.Kind == "call" && e.Recv != nil && typeIs(e.Recv.Typ, "orc/column.Reader") {
				c.expect(in == nil && engine.StripIface(e.Recv) == col, rule, con, e.Pos, "%s is not called once for the stripe's root column", e.Name)
				evs = append(evs, e)
			}
		})
		cur := fieldTerm(en, recv, m.S, isVar(m.cursor))
		if len(evs) == 1 && evs[0].Name == "Skip" && sureLe(en, p, cur, row) && stripConv(evs[0].Args[0]) == en.P.Add(row, cur, -1, row.Typ) || len(evs) == 0 && sureEq(en, p, row, cur) {
			// on from where reading is
			end := now(en, p, recv, m.S, m.cursor)
			c.expect(end == row || sureEq(en, p, end, row), rule, con, p.RetPos, "the rows done become %v", end)
			continue
		}
		ok := len(evs) > 0 && len(evs) <= 2 && evs[0].Name == "SeekStride" && (len(evs) == 1 || evs[1].Name == "Skip")
		if !c.expect(ok, rule, con, p.RetPos, "a stride is not sought and rows skipped then, but %d calls are made [%s]", len(evs), lits(p)) {
			continue
		}
		stride := stripConv(evs[0].Args[0])
		rest := en.P.Int(0)
		if len(evs) == 2 {
			rest = stripConv(evs[1].Args[0])
		}
		for _, e := range evs {
			for _, a := range e.Args {
				walkTerm(a, func(t *engine.Term) {
					if t.Op == "bin" && (t.Aux == "/" || t.Aux == "%") {
						v, k := en.Decide(p.St, en.Eq(stripConv(t.Args[1]), en.P.Int(0)))
						c.expect(k && !v, rule, con, e.Pos, "rows are divided by %s, which may be zero [%s]", t.Args[1], lits(p))
					}
				})
			}
		}
		isDiv := func(t *engine.Term, op string) bool {
			return t.Op == "bin" && t.Aux == op && len(t.Args) == 2 && stripConv(t.Args[0]) == row && stripConv(t.Args[1]) == is
		}
		quot := func(t *engine.Term) bool { return isDiv(t, "/") }
		rem := func(t *engine.Term) bool {
			if isDiv(t, "%") {
				return true
			}
			d := stripConv(en.P.Add(row, t, -1, row.Typ)) // row/stride*stride
			if d.Op == "bin" && d.Aux == "*" {
				x, y := stripConv(d.Args[0]), stripConv(d.Args[1])
				return quot(x) && y == is || quot(y) && x == is
			}
			return false
		}
		below := sureLe(en, p, en.P.Add(row, en.P.Int(1), 1, row.Typ), is)
		switch {
		case zeroTerm(stride):
			c.expect(rest == row || below && rem(rest) || len(evs) == 1 && knownZero(en, p, row), rule, con, evs[0].Pos, "from the start of the stripe %v rows are skipped", rest)
		case quot(stride):
			c.expect(rem(rest) || below && rest == row || len(evs) == 1 && zeroRem(en, p, rem), rule, con, evs[0].Pos, "from stride %v on %v rows are skipped", stride, rest)
		default:
			c.fail(rule, con, evs[0].Pos, "stride %v is sought [%s]", stride, lits(p))
		}
		c.expect(now(en, p, recv, m.S, m.cursor) == row, rule, con, p.RetPos, "the rows done become %v", now(en, p, recv, m.S, m.cursor))
	}
	c.expect(n > 0, rule, con, fnPos(m.sSeek), "no successful path")
	c.atLeast(rule, 1)
}

// zeroRem tells that a path is only taken if no rows are left to skip.
func zeroRem(en *engine.Engine, p *engine.Path, rem func(t *engine.Term) bool) bool {
	r := false
	walkLits(p, func(t *engine.Term) {
		if rem(stripConv(t)) {
			r = r || knownZero(en, p, stripConv(t)) || sureLe(en, p, stripConv(t), en.P.Int(0))
		}
	})
	return r
}

// remembered: what a column keeps of the rows read is gone after a seek, or does not depend on rows.
func remembered(c *Check, col *column) {
	rule := "nothing read before a seek is remembered"
	en := col.en
	for _, nulls := range []bool{true, false} {
		con := col.name + cfgName(nulls)
		c.ob(rule, con)
		as := col.withNulls(nulls)
		dirty := map[*engine.Term]token.Pos{}
		for _, name := range []string{"NextBatch", "Skip"} {
			fn, s := c.runMethod(col, rule, name, as)
			if fn == nil {
				return
			}
			for _, p := range good(en, fn, s) {
				for a, v := range p.Writes {
					if base(a) != col.recv || v == en.P.Mk("load", "0", v.Typ, a) || madeOnce(en, p, col, a, v) {
						continue
					}
					dirty[a] = p.RetPos
				}
			}
		}
		if len(dirty) == 0 {
			continue
		}
		fn, s := c.runMethod(col, rule, "SeekStride", as)
		if fn == nil {
			return
		}
		for _, p := range good(en, fn, s) {
			for a, pos := range dirty {
				c.expect(renewed(en, p, a, nil), rule, con, fn.Pos(), "%s, changed at %s, is kept [%s]", a, c.W.pos(pos), lits(p))
			}
		}
	}
}

// madeOnce tells that a cell is only set while some mark of the column is not set yet, which is then, from the dictionary.
func madeOnce(en *engine.Engine, p *engine.Path, col *column, a, v *engine.Term) bool {
	if len(col.dict) == 0 {
		return false
	}
	for _, st := range col.perRow {
		if v.Contains(st.term) {
			return false
		}
	}
	for x, y := range p.Writes {
		if base(x) != col.recv || x.Op != "field" {
			continue
		}
		old := en.P.Mk("load", "0", y.Typ, x)
		if unset(en, p, old) == yes && (unset(en, p, y) == no || engine.StripIface(y).Op == "make") {
			return true
		}
	}
	return false
}

// unset tells whether a mark is nil, false or zero.
func unset(en *engine.Engine, p *engine.Path, t *engine.Term) tri {
	if t.Typ == nil {
		return maybe
	}
	cond := t
	want := false
	switch u := t.Typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			cond, want = en.Eq(t, en.P.Int(0)), true
		} else if u.Info()&types.IsBoolean == 0 {
			return maybe
		}
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
		cond, want = isNil(en, t), true
	default:
		return maybe
	}
	switch v, k := en.Decide(p.St, cond); {
	case !k:
		return maybe
	case v == want:
		return yes
	}
	return no
}
