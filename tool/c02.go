package main

import (
	"go/types"

	"goorcvet/engine"
)

func rulesC02(c *Check) {
	for _, col := range c.readers("reader") {
		skipRows(c, col)
	}
	c.atLeast("a skipped row consumes a marker", 11)
	c.atLeast("a skipped row consumes its values", 13)
	c.atLeast("children are skipped along", 3)
	c.atLeast("lengths come from the length stream", 2)
}

func skipRows(c *Check, col *column) {
	en := col.en
	fn0 := c.W.method(col.T, "Skip")
	if fn0 == nil {
		c.fail("a skipped row consumes a marker", col.name, 0, "no Skip")
		return
	}
	rows := en.P.Mk("param", "rows", fn0.Params[1].Type())
	for _, nulls := range []bool{true, false} {
		fn, s := c.runMethod(col, "a skipped row consumes a marker", "Skip", col.withNulls(nulls), rows)
		if s == nil {
			continue
		}
		con := col.name + ".Skip " + cfgName(nulls)
		paths := good(en, fn, s)
		c.expect(len(paths) > 0, "a skipped row consumes a marker", con, fn.Pos(), "no path succeeds")
		notNull := func(it *engine.Path) (bool, bool) {
			if !nulls || col.present == nil {
				return true, true
			}
			ms := col.present.on(it.Events, nextPrims)
			if len(ms) != 1 {
				return false, false
			}
			return en.Decide(it.St, ms[0].Res[0])
		}
		for _, p := range paths {
			c.sites++
			if col.present != nil {
				skipLoop(c, en, p, "a skipped row consumes a marker", con, col.present, rows, func(it *engine.Path) (int, string) {
					if nulls {
						return 1, ""
					}
					return 0, ""
				})
			}
			for _, v := range col.perRow {
				skipLoop(c, en, p, "a skipped row consumes its values", con+" "+v.name, v, rows, func(it *engine.Path) (int, string) {
					nn, k := notNull(it)
					if !k {
						return -1, "values are skipped without regard to the marker"
					}
					if nn {
						return 1, ""
					}
					return 0, ""
				})
			}
			for _, d := range col.dict {
				c.expect(!mentionsAny(d, p), "a skipped row consumes its values", con+" "+d.name, p.RetPos, "skipping rows reads the dictionary")
			}
			contentLengths(c, col, p, con)
			childSkips(c, col, p, con, rows, notNull, nulls)
		}
	}
	sameWidth(c, col)
	// reading takes the contents' length from the length stream as well
	fn := c.W.method(col.T, "NextBatch")
	if fn != nil {
		_, s := c.runMethod(col, "lengths come from the length stream", "NextBatch", nil)
		if s != nil {
			for _, p := range good(en, fn, s) {
				contentLengths(c, col, p, col.name+".NextBatch")
			}
		}
	}
}

// sameWidth: a value is passed over by the operation it is read with.
func sameWidth(c *Check, col *column) {
	en := col.en
	rule := "values are skipped at the width they are read with"
	class := map[string]string{"NextInt64": "int", "NextUInt64": "int", "NextBytes": "bytes", "NextString": "bytes"}
	type use struct {
		it   *engine.Path
		e    *engine.Event
		what string
	}
	uses := func(s *colStream, name string) (r []use) {
		_, sum := c.runMethod(col, rule, name, nil)
		if sum == nil {
			return
		}
		for _, p := range sum.Paths {
			for _, lp := range loops(p.Events) {
				for _, it := range lp.Iters {
					for _, e := range s.on(it.Events, nextPrims) {
						w := e.Name
						if class[w] != "" {
							w = class[w]
						}
						r = append(r, use{it, e, w})
					}
				}
			}
		}
		return
	}
	for _, s := range append([]*colStream{}, col.perRow...) {
		rd, sk := uses(s, "NextBatch"), uses(s, "Skip")
		con := col.name + " " + s.name
		c.ob(rule, con)
		for _, k := range sk {
			met := false
			for _, r := range rd {
				excl := false
				for _, l := range r.it.Lits {
					if !configTerm(l.Cond, col.recv) {
						continue
					}
					if v, known := en.Decide(k.it.St, l.Cond); known && v != l.Val {
						excl = true
					}
				}
				if excl {
					continue
				}
				met = true
				c.expect(r.what == k.what, rule, con, k.e.Pos, "%s is skipped with %s but read with %s (%s)", s.name, k.e.Name, r.e.Name, lits(k.it))
			}
			c.expect(met, rule, con, k.e.Pos, "%s is skipped where it is never read", s.name)
		}
	}
}

// configTerm tells that a condition depends on fields of the receiver only.
func configTerm(t, recv *engine.Term) bool {
	switch t.Op {
	case "const", "nil":
		return true
	case "load":
		return t.Aux == "0" && engine.Root(t.Args[0]) == recv
	case "res", "param", "iter", "elem":
		return false
	}
	if len(t.Args) == 0 {
		return false
	}
	for _, a := range t.Args {
		if !configTerm(a, recv) {
			return false
		}
	}
	return true
}

func mentionsAny(s *colStream, p *engine.Path) bool { return s.mentions(p.Events, nextPrims) }

// contentLengths: bytes are taken off a contents stream by the length read for the same row.
func contentLengths(c *Check, col *column, p *engine.Path, con string) {
	for _, lp := range loops(p.Events) {
		for _, it := range lp.Iters {
			for _, s := range col.streams {
				for _, e := range s.on(it.Events, nextPrims) {
					if len(e.Args) != 1 {
						continue
					}
					ok := false
					for _, l := range col.streams {
						if l.kind != "LENGTH" {
							continue
						}
						r := l.on(it.Events, nextPrims)
						ok = ok || len(r) == 1 && stripConv(e.Args[0]) == r[0].Res[0]
					}
					c.expect(ok, "lengths come from the length stream", con+" "+s.name, e.Pos, "%s takes %s bytes, not the length read for the row", s.name, e.Args[0])
				}
			}
		}
	}
}

func skipLoop(c *Check, en *engine.Engine, p *engine.Path, rule, con string, s *colStream, rows *engine.Term, want func(it *engine.Path) (int, string)) {
	c.expect(len(s.on(p.Events, nextPrims)) == 0, rule, con, p.RetPos, "%s is read outside of the loop over the rows", s.name)
	n := 0
	for _, lp := range loops(p.Events) {
		used := false
		for _, it := range lp.Iters {
			used = used || s.mentions(it.Events, nextPrims)
		}
		if !used {
			continue
		}
		n++
		if !times(en, lp, p, rows) {
			c.fail(rule, con, lp.Pos, "the loop does not pass over exactly the number of rows asked for before success is reported")
			continue
		}
		for _, it := range lp.Iters {
			w, why := want(it)
			got := len(s.on(it.Events, nextPrims))
			for _, l2 := range loops(it.Events) {
				for _, i2 := range l2.Iters {
					if s.mentions(i2.Events, nextPrims) {
						why = s.name + " is read in a loop inside a row"
					}
				}
			}
			if why != "" {
				c.fail(rule, con, lp.Pos, "%s", why)
			} else if got != w {
				c.fail(rule, con, lp.Pos, "a row skips %d values of %s, %d expected (%s)", got, s.name, w, lits(it))
			}
		}
	}
	if n > 1 {
		c.fail(rule, con, p.RetPos, "%s is consumed by %d loops", s.name, n)
	}
	if n == 0 {
		c.ob(rule, con)
		if w, _ := want(p); w != 0 {
			c.fail(rule, con, p.RetPos, "%s is not consumed at all", s.name)
		}
	}
}

// childSkips: the children skip one row per struct, or as many as the length read, for each row not null.
func childSkips(c *Check, col *column, p *engine.Path, con string, rows *engine.Term, notNull func(it *engine.Path) (bool, bool), nulls bool) {
	en := col.en
	rule := "children are skipped along"
	need := func(it *engine.Path) (*engine.Term, bool) {
		nn, k := notNull(it)
		if !k {
			return nil, false
		}
		if !nn {
			return en.P.Int(0), true
		}
		for _, s := range col.perRow {
			if s.kind == "LENGTH" {
				if r := s.on(it.Events, nextPrims); len(r) == 1 {
					return r[0].Res[0], true
				}
			}
		}
		return nil, false
	}
	check := func(child string, isChild func(evs []*engine.Event, exit *engine.Path) (skipped []*engine.Term, bad string)) {
		cc := con + " " + child
		c.ob(rule, cc)
		// in the loop over the rows
		n := 0
		for _, lp := range loops(p.Events) {
			any := false
			for _, it := range lp.Iters {
				sk, bad := isChild(it.Events, it)
				if bad != "" {
					c.fail(rule, cc, lp.Pos, "%s", bad)
				}
				any = any || len(sk) > 0
			}
			if !any || !times(en, lp, p, rows) {
				continue
			}
			n++
			for _, it := range lp.Iters {
				sk, _ := isChild(it.Events, it)
				nd, ok := need(it)
				if !ok {
					c.fail(rule, cc, lp.Pos, "children are skipped without regard to the row's marker and length")
					continue
				}
				if v, isC := nd.IntVal(); isC && v == 0 {
					c.expect(len(sk) == 0 || len(sk) == 1 && sk[0] == nd, rule, cc, lp.Pos, "a null row skips elements of its child")
					continue
				}
				c.expect(len(sk) == 1 && stripConv(sk[0]) == nd || len(sk) == 1 && sameInt(sk[0], nd), rule, cc, lp.Pos, "a row skips %v elements of its child, %s expected", sk, nd)
			}
		}
		// or once, by a sum made in that loop
		sk, bad := isChild(p.Events, p)
		if bad != "" {
			c.fail(rule, cc, p.RetPos, "%s", bad)
		}
		if n == 0 && len(sk) == 1 {
			c.expect(sumOf(en, p, stripConv(sk[0]), rows, need), rule, cc, p.RetPos, "the children skip %s, which is not the sum over the rows skipped", sk[0])
			n++
		} else if len(sk) > 0 {
			n += len(sk)
		}
		c.expect(n == 1, rule, cc, p.RetPos, "children are skipped at %d places", n)
	}
	isSkip := func(e *engine.Event) bool { return e.Name == "Skip" && e.Iface }
	for _, ch := range col.children {
		ch := ch
		check(ch.String(), func(evs []*engine.Event, _ *engine.Path) (r []*engine.Term, bad string) {
			for _, e := range calls(evs, isSkip) {
				if e.Recv == ch {
					r = append(r, e.Args[0])
				}
			}
			return
		})
	}
	if col.childArr != nil {
		structSkips(c, col, p, con+" children", rows, isSkip, nulls)
	}
}

// structSkips: every child of a struct skips one row for each row which is not null.
func structSkips(c *Check, col *column, p *engine.Path, con string, rows *engine.Term, isSkip func(e *engine.Event) bool, nulls bool) {
	const nullStruct = "a null struct skips the markers of its children"
	en := col.en
	rule := "children are skipped along"
	marker := func(it *engine.Path) *engine.Term {
		if col.present == nil {
			return nil
		}
		if ms := col.present.on(it.Events, nextPrims); len(ms) == 1 {
			return ms[0].Res[0]
		}
		return nil
	}
	c.ob(rule, con)
	// a loop over the children: what each skips, per iteration
	inner := func(lp *engine.Loop, exit *engine.Path, f func(i2 *engine.Path, arg *engine.Term)) bool {
		idx := fullLoop(en, lp, exit, en.Len(col.childArr))
		if idx == nil {
			return false
		}
		for _, i2 := range lp.Iters {
			cs := calls(i2.Events, isSkip)
			switch {
			case len(cs) == 0:
				f(i2, nil)
			case len(cs) == 1 && isElem(cs[0].Recv, col.childArr, idx):
				f(i2, cs[0].Args[0])
			default:
				c.fail(rule, con, lp.Pos, "a child is not skipped exactly once")
			}
		}
		return true
	}
	hasSkip := func(lp *engine.Loop) bool {
		r := false
		for _, it := range lp.Iters {
			deep(it.Events, func(e *engine.Event, _ *engine.Loop) { r = r || e.Kind == "call" && isSkip(e) })
		}
		return r
	}
	n := 0
	for _, lp := range loops(p.Events) {
		if !hasSkip(lp) {
			continue
		}
		n++
		if times(en, lp, p, rows) && fullLoop(en, lp, p, en.Len(col.childArr)) == nil {
			for _, it := range lp.Iters {
				m := marker(it)
				k := 0
				for _, l2 := range loops(it.Events) {
					if !hasSkip(l2) {
						continue
					}
					k++
					ok := inner(l2, it, func(i2 *engine.Path, arg *engine.Term) {
						nn, known := true, true
						if m != nil {
							nn, known = en.Decide(i2.St, m)
						}
						switch {
						case !known:
							c.fail(rule, con, l2.Pos, "a child is skipped without regard to the marker of the row")
						case nn:
							one := int64(0)
							if arg != nil {
								one, _ = arg.IntVal()
							}
							c.expect(one == 1, rule, con, l2.Pos, "a child does not skip one row along with a row which is not null")
						default:
							c.expect(arg == nil || zeroTerm(arg), rule, con, l2.Pos, "a child skips a row along with a null row")
							// every child reads its own marker for the row, null or not, when read
							c.expect(childCalled(i2, col), nullStruct, con, l2.Pos, "for a null row a child's marker is read but not skipped")
						}
					})
					c.expect(ok, rule, con, l2.Pos, "not every child is visited")
				}
				if k == 0 {
					nn, known := true, true
					if m != nil {
						nn, known = en.Decide(it.St, m)
					}
					c.expect(known && !nn, rule, con, lp.Pos, "a row which is not null does not skip the children")
					c.fail(nullStruct, con, lp.Pos, "for a null row a child's marker is read but not skipped")
				}
				c.expect(k <= 1, rule, con, lp.Pos, "children are skipped %d times along with a row", k)
			}
			continue
		}
		// one loop over the children after the rows
		need := func(it *engine.Path) (*engine.Term, bool) {
			m := marker(it)
			if m == nil {
				return en.P.Int(1), true
			}
			v, k := en.Decide(it.St, m)
			if v {
				return en.P.Int(1), k
			}
			return en.P.Int(0), k
		}
		ok := inner(lp, p, func(i2 *engine.Path, arg *engine.Term) {
			if nulls {
				c.expect(childCalled(i2, col), nullStruct, con, lp.Pos, "for a null row a child's marker is read but not skipped")
			}
			c.expect(arg != nil && sumOf(en, p, stripConv(arg), rows, need), rule, con, lp.Pos, "a child does not skip the number of rows skipped which are not null")
		})
		c.expect(ok, rule, con, lp.Pos, "not every child is visited")
	}
	c.expect(n == 1, rule, con, p.RetPos, "children are skipped by %d loops", n)
}

// childCalled tells that some operation other than a Skip of nothing is asked of a child.
func childCalled(it *engine.Path, col *column) bool {
	for _, e := range calls(it.Events, func(e *engine.Event) bool { return e.Iface && e.Recv != nil && isElemOf(e.Recv, col.childArr) }) {
		if e.Name != "Skip" {
			return true
		}
	}
	return false
}

func isElemOf(t, arr *engine.Term) bool {
	t = engine.StripIface(t)
	return t.Op == "load" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == arr
}

func sameInt(a, b *engine.Term) bool {
	x, ok1 := a.IntVal()
	y, ok2 := b.IntVal()
	return ok1 && ok2 && x == y
}

// sumOf tells that t is the sum of need over the iterations of the loop over all rows.
func sumOf(en *engine.Engine, p *engine.Path, t, rows *engine.Term, need func(it *engine.Path) (*engine.Term, bool)) bool {
	for _, lp := range loops(p.Events) {
		if !times(en, lp, p, rows) {
			continue
		}
		for _, ph := range lp.Phis {
			if ph.Term != t {
				continue
			}
			if v, ok := ph.Init.IntVal(); !ok || v != 0 {
				return false
			}
			for i, it := range lp.Iters {
				nd, ok := need(it)
				if !ok {
					return false
				}
				d := en.P.Add(ph.Next[i], ph.Term, -1, types.Typ[types.Int])
				if d != nd && stripConv(d) != nd && !sameInt(d, nd) {
					return false
				}
			}
			return true
		}
	}
	// every row counts one
	return stripConv(t) == rows && rowsAllNeedOne(p, need)
}

func rowsAllNeedOne(p *engine.Path, need func(it *engine.Path) (*engine.Term, bool)) bool {
	nd, ok := need(p)
	if !ok {
		return false
	}
	v, k := nd.IntVal()
	return k && v == 1
}
