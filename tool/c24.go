package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C24"] = property{"accounting over go/ssa path summaries: the linear form of each size has every live stream or buffer exactly once, the stripe sums up all columns, a row is followed by the comparison with the configured size on every path, what a column keeps outside of its streams enlarges its size", rulesC24}
}

func rulesC24(c *Check) {
	rule := "the size of a column counts each of its streams once"
	for _, col := range c.writers(rule) {
		for _, nulls := range []bool{false, true} {
			columnSize(c, col, nulls)
		}
	}
	c.atLeast(rule, 20)
	c.atLeast(ruleHeld, 1)
	streamSize(c)
	sizeWatched(c)
}

const ruleHeld = "what a column holds back enlarges its size"

// sizeCall returns the object a term is the size or length of.
func sizeCall(t *engine.Term, name string) (*engine.Term, bool) {
	ev, ok := t.Any.(*engine.Event)
	if t.Op != "res" || !ok || ev.Kind != "call" || ev.Name != name || ev.Recv == nil || len(ev.Args) > 1 {
		return nil, false
	}
	return engine.StripIface(ev.Recv), true
}

func columnSize(c *Check, col *column, nulls bool) {
	rule := "the size of a column counts each of its streams once"
	con := col.name + cfgName(nulls)
	en := col.en
	fn, s := c.runMethod(col, rule, "Size", col.withNulls(nulls))
	if fn == nil {
		return
	}
	c.ob(rule, con)
	own := map[*engine.Term]bool{}
	ps := good(en, fn, s)
	c.expect(len(ps) > 0, rule, con, fn.Pos(), "no path gives a size")
	for _, p := range ps {
		ad, ok := addends(en, p.Ret[0])
		if !c.expect(ok, rule, con, p.RetPos, "the size %s is no sum [%s]", p.Ret[0], lits(p)) {
			continue
		}
		n := map[*colStream]int{}
		for _, x := range ad {
			if v, ok := x.t.IntVal(); ok {
				c.expect(v >= 0, rule, con, p.RetPos, "the size is less by %d than what the streams hold", -v)
				continue
			}
			r, isSize := sizeCall(x.t, "Size")
			st := (*colStream)(nil)
			if isSize {
				st = col.streamOf(r)
			}
			switch {
			case st != nil && x.lp == nil:
				n[st]++
			case x.t.Op == "load" && engine.Root(loadAddr(x.t)) == col.recv && x.lp == nil:
				own[x.t] = true
			default:
				c.fail(rule, con, p.RetPos, "the size contains %s", x.t)
			}
		}
		for _, st := range col.live(nulls) {
			c.expect(n[st] == 1, rule, con, p.RetPos, "the size counts stream %s %d times [%s]", st.name, n[st], lits(p))
			delete(n, st)
		}
		for st := range n {
			c.fail(rule, con, p.RetPos, "the size counts stream %s, which is not there without nulls", st.name)
		}
	}
	heldBack(c, col, nulls, own)
}

// heldBack: a value kept outside of the streams until the flush enlarges a cell which is part of the size.
func heldBack(c *Check, col *column, nulls bool, own map[*engine.Term]bool) {
	en := col.en
	con := col.name + cfgName(nulls)
	fn := c.W.method(col.T, "Write")
	if !c.expect(fn != nil, ruleHeld, con, 0, "method Write not found") {
		return
	}
	val := en.P.Mk("param", "value", fn.Params[len(fn.Params)-1].Type())
	_, s := c.runMethod(col, ruleHeld, "Write", col.withNulls(nulls), val)
	for _, p := range good(en, fn, s) {
		var keys []*engine.Event
		kept := 0
		for _, a := range flat(p) {
			switch {
			case a.e.Kind == "call" && a.e.Name == "mapupdate" && engine.Root(loadAddr(a.e.Recv)) == col.recv:
				keys = append(keys, a.e)
				kept++
			case a.e.Kind == "store" && engine.Root(a.e.Addr) == col.recv && a.e.Val.Op == "seq" && a.e.Val.Contains(val):
				kept++
			}
		}
		if kept == 0 {
			continue
		}
		c.ob(ruleHeld, con)
		grown := en.P.Int(0)
		var ts []*engine.Term
		for t := range own {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
		for _, t := range ts {
			now := stripConv(en.Load(p.St, loadAddr(t), t.Typ))
			grown = en.P.Add(grown, en.P.Add(now, t, -1, t.Typ), 1, t.Typ)
		}
		v, k := en.Decide(p.St, en.Le(en.P.Int(1), grown))
		c.expect(k && v, ruleHeld, con, p.RetPos, "a value is kept until the flush, but the size changes by %s [%s]", grown, lits(p))
		for _, e := range keys {
			if len(e.Args) < 1 || !isText(e.Args[0].Typ) || knownKey(en, p, e) {
				continue
			}
			key := engine.StripIface(e.Args[0])
			lin := en.P.LinOf(stripConv(grown))
			c.expect(lin.Coef[en.Len(key)] >= 1, ruleHeld, con, e.Pos, "%s is kept until the flush, but the size changes by %s [%s]", key, grown, lits(p))
		}
	}
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// knownKey tells that a path knows the key of an update to be in the map before.
func knownKey(en *engine.Engine, p *engine.Path, e *engine.Event) bool {
	for _, l := range p.Lits {
		found := false
		walkTerm(l.Cond, func(t *engine.Term) {
			if len(t.Args) != 2 || t.Args[0] != e.Recv || t.Args[1] != e.Args[0] {
				return
			}
			switch t.Op {
			case "has":
				found = found || l.Cond == t && l.Val
			case "lookup":
				if v, k := en.Decide(p.St, isNil(en, t)); k && !v {
					found = true
				}
				if v, k := en.Decide(p.St, en.Le(en.P.Int(1), en.Len(t))); k && v {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// streamSize: the size of a stream is what its buffers hold.
func streamSize(c *Check) {
	rule := "the size of a stream is what its buffers hold"
	for _, t := range c.W.implementers(streamPkg, "Writer") {
		for _, comp := range []bool{false, true} {
			con := t.Obj().Name() + compName(comp)
			en := c.W.streamEngine()
			recv := en.P.Mk("param", "w", types.NewPointer(t))
			as := withCompression(en, recv, recv.Typ, comp)
			sz := c.W.method(t, "Size")
			if !c.expect(sz != nil, rule, con, 0, "method Size not found") {
				continue
			}
			c.ob(rule, con)
			bufs := map[*engine.Term]string{}
			allFields(t, func(path []int, v *types.Var) {
				if isBytesBuffer(v.Type()) {
					a, ft := addrOf(en, recv, types.NewPointer(t), path)
					bufs[en.P.Mk("load", "0", ft, a)] = v.Name()
				}
			})
			live := map[*engine.Term]bool{}
			for _, m := range []string{"Write", "Flush", "WriteOut"} {
				fn := c.W.method(t, m)
				if !c.expect(fn != nil, rule, con, 0, "method %s not found", m) {
					continue
				}
				args := []*engine.Term{recv}
				for _, q := range fn.Params[1:] {
					args = append(args, en.P.Mk("param", q.Name(), q.Type()))
				}
				for _, p := range good(en, fn, c.run(en, rule, fn, args, as)) {
					for _, a := range flat(p) {
						if a.e.Kind != "call" {
							continue
						}
						for _, x := range append([]*engine.Term{a.e.Recv}, a.e.Args...) {
							if x != nil && bufs[engine.StripIface(x)] != "" {
								live[engine.StripIface(x)] = true
							}
						}
					}
				}
			}
			c.expect(len(live) > 0, rule, con, sz.Pos(), "no buffers are used")
			s := c.run(en, rule, sz, []*engine.Term{recv}, as)
			ps := good(en, sz, s)
			c.expect(len(ps) > 0, rule, con, sz.Pos(), "no path gives a size")
			for _, p := range ps {
				ad, ok := addends(en, p.Ret[0])
				if !c.expect(ok, rule, con, p.RetPos, "the size %s is no sum [%s]", p.Ret[0], lits(p)) {
					continue
				}
				n := map[*engine.Term]int{}
				for _, x := range ad {
					r, isLen := sizeCall(x.t, "Len")
					if !isLen {
						if x.t.Op == "len" {
							r, isLen = sizeCall(x.t.Args[0], "Bytes")
						}
					}
					if c.expect(isLen && bufs[r] != "" && x.lp == nil, rule, con, p.RetPos, "the size contains %s", x.t) {
						n[r]++
					}
				}
				for b, name := range bufs {
					if live[b] {
						c.expect(n[b] == 1, rule, con, p.RetPos, "the size counts buffer %s %d times [%s]", name, n[b], lits(p))
					} else {
						c.expect(n[b] == 0, rule, con, p.RetPos, "the size counts buffer %s, which is not in use [%s]", name, lits(p))
					}
				}
			}
		}
	}
	c.atLeast(rule, 2)
}

// sizeWatched: after every row the sizes of all columns are summed up, and unless they stay below the
// configured size the stripe is flushed.
func sizeWatched(c *Check) {
	rule := "a stripe which reached its size is flushed after the row"
	w := c.W
	fn, fl := w.fn("orc", "stripeWriter.write"), w.fn("orc", "stripeWriter.flushOut")
	if !c.expect(fn != nil && fl != nil, rule, "write", 0, "functions not found") {
		return
	}
	en := w.fileEngine()
	old := en.Opaque
	en.Opaque = func(f *ssa.Function) bool {
		return f == fl || rowWriter(w, f) || f.Name() == "Len" && f.Signature.Recv() != nil || old != nil && old(f)
	}
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	cws := columnSlice(en, recv)
	opts := fieldTerm(en, recv, recv.Typ, ofType("orc/config.WriterOptions"))
	if !c.expect(cws != nil && opts != nil, rule, "write", fn.Pos(), "columns or options not found") {
		return
	}
	limit := fieldTerm(en, opts, opts.Typ, named("StripeSize"))
	if !c.expect(limit != nil, rule, "write", fn.Pos(), "the stripe size is not found") {
		return
	}
	n := 0
	for _, p := range good(en, fn, s) {
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			row := false
			deep([]*engine.Event{ev}, func(e *engine.Event, _ *engine.Loop) { row = row || rowCall(e) })
			if !row {
				continue
			}
			for _, it := range ev.Loop.Iters {
				n++
				c.ob(rule, "write")
				last, flush := -1, -1
				for i, e := range it.Events {
					if rowCall(e) {
						last = i
					}
					if isMethod(e, fl) {
						flush = i
					}
				}
				if flush >= 0 && flush > last {
					c.expect(reached(en, it, last, cws, limit), rule, "write", pos(it, ev.Loop), "the stripe is flushed although its size is not known to have reached the configured one [%s]", lits(it))
					continue
				}
				c.expect(staysBelow(en, it, last, cws, limit), rule, "write", pos(it, ev.Loop), "a row is written, and the stripe goes on although its size is not known to be below the configured one [%s]", lits(it))
			}
		}
	}
	c.expect(n > 0, rule, "write", fn.Pos(), "no rows are written")
	c.atLeast(rule, 1)
}

func pos(it *engine.Path, lp *engine.Loop) token.Pos {
	if it.RetPos.IsValid() {
		return it.RetPos
	}
	return lp.Pos
}

// columnSums finds where sizes of columns are summed up after event from.
func columnSums(en *engine.Engine, it *engine.Path, from int, cws *engine.Term, f func(lp *engine.Loop, ph *engine.LoopPhi, idx *engine.Term) bool) bool {
	for _, e := range it.Events[from+1:] {
		if e.Kind != "loop" {
			continue
		}
		for _, ph := range e.Loop.Phis {
			if len(ph.Next) != len(e.Loop.Iters) || !zeroTerm(stripConv(ph.Init)) {
				continue
			}
			idx := fullLoop(en, e.Loop, it, en.Len(cws))
			sums := len(ph.Next) > 0 || idx == nil
			for _, nx := range ph.Next {
				r, ok := sizeCall(stripConv(en.P.Add(nx, ph.Term, -1, ph.Term.Typ)), "Size")
				sums = sums && ok && (idx == nil || isElem(r, cws, idx))
			}
			if sums && f(e.Loop, ph, idx) {
				return true
			}
		}
	}
	return false
}

// reached tells that sizes of columns, summed up after event from, are known to reach the limit.
func reached(en *engine.Engine, it *engine.Path, from int, cws, limit *engine.Term) bool {
	return columnSums(en, it, from, cws, func(lp *engine.Loop, ph *engine.LoopPhi, idx *engine.Term) bool {
		at := []*engine.Term{ph.Term}
		for _, l := range it.Lits {
			if len(l.Cond.Args) != 1 {
				continue
			}
			for x := range en.P.LinOf(l.Cond.Args[0]).Coef {
				if _, ok := sizeCall(x, "Size"); ok {
					at = append(at, en.P.Add(ph.Term, x, 1, ph.Term.Typ))
				}
			}
		}
		for _, t := range at {
			if v, k := en.Decide(it.St, en.Le(limit, t)); k && v {
				return true
			}
		}
		return false
	})
}

// staysBelow tells that after event from the path sums up the sizes of all columns and knows the sum to be
// below the limit.
func staysBelow(en *engine.Engine, it *engine.Path, from int, cws, limit *engine.Term) bool {
	less := func(st *engine.State, t *engine.Term) bool {
		v, k := en.Decide(st, en.Le(en.P.Add(t, en.P.Int(1), 1, t.Typ), limit))
		return k && v
	}
	return columnSums(en, it, from, cws, func(lp *engine.Loop, ph *engine.LoopPhi, idx *engine.Term) bool {
		if idx == nil {
			return false
		}
		each := true
		for i, nx := range ph.Next {
			each = each && less(lp.Iters[i].St, nx)
		}
		return each || less(it.St, ph.Term)
	})
}
