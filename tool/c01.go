package main

import (
	"go/types"
	"strings"

	"goorcvet/engine"
)

var nextPrims = map[string]bool{"Next": true, "NextInt64": true, "NextUInt64": true, "NextBytes": true, "NextString": true,
	"NextFloat": true, "NextDouble": true}

var writePrim = map[string]bool{"Write": true}

func init() {
	properties["C01"] = property{"path summaries of every column writer's Write and every column reader's NextBatch (loops by a generic iteration, helpers inlined): on every path reporting success the number of marker and value operations on each stream of the column is compared with the row's null marker", rulesC01}
	properties["C02"] = property{"per-iteration stream consumption of every column reader's Skip, summarised path by path, compared with the consumption a read row has; child columns included", rulesC02}
}

func cfgName(nulls bool) string {
	if nulls {
		return "nullable"
	}
	return "no nulls"
}

func rulesC01(c *Check) {
	for _, col := range c.writers("writer") {
		writerRows(c, col)
	}
	for _, col := range c.readers("reader") {
		readerRows(c, col)
	}
	c.atLeast("one marker per row", 20)
	c.atLeast("values follow the marker", 30)
	c.atLeast("one marker read per row", 11)
	c.atLeast("values read follow the marker", 13)
}

// writerRows: on every successful path of Write one marker, and one value per stream iff not null.
func writerRows(c *Check, col *column) {
	en := col.en
	for _, nulls := range []bool{true, false} {
		fn := c.W.method(col.T, "Write")
		if fn == nil {
			continue
		}
		val := en.P.Mk("param", "value", fn.Params[1].Type())
		null := en.P.Mk("fval", "Null", types.Typ[types.Bool], val)
		fn, s := c.runMethod(col, "one marker per row", "Write", col.withNulls(nulls), val)
		if s == nil {
			continue
		}
		con := col.name + ".Write " + cfgName(nulls)
		okPaths := good(en, fn, s)
		c.expect(len(okPaths) > 0, "one marker per row", con, fn.Pos(), "no path of Write succeeds")
		for _, p := range okPaths {
			c.sites++
			if col.present != nil {
				ms := col.present.on(p.Events, writePrim)
				want := 0
				if nulls {
					want = 1
				}
				c.expect(len(ms) == want && !inLoop(col.present, p), "one marker per row", con, p.RetPos, "a path of %s writes %d null markers for a row, %d expected (%s)", fn.Name(), len(ms), want, lits(p))
				for _, m := range ms {
					a := engine.StripIface(m.Args[0])
					c.expect(a == notTerm(en, null), "one marker per row", con, m.Pos, "the marker written is %s, not the negation of the row's Null", a)
				}
			} else {
				c.ob("one marker per row", con)
			}
			isNull, known := en.Decide(p.St, null)
			for _, v := range col.perRow {
				vc := con + " " + v.name
				n := len(v.on(p.Events, writePrim))
				c.expect(!inLoop(v, p), "values follow the marker", vc, p.RetPos, "values are written to %s in a loop", v.name)
				if len(col.dict) > 0 {
					dictWrite(c, col, v, p, vc, isNull, known)
					continue
				}
				switch {
				case !known && nulls:
					c.fail("values follow the marker", vc, p.RetPos, "a path succeeds without regard to whether the row is null")
				case known && isNull:
					c.expect(n == 0, "values follow the marker", vc, p.RetPos, "%d values written to %s for a null row", n, v.name)
				default:
					c.expect(n == 1, "values follow the marker", vc, p.RetPos, "%d values written to %s for a row which is not null", n, v.name)
				}
			}
		}
	}
	if len(col.dict) > 0 {
		dictFlush(c, col)
	}
}

func inLoop(s *colStream, p *engine.Path) bool {
	for _, lp := range loops(p.Events) {
		for _, it := range lp.Iters {
			if s.mentions(it.Events, writePrim) {
				return true
			}
		}
	}
	return false
}

func notTerm(en *engine.Engine, t *engine.Term) *engine.Term {
	return en.P.Mk("!", "", types.Typ[types.Bool], t)
}

func lits(p *engine.Path) string {
	var r []string
	for _, l := range p.Lits {
		r = append(r, l.String())
	}
	s := strings.Join(r, " & ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// dictWrite: a dictionary writer remembers the position of each non-null value and counts it.
func dictWrite(c *Check, col *column, v *colStream, p *engine.Path, con string, isNull, known bool) {
	ups := calls(p.Events, func(e *engine.Event) bool { return e.Name == "mapupdate" && engine.Root(loadAddr(e.Recv)) == col.recv })
	cnt := 0
	var ctr *engine.Term
	for a, val := range p.Writes {
		if engine.Root(a) != col.recv || val.Typ == nil || !isIntType(val.Typ) {
			continue
		}
		old := col.en.P.Mk("load", "0", val.Typ, a)
		if val == col.en.P.Add(old, col.en.P.Int(1), 1, val.Typ) && directField(col, a) && a.Aux != "indexInRows" {
			cnt++
			ctr = old
		}
	}
	if known && isNull {
		c.expect(len(ups) == 0 && cnt == 0, "values follow the marker", con, p.RetPos, "a null row is entered into the dictionary")
		return
	}
	ok := len(ups) == 1 && cnt == 1
	c.expect(ok, "values follow the marker", con, p.RetPos, "a row which is not null is entered %d times into the dictionary and counted %d times", len(ups), cnt)
	if ok {
		parts := col.en.Parts(ups[0].Args[1])
		last := parts[len(parts)-1]
		c.expect(len(parts) > 1 && last.Op == "e" && last.Args[0] == ctr, "values follow the marker", con, ups[0].Pos, "the dictionary entry does not get the position of the row appended")
	}
}

func directField(col *column, a *engine.Term) bool { return a.Op == "field" && a.Args[0] == col.recv }

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func loadAddr(t *engine.Term) *engine.Term {
	if t == nil {
		return nil
	}
	if t.Op == "load" {
		return t.Args[0]
	}
	return t
}

// dictFlush: flushing writes one index per counted row, and contents with length per dictionary entry.
func dictFlush(c *Check, col *column) {
	en := col.en
	fn, s := c.runMethod(col, "values follow the marker", "Flush", nil)
	if s == nil {
		return
	}
	var lenS, dataS *colStream
	for _, d := range col.dict {
		if d.kind == "LENGTH" {
			lenS = d
		} else {
			dataS = d
		}
	}
	con := col.name + ".Flush dictionary"
	if !c.expect(lenS != nil && dataS != nil && len(col.perRow) == 1, "values follow the marker", con, fn.Pos(), "streams of the dictionary not recognised") {
		return
	}
	idx := col.perRow[0]
	for _, p := range good(en, fn, s) {
		rows, entries := 0, 0
		for _, lp := range loops(p.Events) {
			has := func(st *colStream) bool {
				for _, it := range lp.Iters {
					if st.mentions(it.Events, writePrim) {
						return true
					}
				}
				return false
			}
			if has(idx) {
				n := loopOver(en, lp, p)
				okc := n != nil && n.Op == "load" && directField(col, n.Args[0])
				for _, it := range lp.Iters {
					okc = okc && len(idx.on(it.Events, writePrim)) == 1
				}
				c.expect(okc, "values follow the marker", con, lp.Pos, "not exactly one dictionary index is written for each value counted")
				rows++
			}
			if has(lenS) || has(dataS) {
				okc := loopOver(en, lp, p) != nil
				for _, it := range lp.Iters {
					l, d := lenS.on(it.Events, writePrim), dataS.on(it.Events, writePrim)
					okc = okc && len(l) == 1 && len(d) == 1
					if okc {
						okc = stripConv(l[0].Args[0]) == en.Len(stripConv(d[0].Args[0])) || en.Len(stripConv(d[0].Args[0])) == en.Len(engine.StripIface(d[0].Args[0])) && stripConv(l[0].Args[0]) == en.Len(engine.StripIface(d[0].Args[0]))
					}
				}
				c.expect(okc, "values follow the marker", con, lp.Pos, "dictionary entries are not each written once with their length")
				entries++
			}
		}
		c.expect(rows == 1 && entries == 1, "values follow the marker", con, p.RetPos, "indices are written by %d loops, dictionary entries by %d", rows, entries)
	}
}

// loopOver returns the count of a loop visiting 0..n-1: the length of the slice it ranges over.
func loopOver(en *engine.Engine, lp *engine.Loop, exit *engine.Path) *engine.Term {
	for _, l := range exit.Lits {
		if l.Cond.Op != "le0" || !l.Val {
			continue
		}
		lin := en.P.LinOf(l.Cond.Args[0])
		for t, k := range lin.Coef {
			if k == 1 && t.Op != "iter" && fullLoop(en, lp, exit, t) != nil {
				return t
			}
		}
	}
	return nil
}

// readerRows: every row of the batch consumes one marker, and one value per stream iff not null.
func readerRows(c *Check, col *column) {
	en := col.en
	fn0 := c.W.method(col.T, "NextBatch")
	if fn0 == nil {
		c.fail("one marker read per row", col.name, 0, "no NextBatch")
		return
	}
	vec := en.P.Mk("param", "vec", fn0.Params[1].Type())
	vector := fieldTerm(en, vec, vec.Typ, named("Vector"))
	for _, nulls := range []bool{true, false} {
		fn, s := c.runMethod(col, "one marker read per row", "NextBatch", col.withNulls(nulls), vec)
		if s == nil {
			continue
		}
		con := col.name + ".NextBatch " + cfgName(nulls)
		paths := good(en, fn, s)
		c.expect(len(paths) > 0, "one marker read per row", con, fn.Pos(), "no path succeeds")
		for _, p := range paths {
			c.sites++
			if col.present != nil {
				perRowLoop(c, en, p, "one marker read per row", con, col.present, vector, func(it *engine.Path, idx *engine.Term) (int, string) {
					if !nulls {
						return 0, ""
					}
					ms := col.present.on(it.Events, nextPrims)
					if len(ms) == 1 {
						want := notTerm(en, ms[0].Res[0])
						addr := nullCell(en, vector, idx)
						if got, ok := it.Writes[addr]; !ok || got != want && !equalOn(en, it, got, want) {
							return 1, "the row's Null is not set to the negation of its marker"
						}
					}
					return 1, ""
				})
			}
			for _, v := range col.perRow {
				perRowLoop(c, en, p, "values read follow the marker", con+" "+v.name, v, vector, func(it *engine.Path, idx *engine.Term) (int, string) {
					isNull, known := nullOn(en, it, nullCell(en, vector, idx))
					if !known {
						return -1, "values are read without regard to the row's Null"
					}
					if isNull {
						return 0, ""
					}
					return 1, ""
				})
			}
			dictLoad(c, col, p, con)
			childRows(c, col, p, con, vec, vector, nulls)
		}
	}
}

func equalOn(en *engine.Engine, p *engine.Path, a, b *engine.Term) bool {
	x, k1 := en.Decide(p.St, a)
	y, k2 := en.Decide(p.St, b)
	return k1 && k2 && x == y
}

func nullCell(en *engine.Engine, vector, idx *engine.Term) *engine.Term {
	el := vector.Typ.Underlying().(*types.Slice).Elem()
	e := en.ElemAddr(vector, idx, el)
	st := el.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Null" {
			return en.FieldAddr(e, st, i)
		}
	}
	return e
}

// nullOn tells what an iteration knows of the contents of a Null cell.
func nullOn(en *engine.Engine, it *engine.Path, addr *engine.Term) (val, known bool) {
	if v, ok := it.Writes[addr]; ok {
		return en.Decide(it.St, v)
	}
	for _, l := range it.Lits {
		t, v := l.Cond, l.Val
		for t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if t.Op == "load" && t.Args[0] == addr {
			return v, true
		}
	}
	return false, false
}

// perRowLoop checks that a stream is consumed as wanted in exactly one loop over all rows.
func perRowLoop(c *Check, en *engine.Engine, p *engine.Path, rule, con string, s *colStream, vector *engine.Term, want func(it *engine.Path, idx *engine.Term) (int, string)) {
	direct := s.on(p.Events, nextPrims)
	c.expect(len(direct) == 0, rule, con, p.RetPos, "%s is read outside of the loop over the rows", s.name)
	n := 0
	for _, lp := range loops(p.Events) {
		used := false
		for _, it := range lp.Iters {
			used = used || s.mentions(it.Events, nextPrims)
		}
		if !used {
			continue
		}
		n++
		idx := fullLoop(en, lp, p, en.Len(vector))
		if idx == nil {
			c.fail(rule, con, lp.Pos, "the loop reading %s does not visit each row of the batch once and in order before success is reported", s.name)
			continue
		}
		for _, it := range lp.Iters {
			w, why := want(it, idx)
			got := len(s.on(it.Events, nextPrims))
			nested := false
			for _, l2 := range loops(it.Events) {
				for _, i2 := range l2.Iters {
					nested = nested || s.mentions(i2.Events, nextPrims)
				}
			}
			switch {
			case why != "":
				c.fail(rule, con, lp.Pos, "%s (%s)", why, lits(it))
			case nested:
				c.fail(rule, con, lp.Pos, "%s is read in a loop inside a row", s.name)
			case got != w:
				c.fail(rule, con, lp.Pos, "a row reads %d values of %s, %d expected (%s)", got, s.name, w, lits(it))
			}
		}
	}
	if n > 1 {
		c.fail(rule, con, p.RetPos, "%s is read by %d loops over the rows", s.name, n)
	}
	if n == 0 {
		// right only if nothing was to be read
		c.ob(rule, con)
		if w, _ := wantOutside(en, p, want); w != 0 {
			c.fail(rule, con, p.RetPos, "%s is not read at all", s.name)
		}
	}
}

func wantOutside(en *engine.Engine, p *engine.Path, want func(it *engine.Path, idx *engine.Term) (w int, why string)) (int, string) {
	return want(p, en.P.Mk("param", "anyrow", types.Typ[types.Int]))
}

// dictLoad: all entries of a dictionary are loaded, one length and one string each.
func dictLoad(c *Check, col *column, p *engine.Path, con string) {
	var lenS, dataS *colStream
	for _, d := range col.dict {
		if d.kind == "LENGTH" {
			lenS = d
		} else {
			dataS = d
		}
	}
	if lenS == nil || dataS == nil {
		return
	}
	con += " dictionary"
	for _, lp := range loops(p.Events) {
		used := false
		for _, it := range lp.Iters {
			used = used || lenS.mentions(it.Events, nextPrims) || dataS.mentions(it.Events, nextPrims)
		}
		if !used {
			continue
		}
		c.ob("values read follow the marker", con)
		for _, it := range lp.Iters {
			l, d := lenS.on(it.Events, nextPrims), dataS.on(it.Events, nextPrims)
			ok := len(l) == 1 && len(d) == 1 && len(d[0].Args) == 1 && stripConv(d[0].Args[0]) == l[0].Res[0]
			c.expect(ok, "values read follow the marker", con, lp.Pos, "a dictionary entry is not read as one length and that many bytes")
			fin := calls(it.Events, func(e *engine.Event) bool { return e.Name == "Finished" })
			if len(fin) == 1 {
				v, k := en(col).Decide(it.St, fin[0].Res[0])
				c.expect(k && !v && engine.StripIface(fin[0].Recv) == lenS.term, "values read follow the marker", con, lp.Pos, "the dictionary is not read while lengths are left")
			} else {
				c.fail("values read follow the marker", con, lp.Pos, "the end of the dictionary is not asked for once per entry")
			}
		}
		fin := calls(p.Events, func(e *engine.Event) bool { return e.Name == "Finished" })
		if len(fin) == 1 {
			v, k := en(col).Decide(p.St, fin[0].Res[0])
			c.expect(k && v, "values read follow the marker", con, lp.Pos, "loading the dictionary stops before its end")
		}
	}
}

func en(col *column) *engine.Engine { return col.en }

// childRows: child columns are read once, for all their elements.
func childRows(c *Check, col *column, p *engine.Path, con string, vec, vector *engine.Term, nulls bool) {
	en := col.en
	isNB := func(e *engine.Event) bool { return e.Name == "NextBatch" }
	chVec := fieldTerm(en, vec, vec.Typ, named("Children"))
	rule := "children are read along"
	if col.childArr != nil {
		// one call per child, with the vector of the same place
		n := 0
		for _, lp := range loops(p.Events) {
			any := false
			for _, it := range lp.Iters {
				any = any || len(calls(it.Events, isNB)) > 0
			}
			if !any {
				continue
			}
			n++
			idx := fullLoop(en, lp, p, en.Len(col.childArr))
			if !c.expect(idx != nil, rule, con, lp.Pos, "not every child column is visited") {
				continue
			}
			for _, it := range lp.Iters {
				cs := calls(it.Events, isNB)
				ok := len(cs) == 1 && isElem(cs[0].Recv, col.childArr, idx) && isElem(cs[0].Args[0], chVec, idx)
				c.expect(ok, rule, con, lp.Pos, "a child column is not read exactly once into the vector of its place")
			}
		}
		c.expect(n == 1 && len(calls(p.Events, isNB)) == 0, rule, con, p.RetPos, "the children are read by %d loops", n)
		if nulls {
			fillRule(c, col, p, con, vec, vector, chVec)
		}
		return
	}
	for k, ch := range col.children {
		cs := calls(p.Events, func(e *engine.Event) bool { return isNB(e) && e.Recv == ch })
		if !c.expect(len(cs) == 1, rule, con, p.RetPos, "child column %s is read %d times for a batch", ch, len(cs)) {
			continue
		}
		a := cs[0].Args[0]
		c.expect(a.Op == "load" && isElem(a, chVec, en.P.Int(int64(k))), rule, con, cs[0].Pos, "child %d is read into %s", k, a)
		childElems(c, col, p, con, a, vector)
	}
	if len(col.children) > 0 {
		// markers and lengths are all consumed before
		seen := false
		for _, e := range p.Events {
			if e.Kind == "call" && isNB(e) {
				seen = true
			}
			if seen && e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					for _, s := range col.streams {
						c.expect(!s.mentions(it.Events, nextPrims), rule, con, e.Pos, "children are read before the rows' lengths")
					}
				}
			}
		}
	}
}

func isElem(t, arr, idx *engine.Term) bool {
	t = engine.StripIface(t)
	return t.Op == "load" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == arr && t.Args[0].Args[1] == idx
}

// childElems: the child's vector is emptied, then gets as many fresh elements as each row's length says.
func childElems(c *Check, col *column, p *engine.Path, con string, child, vector *engine.Term) {
	en := col.en
	rule := "children get one element per length"
	st := child.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var cell *engine.Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Vector" {
			cell = en.FieldAddr(child, st, i)
		}
	}
	done := false
	for _, lp := range loops(p.Events) {
		var ph *engine.LoopPhi
		for _, x := range lp.Phis {
			if x.Name == "mem:"+strings.TrimPrefix(cell.String(), "&") {
				ph = x
			}
		}
		if ph == nil {
			continue
		}
		done = true
		c.expect(fullLoop(en, lp, p, en.Len(vector)) != nil, rule, con, lp.Pos, "elements are not made for each row")
		v, ok := en.Len(ph.Init).IntVal()
		c.expect(ok && v == 0, rule, con, lp.Pos, "the child's vector is not emptied before its elements are counted out: %s", ph.Init)
		for i, it := range lp.Iters {
			var ln *engine.Term
			for _, s := range col.perRow {
				if s.kind == "LENGTH" {
					if r := s.on(it.Events, nextPrims); len(r) == 1 {
						ln = r[0].Res[0]
					}
				}
			}
			n, fresh := grown(en, ph.Next[i], ph.Term, it)
			switch {
			case ln == nil:
				v, k := int64(1), false
				if n != nil {
					v, k = n.IntVal()
				}
				c.expect(k && v == 0, rule, con, lp.Pos, "a row without length adds elements to the child's vector")
			default:
				c.expect(n != nil && fresh && stripConv(n) == ln, rule, con, lp.Pos, "a row does not add as many empty elements to the child's vector as its length says")
			}
		}
	}
	c.expect(done, rule, con, p.RetPos, "the elements of the child's vector are not counted out")
}

// grown tells by how many elements next is longer than cur, and whether they are all zero values.
func grown(en *engine.Engine, next, cur *engine.Term, it *engine.Path) (*engine.Term, bool) {
	if next == cur {
		return en.P.Int(0), true
	}
	// an inner loop appending one at a time
	if next.Op == "iter" {
		for _, lp := range loops(it.Events) {
			for _, ph := range lp.Phis {
				if ph.Term != next || ph.Init != cur {
					continue
				}
				fresh := true
				for _, nx := range ph.Next {
					ps := en.Parts(nx)
					if len(ps) != 2 || ps[0].Op != "s" || ps[0].Args[0] != ph.Term || ps[1].Op != "e" {
						return nil, false
					}
					fresh = fresh && zeroTerm(ps[1].Args[0])
				}
				if len(ph.Next) == 0 {
					return en.P.Int(0), true
				}
				n := loopOver(en, lp, it)
				if n == nil {
					n = countdown(en, lp, it)
				}
				return n, fresh
			}
		}
		return nil, false
	}
	ps := en.Parts(next)
	if len(ps) < 1 || ps[0].Op != "s" || ps[0].Args[0] != cur {
		return nil, false
	}
	if len(ps) == 2 && ps[1].Op == "s" && ps[1].Args[0].Op == "make" {
		return en.Len(ps[1].Args[0]), true
	}
	return nil, false
}

func countdown(en *engine.Engine, lp *engine.Loop, exit *engine.Path) *engine.Term {
	for _, ph := range lp.Phis {
		if ph.Init.Op != "const" && ph.Init.Op != "iter" && times(en, lp, exit, ph.Init) {
			return ph.Init
		}
	}
	return nil
}

func zeroTerm(t *engine.Term) bool {
	switch t.Op {
	case "nil", "zero":
		return true
	case "const":
		if v, ok := t.BoolVal(); ok {
			return !v
		}
		if v, ok := t.IntVal(); ok {
			return v == 0
		}
		if v, ok := t.StringVal(); ok {
			return v == ""
		}
	case "struct":
		for _, a := range t.Args {
			if !zeroTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

// fillRule: a null struct makes the values of all its children null, whatever was there before.
func fillRule(c *Check, col *column, p *engine.Path, con string, vec, vector, chVec *engine.Term) {
	en := col.en
	rule := "null structs have null children"
	ok := false
	pos := -1
	for i, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		idx := fullLoop(en, e.Loop, p, en.Len(chVec))
		if idx == nil {
			continue
		}
		all := len(e.Loop.Iters) > 0
		for _, it := range e.Loop.Iters {
			hit := false
			for _, l2 := range loops(it.Events) {
				row := fullLoop(en, l2, it, en.Len(vector))
				if row == nil {
					continue
				}
				each := len(l2.Iters) > 0
				for _, i2 := range l2.Iters {
					st := false
					for _, e2 := range i2.Events {
						if e2.Kind == "store" && e2.Addr.Op == "field" && e2.Addr.Aux == "Null" && e2.Addr.Args[0].Op == "elem" && e2.Addr.Args[0].Args[1] == row {
							base := e2.Addr.Args[0].Args[0]
							v := e2.Val
							if base.Op == "load" && base.Args[0].Op == "field" && isElem(base.Args[0].Args[0], chVec, idx) && v.Op == "load" && v.Args[0] == nullCell(en, vector, row) {
								st = true
							}
						}
					}
					each = each && st
				}
				hit = hit || each
			}
			all = all && hit
		}
		if all {
			ok = true
			pos = i
		}
	}
	c.expect(ok, rule, con, p.RetPos, "the children's Null is not set from the struct's for every child and row")
	for i, e := range p.Events {
		if i < pos && e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				c.expect(len(calls(it.Events, func(e *engine.Event) bool { return e.Name == "NextBatch" })) == 0, rule, con, e.Pos, "children are read before they are marked null")
			}
		}
	}
}
