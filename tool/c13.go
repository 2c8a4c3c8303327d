package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C13"] = property{"static analysis: path summaries of reader creation, vector creation and the inclusion test; on every path through the loops over columns, streams and children the search of the included ids decides whether a column is opened, where its reader is kept, which streams it gets and to which parent it is attached, compared with how vectors are laid out", rulesC13}
}

func rulesC13(c *Check) {
	inclusion(c)
	columnsOpened(c)
	vectorsLaidOut(c)
	childrenKept(c)
	stripeRead(c)
	optionsPassed(c)
	for _, col := range c.readers("children are read along") {
		if col.childArr == nil && len(col.children) == 0 {
			continue
		}
		for _, nulls := range []bool{true, false} {
			fn := c.W.method(col.T, "NextBatch")
			vec := col.en.P.Mk("param", "vec", fn.Params[1].Type())
			_, s := c.runMethod(col, "children are read along", "NextBatch", col.withNulls(nulls), vec)
			for _, p := range good(col.en, fn, s) {
				childRows(c, col, p, col.name+" "+cfgName(nulls), vec, fieldTerm(col.en, vec, vec.Typ, named("Vector")), nulls)
			}
		}
	}
}

// includes recognizes the list of included ids in a term.
func includes(t *engine.Term) bool {
	return t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "Includes" || t.Op == "fval" && t.Aux == "Includes"
}

// searched finds what a path tells of the search of an id among those included:
// the ids compared, and whether the search came out positive.
func searched(en *engine.Engine, p *engine.Path) (ids []*engine.Term, got tri) {
	got = maybe
	empty := maybe
	idsOf := func(lits []*engine.Lit) (r []*engine.Term, eq []bool, at []*engine.Term) {
		for _, l := range lits {
			if l.Cond.Op != "eq0" && l.Cond.Op != "eq" {
				continue
			}
			var id, el *engine.Term
			if l.Cond.Op == "eq" {
				for k, x := range l.Cond.Args {
					x = stripConv(x)
					if x.Op == "load" && x.Args[0].Op == "elem" && includes(x.Args[0].Args[0]) {
						el, id = x, stripConv(l.Cond.Args[1-k])
					}
				}
			} else {
				lin := en.P.LinOf(l.Cond.Args[0])
				if len(lin.Coef) != 2 || lin.K != 0 {
					continue
				}
				sum := int64(0)
				for x, k := range lin.Coef {
					sum += k
					x = stripConv(x)
					if x.Op == "load" && x.Args[0].Op == "elem" && includes(x.Args[0].Args[0]) {
						el = x
					} else {
						id = x
					}
				}
				if sum != 0 {
					continue
				}
			}
			if el != nil && id != nil {
				r, eq, at = append(r, id), append(eq, l.Val), append(at, el.Args[0])
			}
		}
		return
	}
	for _, l := range p.Lits {
		l.Cond.Find(func(t *engine.Term) bool {
			if t.Op == "len" && includes(t.Args[0]) {
				if v, k := en.Decide(p.St, en.Eq(t, en.P.Int(0))); k {
					empty = no
					if v {
						empty = yes
					}
				}
			}
			return false
		})
	}
	if empty == yes {
		return nil, yes
	}
	r, eq, _ := idsOf(p.Lits)
	for k, id := range r {
		ids = append(ids, id)
		if eq[k] {
			got = yes
		}
	}
	if got == yes {
		return
	}
	for _, lp := range loops(p.Events) {
		// a mark set by the one found
		for k := range lp.Phis {
			ph := lp.Phis[k]
			b, ok := ph.Init.BoolVal()
			fromEmpty := !ok && ph.Init.Op == "eq0" && ph.Init.Args[0].Op == "len" && includes(ph.Init.Args[0].Args[0])
			if (!ok || b) && !fromEmpty || len(lp.Iters) == 0 {
				continue
			}
			mark := true
			var at0, id0 *engine.Term
			for i, it := range lp.Iters {
				r, eq, at := idsOf(it.Lits)
				if len(r) == 0 {
					// the comparison itself is the mark, searching ends with it
					more, known := en.Decide(it.St, ph.Term)
					r, _, at = idsOf([]*engine.Lit{{Cond: ph.Next[i], Val: true}})
					if len(r) == 1 && known && !more {
						id0, at0 = r[0], at[0]
						continue
					}
				}
				if len(r) != 1 || fromEmpty {
					mark = false
					break
				}
				id0, at0 = r[0], at[0]
				b, ok := ph.Next[i].BoolVal()
				mark = mark && (eq[0] && ok && b || !eq[0] && ph.Next[i] == ph.Term)
			}
			if !mark {
				continue
			}
			ids = append(ids, id0)
			if v, known := en.Decide(p.St, ph.Term); known && v {
				return ids, yes
			} else if known && (empty == no || fromEmpty) {
				if idx := fullLoop(en, lp, p, en.Len(at0.Args[0])); idx != nil && idx == at0.Args[1] {
					return ids, no
				}
			}
		}
		for _, it := range lp.Iters {
			r, eq, at := idsOf(it.Lits)
			if len(r) != 1 || eq[0] || len(lp.Iters) != 1 {
				continue
			}
			ids = append(ids, r[0])
			// looked at all of them
			arr := at[0].Args[0]
			if idx := fullLoop(en, lp, p, en.Len(arr)); idx != nil && idx == at[0].Args[1] && empty == no {
				got = no
			}
		}
	}
	return
}

// idOf tells whose id a term is.
func idOf(t *engine.Term) *engine.Term {
	t = stripConv(t)
	if t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "Id" {
		return t.Args[0].Args[0]
	}
	if t.Op == "fval" && t.Aux == "Id" {
		return t.Args[0]
	}
	return nil
}

// inclusion: a column is included when its id is listed or nothing is.
func inclusion(c *Check) {
	rule := "a column is included when listed or nothing is"
	fn := c.W.fn("orc/api", "BatchOption.IsInclude")
	if !c.expect(fn != nil, rule, "IsInclude", 0, "function not found") {
		return
	}
	en := c.W.newEngine()
	s := c.run(en, rule, fn, nil, nil)
	id := s.Params[len(s.Params)-1]
	n := map[bool]int{}
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		ids, got := searched(en, p)
		for _, x := range ids {
			c.expect(x == id, rule, "IsInclude", p.RetPos, "%v is looked for", x)
		}
		if got == maybe {
			// the result itself is the mark
			both := 0
			for _, b := range []bool{true, false} {
				st := p.St.Fork()
				if !en.Assume(st, p.Ret[0], b, 0) {
					continue
				}
				q := *p
				q.St = st
				if _, g := searched(en, &q); g != maybe && (g == yes) == b {
					both++
					n[b]++
				}
			}
			if both == 2 {
				continue
			}
		}
		v, known := en.Decide(p.St, p.Ret[0])
		if c.expect(known && got != maybe, rule, "IsInclude", p.RetPos, "undecided [%s]", lits(p)) {
			n[v]++
			c.expect(v == (got == yes), rule, "IsInclude", p.RetPos, "a column is included: %v, by ids listed: %v [%s]", v, got == yes, lits(p))
		}
	}
	c.expect(n[true] > 0 && n[false] > 0, rule, "IsInclude", fnPos(fn), "always the same")
}

// columnsOpened: what a stripe reader opens, keeps and connects.
func columnsOpened(c *Check) {
	rule := "a column is opened when included"
	fn := c.W.fn("orc", "newStripeReader")
	if !c.expect(fn != nil, rule, "newStripeReader", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	var schemas *engine.Term
	for _, p := range s.Params {
		if sliceOf("orc/api.TypeDescription")(types.NewVar(0, nil, "", p.Typ)) {
			schemas = p
		}
	}
	if !c.expect(schemas != nil, rule, "newStripeReader", fn.Pos(), "schemas not found") {
		return
	}
	makes := func(e *engine.Event) bool {
		if e.Kind != "call" || !strings.Contains(e.Callee, "/orc/column.") || e.Res == nil {
			return false
		}
		for _, a := range e.Args {
			if typeIs(a.Typ, "orc/api.TypeDescription") {
				return true
			}
		}
		return false
	}
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		var open *engine.Loop
		var idx *engine.Term
		for _, lp := range loops(p.Events) {
			for _, it := range lp.Iters {
				if len(calls(it.Events, makes)) > 0 {
					open = lp
				}
			}
		}
		if !c.expect(open != nil, rule, "columns", fn.Pos(), "no loop opening columns [%s]", lits(p)) {
			continue
		}
		idx = fullLoop(en, open, p, en.Len(schemas))
		if !c.expect(idx != nil, rule, "columns", open.Pos, "not every column is looked at") {
			continue
		}
		td := schemas.Typ.Underlying().(*types.Slice).Elem()
		schema := en.Load(open.Iters[0].St, en.ElemAddr(schemas, idx, td), td)
		id := fieldTerm(en, schema, td, named("Id"))
		var readers *engine.Term
		opened := map[int]*engine.Term{}
		for i, it := range open.Iters {
			ids, got := searched(en, it)
			for _, x := range ids {
				c.expect(idOf(x) == schema, rule, "columns", open.Pos, "%v is looked for among the ids included", x)
			}
			cs := calls(it.Events, makes)
			if !c.expect(got != maybe, rule, "columns", open.Pos, "whether the column is included is undecided [%s]", lits(it)) {
				continue
			}
			if got == no {
				c.expect(len(cs) == 0, rule, "columns", open.Pos, "a column left out is opened")
				c.expect(len(calls(it.Events, func(e *engine.Event) bool { return strings.Contains(e.Callee, "/orc/") })) == 0, rule, "columns", open.Pos, "something is opened for a column left out")
				continue
			}
			if !c.expect(len(cs) == 1, rule, "columns", open.Pos, "%d readers are made for an included column [%s]", len(cs), lits(it)) {
				continue
			}
			for _, a := range cs[0].Args {
				if typeIs(a.Typ, "orc/api.TypeDescription") {
					c.expect(a == schema, rule, "columns", cs[0].Pos, "the reader is made of another column's schema")
				}
			}
			opened[i] = resultOf(en, cs[0], 0)
			// where it is kept
			kept := 0
			for a, v := range it.Writes {
				if v != opened[i] {
					if a.Op == "elem" && a.Args[0] == readers && readers != nil {
						c.fail(rule, "columns", open.Pos, "%v is stored among the readers", v)
					}
					continue
				}
				if a.Op == "elem" && a.Args[0].Op == "make" {
					kept++
					readers = a.Args[0]
					c.expect(stripConv(a.Args[1]) == id, rule, "columns", open.Pos, "the reader is kept at %v, not under its column's id", a.Args[1])
				}
			}
			c.expect(kept == 1, rule, "columns", open.Pos, "the reader is kept %d times", kept)
			// encoding
			ok := false
			for a, v := range it.Writes {
				if a.Op == "field" && a.Aux == "Encoding" && a.Args[0] == schema {
					v = stripConv(v)
					v.Find(func(t *engine.Term) bool {
						if t.Op == "elem" && stripConv(t.Args[1]) == id {
							if ad := loadAddr(t.Args[0]); ad != nil && ad.Aux == "Columns" {
								ok = true
							}
						}
						return ok
					})
					if !ok && v.Op == "const" {
						// the footer holds no record
						k, known := v.IntVal()
						ok = known && k == 0
					}
				}
			}
			c.expect(ok, rule, "encodings", open.Pos, "the encoding is not taken from the column's record [%s]", lits(it))
		}
		if !c.expect(readers != nil && len(opened) > 0, rule, "columns", open.Pos, "the readers made are not kept") {
			continue
		}
		c.expect(en.Len(readers) == en.Len(schemas), rule, "columns", open.Pos, "there is not one place per column for readers")
		rootReader(c, en, p, open, readers, opened)
		streamsHandedOut(c, en, p, readers)
		childrenConnected(c, en, p, schemas, readers, open)
		othersOpened(c, en, p, open, makes)
	}
	c.expect(n > 0, rule, "newStripeReader", fn.Pos(), "no successful path")
	c.atLeast(rule, 2)
}

// resultOf is the k-th result of a call.
func resultOf(en *engine.Engine, e *engine.Event, k int) *engine.Term {
	if len(e.Res) > k {
		return e.Res[k]
	}
	return nil
}

// rootReader: the stripe's rows are those of the first column.
func rootReader(c *Check, en *engine.Engine, p *engine.Path, open *engine.Loop, readers *engine.Term, opened map[int]*engine.Term) {
	rule := "rows are those of the first column opened"
	b := engine.StripIface(p.Ret[0])
	var v *engine.Term
	allFields(b.Typ, func(path []int, f *types.Var) {
		if typeIs(f.Type(), "orc/column.Reader") {
			a, ft := addrIn(en, p, b, b.Typ, path)
			v = en.Load(p.St, a, ft)
		}
	})
	if !c.expect(v != nil, rule, "newStripeReader", p.RetPos, "the column read is not found") {
		return
	}
	if v.Op == "load" && v.Args[0].Op == "elem" && v.Args[0].Args[0] == readers {
		k, ok := v.Args[0].Args[1].IntVal()
		c.expect(ok && k == 0, rule, "newStripeReader", p.RetPos, "rows are taken from column %v", v.Args[0].Args[1])
		return
	}
	ph := phiOf(open, v)
	if !c.expect(ph != nil, rule, "newStripeReader", p.RetPos, "rows are taken from %v", v) {
		return
	}
	c.expect(ph.Init.Op == "nil", rule, "newStripeReader", p.RetPos, "rows are taken from %v at first", ph.Init)
	for i, it := range open.Iters {
		none, known := en.Decide(it.St, isNil(en, ph.Term))
		switch {
		case opened[i] == nil:
			c.expect(ph.Next[i] == ph.Term, rule, "newStripeReader", open.Pos, "a column left out changes which column rows are taken from")
		case !known:
			c.fail(rule, "newStripeReader", open.Pos, "the first column is not told from others [%s]", lits(it))
		case none:
			c.expect(ph.Next[i] == opened[i], rule, "newStripeReader", open.Pos, "the first column opened is not the one rows are taken from")
		default:
			c.expect(ph.Next[i] == ph.Term, rule, "newStripeReader", open.Pos, "rows are taken from a later column")
		}
	}
}

// streamsHandedOut: a stream goes to the reader of its column, if there is one.
func streamsHandedOut(c *Check, en *engine.Engine, p *engine.Path, readers *engine.Term) {
	rule := "a stream goes to the reader of its column"
	n := 0
	isInit := func(e *engine.Event) bool { return e.Name == "InitStream" || e.Name == "InitIndex" }
	for _, lp := range loops(p.Events) {
		any := false
		var st *engine.Term
		for _, it := range lp.Iters {
			for _, e := range calls(it.Events, isInit) {
				any = true
				for _, a := range e.Args {
					if typeIs(a.Typ, "pb/pb.Stream") {
						st = a
					}
				}
			}
		}
		if !any {
			continue
		}
		n++
		if !c.expect(st != nil, rule, "streams", lp.Pos, "the records of streams are not found") {
			continue
		}
		for _, it := range lp.Iters {
			col := stripConv(deref(en, it, st, st.Typ, "Column"))
			var el types.Type = readers.Typ.Underlying().(*types.Slice).Elem()
			r := en.Load(it.St, en.ElemAddr(readers, col, el), el)
			cs := calls(it.Events, isInit)
			none, known := en.Decide(it.St, isNil(en, r))
			switch {
			case len(cs) == 0:
				c.expect(known && none, rule, "streams", lp.Pos, "a stream is passed over although its column is read [%s]", lits(it))
			case len(cs) == 1:
				c.expect(sameAt(cs[0].Recv, readers, col) && known && !none, rule, "streams", cs[0].Pos, "a stream of column %v is given to %v [%s]", col, cs[0].Recv, lits(it))
			default:
				c.fail(rule, "streams", lp.Pos, "a stream is given to readers %d times", len(cs))
			}
		}
	}
	c.expect(n > 0, rule, "streams", p.RetPos, "no loop over the streams")
}

// sameAt tells that a term is the element of an array at an index.
func sameAt(t, arr, idx *engine.Term) bool {
	t = engine.StripIface(t)
	return t != nil && t.Op == "load" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == arr && stripConv(t.Args[0].Args[1]) == stripConv(idx)
}

// childrenConnected: every column included is attached to its parent, in the order of the schema.
func childrenConnected(c *Check, en *engine.Engine, p *engine.Path, schemas, readers *engine.Term, open *engine.Loop) {
	rule := "children are attached in the schema's order"
	attach := func(e *engine.Event) bool {
		return e.Kind == "call" && e.Recv != nil && strings.Contains(e.Callee, "/orc/column.") && len(e.Args) == 1 && typeIs(e.Args[0].Typ, "orc/column.Reader")
	}
	td := schemas.Typ.Underlying().(*types.Slice).Elem()
	kinds := map[string]bool{}
	n, after := 0, false
	for _, lp := range loops(p.Events) {
		if lp == open {
			after = true
		}
		any := false
		deep([]*engine.Event{{Kind: "loop", Loop: lp}}, func(e *engine.Event, in *engine.Loop) { any = any || attach(e) })
		if !any {
			continue
		}
		n++
		c.expect(after && lp != open, rule, "children", lp.Pos, "children are attached before they are opened")
		idx := fullLoop(en, lp, p, en.Len(schemas))
		if !c.expect(idx != nil, rule, "children", lp.Pos, "not every column's children are looked at") {
			continue
		}
		for _, it := range lp.Iters {
			schema := en.Load(it.St, en.ElemAddr(schemas, idx, td), td)
			kids := fieldTerm(en, schema, td, named("Children"))
			if !c.expect(len(calls(it.Events, attach)) == 0, rule, "children", lp.Pos, "children are attached outside of a loop over them") {
				continue
			}
			inner := 0
			for _, l2 := range loops(it.Events) {
				j := fullLoop(en, l2, it, en.Len(kids))
				if j == nil {
					continue
				}
				inner++
				for _, q := range l2.Iters {
					child := en.Load(q.St, en.ElemAddr(kids, j, td), td)
					cid := fieldTerm(en, child, td, named("Id"))
					ids, got := searched(en, q)
					for _, x := range ids {
						c.expect(idOf(x) == child, rule, "children", l2.Pos, "%v is looked for among the ids included", x)
					}
					cs := calls(q.Events, attach)
					if got == maybe {
						// told by whether the child was opened
						el := readers.Typ.Underlying().(*types.Slice).Elem()
						none, known := en.Decide(q.St, isNil(en, en.Load(q.St, en.ElemAddr(readers, cid, el), el)))
						if known {
							got = no
							if !none {
								got = yes
							}
						}
					}
					if !c.expect(got != maybe, rule, "children", l2.Pos, "whether the child is included is undecided [%s]", lits(q)) {
						continue
					}
					if got == no {
						c.expect(len(cs) == 0, rule, "children", l2.Pos, "a column left out is attached [%s]", lits(q))
						continue
					}
					if !c.expect(len(cs) == 1, rule, "children", l2.Pos, "an included child is attached %d times [%s]", len(cs), lits(q)) {
						continue
					}
					e := cs[0]
					to := e.Recv
					for to.Op == "assert" || to.Op == "iface" {
						to = to.Args[0]
					}
					c.expect(sameAt(to, readers, fieldTerm(en, schema, td, named("Id"))), rule, "children", e.Pos, "a child is attached to %v", e.Recv)
					c.expect(sameAt(e.Args[0], readers, cid), rule, "children", e.Pos, "%v is attached as a child", e.Args[0])
					place, known := eqConst(en, q, j)
					kinds[e.Name] = true
					if w, ok := map[string]int64{"SetKey": 0, "SetValue": 1}[e.Name]; ok {
						c.expect(known && place == w, rule, "children", e.Pos, "%s gets child %v [%s]", e.Name, j, lits(q))
					}
				}
			}
			c.expect(inner == 1, rule, "children", lp.Pos, "a column's children are visited by %d loops [%s]", inner, lits(it))
		}
	}
	c.expect(n == 1, rule, "children", p.RetPos, "children are attached by %d loops", n)
	for _, k := range []string{"AddChild", "SetChild", "SetKey", "SetValue"} {
		c.expect(kinds[k], rule, k, p.RetPos, "never called")
	}
}

// othersOpened: files are opened for streams of included columns only.
func othersOpened(c *Check, en *engine.Engine, p *engine.Path, open *engine.Loop, makes func(e *engine.Event) bool) {
	rule := "nothing is opened but included columns"
	c.ob(rule, "newStripeReader")
	deep(p.Events, func(e *engine.Event, in *engine.Loop) {
		if e.Kind != "call" {
			return
		}
		c.expect(e.Name != "Clone", rule, "newStripeReader", e.Pos, "a file handle is made outside of columns")
		c.expect(!makes(e) || in == open, rule, "newStripeReader", e.Pos, "a column is opened elsewhere")
	})
}

// vectorsLaidOut: a vector has the id and kind of its column and children where readers have them.
func vectorsLaidOut(c *Check) {
	rule := "vectors are laid out as columns are"
	mk := c.W.fn("orc/api", "TypeDescription.CreateVector")
	if !c.expect(mk != nil, rule, "CreateVector", 0, "function not found") {
		return
	}
	// the function making vectors by inclusion, itself called for children
	var one *ssa.Function
	var calledSelf func(f, want *ssa.Function, seen map[*ssa.Function]bool) bool
	calledSelf = func(f, want *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && (g == want || calledSelf(g, want, seen)) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, b := range mk.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && c.W.returns(g, "orc/api.ColumnVector") {
					one = g
				}
			}
		}
	}
	if !c.expect(one != nil && calledSelf(one, one, map[*ssa.Function]bool{}), rule, "CreateVector", fnPos(mk), "the function making vectors of children not found") {
		return
	}
	en := c.W.newEngine()
	en.Opaque = func(f *ssa.Function) bool { return f == one }
	s := c.run(en, rule, mk, nil, nil)
	n := 0
	for _, p := range good(en, mk, s) {
		n++
		cs := calls(p.Events, func(e *engine.Event) bool { return calledIs(e, one) })
		ok := len(cs) == 1 && p.Ret[0] == resultOf(en, cs[0], 0)
		ok = ok && stripRecv(cs[0].Recv, s.Params[0]) && len(cs[0].Args) > 0 && cs[0].Args[len(cs[0].Args)-1] == s.Params[1]
		c.expect(ok, rule, "CreateVector", p.RetPos, "what is given is not the vector of the column asked for")
	}
	c.expect(n > 0, rule, "CreateVector", fnPos(mk), "no successful path")

	kinds := c.W.consts("pb/pb", "Type_Kind")
	covered := map[string]bool{}
	en = c.W.newEngine()
	en.Opaque = func(f *ssa.Function) bool { return f == one }
	s = c.run(en, rule, one, nil, nil)
	recv, opt := s.Params[0], s.Params[1]
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		ids, got := searched(en, p)
		for _, x := range ids {
			o := idOf(x)
			c.expect(o != nil && ownField(o, recv), rule, "included", p.RetPos, "%v is looked for among the ids included", x)
		}
		if !c.expect(got != maybe, rule, "included", p.RetPos, "whether the column is included is undecided [%s]", lits(p)) {
			continue
		}
		v := engine.StripIface(p.Ret[0])
		if got == no {
			c.expect(v.Op == "nil", rule, "included", p.RetPos, "a vector is made for a column left out")
			continue
		}
		if !c.expect(v.Op == "alloc", rule, "included", p.RetPos, "no new vector is made for an included column but %v [%s]", v, lits(p)) {
			continue
		}
		get := func(name string) *engine.Term {
			var r *engine.Term
			allFields(v.Typ, func(ix []int, f *types.Var) {
				if f.Name() == name && len(ix) == 1 {
					a, ft := addrIn(en, p, v, v.Typ, ix)
					r = en.Load(p.St, a, ft)
				}
			})
			return r
		}
		own := func(t *engine.Term, name string) bool {
			t = stripConv(t)
			return t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == name && ownField(t.Args[0].Args[0], recv) || t.Op == "fval" && t.Aux == name && ownField(t.Args[0], recv)
		}
		kt := get("Kind")
		kv, known := int64(-1), false
		for _, k := range sortedInts(kinds) {
			x := valueField2(en, recv, "Kind")
			if b, dec := en.Decide(p.St, en.Eq(x, en.P.Int(k))); dec && b {
				kv, known = k, true
			}
		}
		kind := "other kinds"
		if known {
			kind = kinds[kv]
		}
		covered[kind] = true
		c.expect(own(get("Id"), "Id"), rule, kind, p.RetPos, "the vector's id is %v", get("Id"))
		if k, ok := kt.IntVal(); ok {
			c.expect(known && k == kv, rule, kind, p.RetPos, "the vector's kind is %v", kt)
		} else {
			c.expect(own(kt, "Kind"), rule, kind, p.RetPos, "the vector's kind is %v", kt)
		}
		elems := get("Vector")
		if n := en.Len(elems); elems.Op != "nil" {
			c.expect(elems.Op == "make" && own2(n, opt, "RowSize"), rule, kind, p.RetPos, "the vector has %v rows, not those of a batch", n)
		}
		kids := get("Children")
		switch kind {
		case "STRUCT":
			c.expect(structKids(en, p, kids, one, recv, opt), rule, kind, p.RetPos, "a structure's vector does not have the vectors of the included children in order [%s]", lits(p))
		case "LIST", "MAP":
			els, ok := en.SliceElems(p.St, kids)
			if ps, k := pieces(en, kids); !ok && k {
				ok = true
				for _, x := range ps {
					ok = ok && x.elem != nil
					els = append(els, x.elem)
				}
			}
			want := map[string]int{"LIST": 1, "MAP": 2}[kind]
			ok = ok && len(els) == want
			for i := 0; ok && i < want; i++ {
				ok = madeBy(els[i], one, recv, opt, en.P.Int(int64(i)))
			}
			c.expect(ok, rule, kind, p.RetPos, "the vector's children are %v", kids)
		default:
			c.expect(zeroOrNil(kids), rule, kind, p.RetPos, "a vector of a kind without children has some: %v", kids)
		}
	}
	for _, k := range []string{"STRUCT", "LIST", "MAP"} {
		c.expect(covered[k], rule, k, fnPos(one), "no vector is made for this kind")
	}
	c.atLeast(rule, 6)
}

// stripRecv tells that a value receiver is a copy of a parameter.
func stripRecv(x, param *engine.Term) bool {
	return x != nil && (x == param || ownField(x, param))
}

// ownField tells that a term is a parameter or holds all of it.
func ownField(x, param *engine.Term) bool { return base(x) == param || x == param || copyOf(x, param) }

func own2(t, opt *engine.Term, name string) bool {
	t = stripConv(t)
	return t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == name && t.Args[0].Args[0] == opt
}

// valueField2 is a field of a parameter, given by value or by reference.
func valueField2(en *engine.Engine, x *engine.Term, name string) *engine.Term {
	if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
		return fieldTerm(en, x, x.Typ, named(name))
	}
	st := x.Typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return en.P.Mk("fval", name, st.Field(i).Type(), x)
		}
	}
	return nil
}

// madeBy tells that a vector is what a function made for a child at a place.
func madeBy(x *engine.Term, one *ssa.Function, recv, opt, idx *engine.Term) bool {
	e, _ := x.Any.(*engine.Event)
	if x.Op != "res" || e == nil || !calledIs(e, one) {
		return false
	}
	ch := e.Recv
	if ch == nil {
		ch = e.Args[0]
	}
	ok := false
	ch.Find(func(t *engine.Term) bool {
		if t.Op == "elem" && t.Args[1] == idx {
			k := stripConv(t.Args[0])
			if (k.Op == "load" && k.Args[0].Op == "field" && k.Args[0].Aux == "Children" && ownField(k.Args[0].Args[0], recv)) || k.Op == "fval" && k.Aux == "Children" && ownField(k.Args[0], recv) {
				ok = true
			}
		}
		return ok
	})
	return ok && e.Args[len(e.Args)-1] == opt
}

// structKids: the vectors of all children, but those which have none, in order.
func structKids(en *engine.Engine, p *engine.Path, kids *engine.Term, one *ssa.Function, recv, opt *engine.Term) bool {
	ps, ok := pieces(en, kids)
	if !ok || len(ps) != 1 || ps[0].lp == nil {
		return false
	}
	lp := ps[0].lp
	ch := valueField2(en, recv, "Children")
	idx := fullLoop(en, lp, p, en.Len(ch))
	if idx == nil {
		return false
	}
	for k, it := range ps[0].iters {
		var made *engine.Term
		for _, e := range calls(lp.Iters[k].Events, func(e *engine.Event) bool { return calledIs(e, one) }) {
			if made != nil {
				return false
			}
			made = resultOf(en, e, 0)
		}
		if made == nil || !madeBy(made, one, recv, opt, idx) {
			return false
		}
		none, known := en.Decide(lp.Iters[k].St, isNil(en, made))
		if !known {
			return false
		}
		if none && len(it) != 0 || !none && (len(it) != 1 || it[0].elem != made) {
			return false
		}
	}
	return true
}

// childrenKept: a reader keeps the children it is given, in order.
func childrenKept(c *Check) {
	rule := "a reader keeps its children in order"
	n := 0
	for _, t := range c.W.implementers("orc/column", "Reader") {
		ms := types.NewMethodSet(types.NewPointer(t))
		places := map[string]string{}
		for i := 0; i < ms.Len(); i++ {
			fn := c.W.method(t, ms.At(i).Obj().Name())
			if fn == nil || fn.Synthetic != "" || len(fn.Params) != 2 || !typeIs(fn.Params[1].Type(), "orc/column.Reader") {
				continue
			}
			n++
			en := c.W.colEngine()
			s := c.run(en, rule, fn, nil, nil)
			con := t.Obj().Name() + "." + fn.Name()
			for _, p := range s.Paths {
				if p.Panic {
					continue
				}
				var at *engine.Term
				for a, v := range p.Writes {
					if base(a) != s.Params[0] {
						continue
					}
					if !c.expect(at == nil, rule, con, p.RetPos, "more than one place is changed") {
						continue
					}
					at = a
					if _, ok := v.Typ.Underlying().(*types.Slice); ok {
						ps, ok := piecesAfter(en, v, en.P.Mk("load", "0", v.Typ, a))
						c.expect(ok && len(ps) == 1 && ps[0].elem == s.Params[1], rule, con, p.RetPos, "the child is not put behind those before it")
					} else {
						c.expect(v == s.Params[1], rule, con, p.RetPos, "%v is kept", v)
					}
				}
				if !c.expect(at != nil, rule, con, p.RetPos, "the child is not kept") {
					continue
				}
				if o, ok := places[at.String()]; ok {
					c.expect(o == fn.Name(), rule, con, p.RetPos, "kept where %s keeps its", o)
				}
				places[at.String()] = fn.Name()
			}
		}
	}
	c.expect(n >= 4, rule, "readers", 0, "only %d methods taking children", n)
}

// optionsPassed: stripes are read with the columns asked for.
func optionsPassed(c *Check) {
	rule := "stripes are read with the columns asked for"
	mk := c.W.fn("orc", "newStripeReader")
	if !c.expect(mk != nil, rule, "stripe reader", 0, "function making stripe readers not found") {
		return
	}
	for _, t := range c.W.implementers("orc", "Reader") {
		fn := c.W.method(t, "CreateBatchReader")
		en := c.W.streamEngine()
		old := en.Opaque
		en.Opaque = func(f *ssa.Function) bool { return f == mk || old != nil && old(f) }
		s := c.run(en, rule, fn, nil, nil)
		opt := s.Params[1]
		schemas := fieldTerm(en, s.Params[0], s.Params[0].Typ, sliceOf("orc/api.TypeDescription"))
		n := 0
		for _, p := range good(en, fn, s) {
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind != "call" || !calledIs(e, mk) {
					return
				}
				n++
				got, all := false, false
				for _, a := range e.Args {
					if typeIs(a.Typ, "orc/api.BatchOption") {
						got = a == opt
					}
					all = all || schemas != nil && a == schemas
				}
				c.expect(got, rule, short(fn), e.Pos, "a stripe is read with other options than the batch's")
				c.expect(all, rule, short(fn), e.Pos, "a stripe reader is not given the schemas of all columns")
			})
		}
		c.expect(n > 0, rule, short(fn), fnPos(fn), "no stripe reader is made")
	}
	c.atLeast(rule, 1)
}
