package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C12"] = property{"static analysis: path sensitive symbolic summaries of the batch and stripe readers' steps; what is delivered, the positions kept and the end reported are compared as linear terms over the rows of the batch, stripe and file; loops summarised inductively", rulesC12}
}

func rulesC12(c *Check) {
	m := c.batchModel("batches")
	if m == nil {
		return
	}
	stripeStep(c, m)
	vectorSized(c, m)
	vectorCleared(c, m)
	vectorLen(c, m)
	batchStep(c, m)
	batchMade(c, m)
	positionsKept(c, m)
}

// batchModel is what reading rows is about: the types of batch and stripe readers and their functions.
type batchModel struct {
	B, S           *types.Named
	next           *ssa.Function // a batch of a stripe
	bNext, bSeek   *ssa.Function
	sSeek          *ssa.Function
	size           *ssa.Function // gives vectors the size of a page
	vec            *types.Named
	len, cap       *ssa.Function
	clear          *ssa.Function
	cursor, rows   *types.Var // of S
	stripes        *types.Var // of B
	bCursor, bRows *types.Var
	bIndex         *types.Var
}

func (c *Check) batchModel(rule string) *batchModel {
	w := c.W
	m := &batchModel{}
	m.B, m.S = w.batchTypes()
	if !c.expect(m.B != nil && m.S != nil, rule, "types", 0, "types of batch and stripe reader not found") {
		return nil
	}
	vt := w.Pkgs["orc/api"].Type("ColumnVector")
	if !c.expect(vt != nil, rule, "types", 0, "ColumnVector not found") {
		return nil
	}
	m.vec = vt.Type().(*types.Named)
	m.len, m.cap, m.clear = w.fn("orc/api", "ColumnVector.Len"), w.fn("orc/api", "ColumnVector.Cap"), w.fn("orc/api", "ColumnVector.Clear")
	m.bNext, m.bSeek = w.method(m.B, "Next"), w.method(m.B, "Seek")
	if !c.expect(m.bNext != nil && m.bSeek != nil && m.len != nil && m.cap != nil && m.clear != nil, rule, "functions", 0, "methods of batches not found") {
		return nil
	}
	top := func(from *ssa.Function, method string) *ssa.Function {
		return w.outermost(func(f *ssa.Function) bool {
			if f.Signature.Recv() == nil || deptr(f.Signature.Recv().Type()) != types.Type(m.S) || !w.reaches(f, "orc/column.Reader", method) {
				return false
			}
			_, ok := w.reachOf(from)[f]
			return ok
		})
	}
	m.next, m.sSeek = top(m.bNext, "NextBatch"), top(m.bSeek, "SeekStride")
	if !c.expect(m.next != nil && m.sSeek != nil, rule, "functions", 0, "the functions reading and seeking within a stripe are not found") {
		return nil
	}
	m.size = w.only(w.candidates(func(f *ssa.Function) bool {
		_, ok := w.reachOf(m.next)[f]
		return ok && f != m.next && len(f.Params) > 1 && storesVector(f, m.vec)
	}), func(f, g *ssa.Function) bool { _, ok := w.reachOf(g)[f]; return ok && f != g })
	if !c.expect(m.size != nil, rule, "functions", fnPos(m.next), "the function giving vectors their size is not found") {
		return nil
	}
	uints := func(t *types.Named, not *types.Var) (r []*types.Var) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && st.Field(i) != not {
				r = append(r, st.Field(i))
			}
		}
		return
	}
	m.cursor, m.rows = c.position(m.S, []*ssa.Function{m.next, m.sSeek}, uints)
	m.bCursor, m.bRows = c.position(m.B, []*ssa.Function{m.bNext, m.bSeek}, uints)
	st := m.B.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && deptr(sl.Elem()) == types.Type(m.S) {
			m.stripes = v
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v != m.bCursor && v != m.bRows && w.stores(m.bNext, v) && w.stores(m.bSeek, v) {
			m.bIndex = v
		}
	}
	if !c.expect(m.cursor != nil && m.rows != nil && m.bCursor != nil && m.bRows != nil && m.stripes != nil && m.bIndex != nil, rule, "fields", m.B.Obj().Pos(), "positions and numbers of rows kept by batch and stripe readers are not found") {
		return nil
	}
	return m
}

// position tells the counter of rows done, which all of the functions set, from the number of rows, which none does.
func (c *Check) position(t *types.Named, fns []*ssa.Function, fields func(t *types.Named, not *types.Var) []*types.Var) (cursor, rows *types.Var) {
	for _, v := range fields(t, nil) {
		n := 0
		for _, f := range fns {
			if c.W.stores(f, v) {
				n++
			}
		}
		switch {
		case n == len(fns) && cursor == nil:
			cursor = v
		case n == 0 && rows == nil && c.W.loads(fns[0], v):
			rows = v
		}
	}
	return
}

func fieldVar(v ssa.Value) *types.Var {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	st, ok := deptr(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// stores tells that a function or one it calls sets a field.
func (w *World) stores(f *ssa.Function, v *types.Var) bool {
	for g := range w.reachOf(f) {
		if len(fieldStores(g, v)) > 0 {
			return true
		}
	}
	return false
}

func fieldStores(f *ssa.Function, v *types.Var) (r []*ssa.Store) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && fieldVar(s.Addr) == v {
				r = append(r, s)
			}
		}
	}
	return
}

func (w *World) loads(f *ssa.Function, v *types.Var) bool {
	for g := range w.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && fieldVar(u.X) == v {
					return true
				}
			}
		}
	}
	return false
}

// storesVector tells that a function sets the slice of a column vector.
func storesVector(f *ssa.Function, vec *types.Named) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && deptr(fa.X.Type()) == types.Type(vec) {
					if _, ok := s.Val.Type().Underlying().(*types.Slice); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func isVar(v *types.Var) func(x *types.Var) bool { return func(x *types.Var) bool { return x == v } }

// now is a field's value at the end of a path.
func now(en *engine.Engine, p *engine.Path, obj *engine.Term, t types.Type, v *types.Var) *engine.Term {
	a, ft := addrIn(en, p, obj, t, fieldIndex(t, isVar(v)))
	return en.Load(p.St, a, ft)
}

func (m *batchModel) engine(w *World, opaque ...*ssa.Function) *engine.Engine {
	en := w.streamEngine()
	en.TrackStores = true
	old := en.Opaque
	en.Opaque = func(f *ssa.Function) bool {
		for _, o := range opaque {
			if f == o {
				return true
			}
		}
		return f == m.len || f == m.cap || old != nil && old(f)
	}
	en.Stable = func(f *ssa.Function) bool { return f == m.len || f == m.cap }
	return en
}

// about tells that an event is a call of fn for a vector.
func about(e *engine.Event, fn *ssa.Function, vec *engine.Term) bool {
	if !calledIs(e, fn) {
		return false
	}
	for _, a := range append([]*engine.Term{e.Recv}, e.Args...) {
		if a != nil && copyOf(a, vec) {
			return true
		}
	}
	return false
}

// copyOf tells that a value is an object, or a struct of its fields.
func copyOf(x, obj *engine.Term) bool {
	if x == obj || x.Op == "load" && x.Args[0] == obj {
		return true
	}
	if x.Op != "struct" || len(x.Args) == 0 {
		return false
	}
	for _, f := range x.Args {
		if engine.Root(loadAddr(f)) != obj && !f.Contains(obj) {
			return false
		}
	}
	return true
}

// vecParam is the parameter of a function which is a batch.
func vecParam(s *engine.Summary) *engine.Term {
	for _, x := range s.Params {
		if typeIs(x.Typ, "orc/api.ColumnVector") {
			return x
		}
	}
	return nil
}

// results of the calls of fn for a vector between two places of a path.
func resultsOf(evs []*engine.Event, fn *ssa.Function, vec *engine.Term) (r []*engine.Term) {
	for _, e := range evs {
		if about(e, fn, vec) && len(e.Res) > 0 {
			r = append(r, e.Res[0])
		}
	}
	return
}

func sureLe(en *engine.Engine, p *engine.Path, a, b *engine.Term) bool {
	v, k := en.Decide(p.St, en.Le(a, b))
	return v && k
}

func sureEq(en *engine.Engine, p *engine.Path, a, b *engine.Term) bool {
	if a == b || stripConv(a) == stripConv(b) {
		return true
	}
	v, k := en.Decide(p.St, en.Eq(a, b))
	return v && k
}

// says tells that a boolean value is whether cond holds.
func says(en *engine.Engine, p *engine.Path, v, cond *engine.Term) bool {
	if v == cond {
		return true
	}
	x, k1 := en.Decide(p.St, v)
	y, k2 := en.Decide(p.St, cond)
	return k1 && k2 && x == y
}

// stripeStep: a step reads as many rows as are left in the stripe and fit the batch, counts them, and knows the end.
func stripeStep(c *Check, m *batchModel) {
	rule := "a step of a stripe reads what fits and is left"
	con := short(m.next)
	en := m.engine(c.W, m.size)
	s := c.run(en, rule, m.next, nil, nil)
	recv, vec := s.Params[0], vecParam(s)
	if !c.expect(vec != nil, rule, con, fnPos(m.next), "no batch is handed in") {
		return
	}
	cur, rows := fieldTerm(en, recv, m.S, isVar(m.cursor)), fieldTerm(en, recv, m.S, isVar(m.rows))
	col := fieldTerm(en, recv, m.S, ofType("orc/column.Reader"))
	left := en.P.Add(rows, cur, -1, rows.Typ)
	n := 0
	for _, p := range good(en, m.next, s) {
		n++
		var sized, read []int
		for i, e := range p.Events {
			switch {
			case calledIs(e, m.size):
				sized = append(sized, i)
			case e.Kind == "call" && e.Recv != nil && typeIs(e.Recv.Typ, "orc/column.Reader"):
				c.expect(e.Name == "NextBatch", rule, con, e.Pos, "%s of the column is called", e.Name)
				read = append(read, i)
			case e.Kind == "loop":
				deep(e.Loop.Iters[0].Events, func(x *engine.Event, in *engine.Loop) {
					c.expect(!calledIs(x, m.size) && (x.Recv == nil || x.Kind != "call" || !typeIs(x.Recv.Typ, "orc/column.Reader")), rule, con, x.Pos, "%s in a loop", x.Name)
				})
			}
		}
		if len(read) == 0 && len(sized) == 0 {
			// nothing left
			c.expect(sureLe(en, p, rows, cur), rule, con, p.RetPos, "nothing is read although rows are left [%s]", lits(p))
			c.expect(now(en, p, recv, m.S, m.cursor) == cur, rule, con, p.RetPos, "rows are counted which were not read")
			c.expect(says(en, p, p.Ret[0], en.P.Bool(true)), rule, con, p.RetPos, "the end is not reported")
			continue
		}
		if !c.expect(len(read) == 1 && len(sized) == 1 && sized[0] < read[0], rule, con, p.RetPos, "vectors are given their size %d times, rows are read %d times, in this order [%s]", len(sized), len(read), lits(p)) {
			continue
		}
		se, re := p.Events[sized[0]], p.Events[read[0]]
		c.expect(engine.StripIface(re.Recv) == col && takes(re, vec), rule, con, re.Pos, "rows are not read from the stripe's root column to the batch handed in")
		c.expect(takes(se, vec), rule, con, se.Pos, "another vector is given its size")
		var page *engine.Term
		for _, a := range se.Args {
			if isIntType(a.Typ) {
				page = a
			}
		}
		if !c.expect(page != nil, rule, con, se.Pos, "no size is given") {
			continue
		}
		caps, lens := resultsOf(p.Events[:sized[0]], m.cap, vec), resultsOf(p.Events[:sized[0]], m.len, vec)
		var rooms []*engine.Term
		for _, x := range caps {
			rooms = append(rooms, x)
			for _, l := range lens {
				rooms = append(rooms, en.P.Add(x, l, -1, x.Typ))
			}
		}
		ok := false
		for _, r := range rooms {
			switch x := stripConv(page); {
			case x == left:
				ok = ok || sureLe(en, p, left, r)
			case x == r:
				ok = ok || sureLe(en, p, r, left)
			case x.Op == "min" && len(x.Args) == 2:
				y, z := stripConv(x.Args[0]), stripConv(x.Args[1])
				ok = ok || y == r && z == left || y == left && z == r
			}
		}
		c.expect(ok, rule, con, se.Pos, "the size %v is not the lesser of the rows left (%v) and the room in the batch [%s]", page, left, lits(p))
		// counted
		cur1 := now(en, p, recv, m.S, m.cursor)
		counted := cur1 == en.P.Add(cur, stripConv(page), 1, cur.Typ)
		for _, l := range resultsOf(p.Events[read[0]:], m.len, vec) {
			counted = counted || cur1 == en.P.Add(cur, l, 1, cur.Typ)
		}
		c.expect(counted, rule, con, p.RetPos, "the rows read are not counted: %v", cur1)
		c.expect(len(p.Ret) > 0 && says(en, p, p.Ret[0], en.Le(rows, cur1)), rule, con, p.RetPos, "the end reported is %v, not whether all rows are read", p.Ret[0])
	}
	c.expect(n > 0, rule, con, fnPos(m.next), "no successful path")
	c.atLeast(rule, 1)
}

// vectorSized: vectors get the size asked for, all columns of a struct alike, and no null marker of before.
func vectorSized(c *Check, m *batchModel) {
	rule := "vectors are given one size and no old nulls"
	con := short(m.size)
	en := c.W.streamEngine()
	en.TrackStores = true
	s := c.run(en, rule, m.size, nil, nil)
	vec := vecParam(s)
	var size *engine.Term
	at := -1
	for i, x := range s.Params {
		if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			size, at = x, i
		}
	}
	if !c.expect(vec != nil && size != nil, rule, con, fnPos(m.size), "vector or size not found") {
		return
	}
	old := fieldTerm(en, vec, m.vec, named("Vector"))
	kids := fieldTerm(en, vec, m.vec, named("Children"))
	kind := fieldTerm(en, vec, m.vec, named("Kind"))
	kinds := map[string]int64{}
	for v, n := range c.W.consts("pb/pb", "Type_Kind") {
		kinds[n] = v
	}
	n := 0
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		n++
		isStruct, known := en.Decide(p.St, en.Eq(kind, en.P.Int(kinds["STRUCT"])))
		if !c.expect(known, rule, con, p.RetPos, "structs are treated like others [%s]", lits(p)) {
			continue
		}
		va, vt := addrIn(en, p, vec, m.vec, fieldIndex(m.vec, named("Vector")))
		v := en.Load(p.St, va, vt)
		none := false // no vector at all
		switch {
		case v.Op == "sl" && v.Args[0] == old && zeroOrNil(v.Args[1]) && stripConv(v.Args[2]) == stripConv(size):
		case v == old && isStruct:
			none = knownTrue(en, p.St, isNil(en, old))
			noNulls := false
			for _, l := range p.Lits {
				t, val := l.Cond, l.Val
				for t.Op == "!" {
					t, val = t.Args[0], !val
				}
				if isField(t, "HasNulls") && !val {
					noNulls = true
				}
			}
			c.expect(none || noNulls, rule, con, p.RetPos, "the vector of a struct which may be null is not given its size [%s]", lits(p))
		default:
			c.fail(rule, con, p.RetPos, "the vector becomes %v, not the first %v elements [%s]", v, size, lits(p))
			continue
		}
		if isStruct {
			done := 0
			for _, lp := range loops(p.Events) {
				idx := fullLoop(en, lp, p, en.Len(kids))
				if idx == nil {
					continue
				}
				all := len(lp.Iters) > 0
				for _, it := range lp.Iters {
					k := calls(it.Events, func(e *engine.Event) bool {
						if !calledIs(e, m.size) {
							return false
						}
						args := e.Args
						if e.Recv != nil {
							args = append([]*engine.Term{e.Recv}, args...)
						}
						kid := false
						for _, a := range args {
							kid = kid || isElem(a, kids, idx)
						}
						return kid && at < len(args) && stripConv(args[at]) == stripConv(size)
					})
					all = all && len(k) == 1
				}
				if all {
					done++
				}
			}
			c.expect(done == 1, rule, con, p.RetPos, "the fields of a struct are not given its size [%s]", lits(p))
		}
		if none {
			continue
		}
		c.expect(nullsGone(en, p, v, en.Len(v)), rule, con+" nulls", p.RetPos, "markers of nulls stay from before [%s]", lits(p))
	}
	c.expect(n >= 2, rule, con, fnPos(m.size), "only %d paths", n)
	c.atLeast(rule, 2)
}

func zeroOrNil(t *engine.Term) bool { return t.Op == "nil" || zeroTerm(t) }

// nullsGone tells that a path resets the null markers of the first n elements of a vector.
func nullsGone(en *engine.Engine, p *engine.Path, v, n *engine.Term) bool {
	for _, e := range p.Events {
		if e.Kind == "call" && e.Name == "clear" && len(e.Args) == 1 && e.Args[0] == v {
			return true
		}
	}
	el := v.Typ.Underlying().(*types.Slice).Elem()
	for _, lp := range loops(p.Events) {
		idx := fullLoop(en, lp, p, n)
		if idx == nil || len(lp.Iters) == 0 {
			continue
		}
		all := true
		for _, it := range lp.Iters {
			st := el.Underlying().(*types.Struct)
			ok := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != "Null" {
					continue
				}
				for _, arr := range []*engine.Term{v, base2(v)} {
					a := en.FieldAddr(en.ElemAddr(arr, idx, el), st, i)
					if x := it.Writes[a]; x != nil {
						val, known := en.Decide(it.St, x)
						ok = ok || known && !val
					}
					// or it is not set
					if x, known := en.Decide(it.St, en.Load(it.St, a, types.Typ[types.Bool])); known && !x {
						ok = true
					}
				}
			}
			all = all && ok
		}
		if all {
			return true
		}
	}
	return false
}

// base2 is the slice another one is the beginning of.
func base2(v *engine.Term) *engine.Term {
	if v.Op == "sl" && zeroOrNil(v.Args[1]) {
		return v.Args[0]
	}
	return v
}

// vectorCleared: clearing empties a vector and those of its children.
func vectorCleared(c *Check, m *batchModel) {
	rule := "clearing empties a batch"
	con := short(m.clear)
	en := c.W.newEngine()
	en.TrackStores = true
	s := c.run(en, rule, m.clear, nil, nil)
	recv := s.Params[0]
	kids := fieldTerm(en, recv, m.vec, named("Children"))
	old := fieldTerm(en, recv, m.vec, named("Vector"))
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		c.ob(rule, con)
		va, vt := addrIn(en, p, recv, m.vec, fieldIndex(m.vec, named("Vector")))
		v := en.Load(p.St, va, vt)
		empty := v.Op == "sl" && v.Args[0] == old && zeroOrNil(v.Args[1]) && zeroTerm(v.Args[2]) || v == old && (knownTrue(en, p.St, isNil(en, old)) || knownZero(en, p, en.Len(old)))
		c.expect(empty, rule, con, p.RetPos, "the vector becomes %v [%s]", v, lits(p))
		ok := knownZero(en, p, en.Len(kids)) || knownTrue(en, p.St, isNil(en, kids))
		for _, lp := range loops(p.Events) {
			if idx := fullLoop(en, lp, p, en.Len(kids)); idx != nil {
				all := len(lp.Iters) > 0
				for _, it := range lp.Iters {
					all = all && len(calls(it.Events, func(e *engine.Event) bool { return calledIs(e, m.clear) && e.Recv != nil && isElem(e.Recv, kids, idx) })) == 1
				}
				ok = ok || all
			}
		}
		c.expect(ok, rule, con, p.RetPos, "the children are not cleared [%s]", lits(p))
	}
	c.atLeast(rule, 1)
}

// vectorLen: the rows of a batch are those of its vector, or else of its first child.
func vectorLen(c *Check, m *batchModel) {
	rule := "the size of a batch is that of its vectors"
	for _, fn := range []*ssa.Function{m.len, m.cap} {
		con := short(fn)
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		recv := s.Params[0]
		for _, p := range s.Paths {
			if p.Panic || len(p.Ret) == 0 {
				continue
			}
			c.ob(rule, con)
			r := stripConv(p.Ret[0])
			own := func(t *engine.Term) bool { // the slice of the vector itself
				return isField(t, "Vector") && base(t) == recv && !hasElem(t)
			}
			child := func(t *engine.Term) bool {
				for t.Op == "struct" && len(t.Args) > 0 {
					t = t.Args[0]
				}
				return hasElem(t) && base(t) == recv
			}
			var vecs []*engine.Term
			walkLits(p, func(t *engine.Term) {
				if own(t) {
					vecs = append(vecs, t)
				}
			})
			noVector := false
			for _, v := range vecs {
				noVector = noVector || knownZero(en, p, en.Len(v)) || knownTrue(en, p.St, isNil(en, v))
			}
			switch {
			case (r.Op == "len" || r.Op == "cap") && own(r.Args[0]):
				c.expect(r.Op == "len" == (fn == m.len), rule, con, p.RetPos, "%v is given", r)
			case (r.Op == "len" || r.Op == "cap") && isField(r.Args[0], "Vector") && child(r.Args[0]):
				c.expect(noVector && r.Op == "len" == (fn == m.len), rule, con, p.RetPos, "a child's size is given although there is a vector [%s]", lits(p))
			case r.Op == "res":
				e, _ := r.Any.(*engine.Event)
				c.expect(noVector && e != nil && calledIs(e, fn) && e.Recv != nil && child(e.Recv), rule, con, p.RetPos, "%v is given, not the size of a child [%s]", r, lits(p))
			case zeroTerm(r):
				c.expect(noVector, rule, con, p.RetPos, "0 is given although there is a vector [%s]", lits(p))
				none := false
				walkLits(p, func(t *engine.Term) {
					if isField(t, "Children") && base(t) == recv && !hasElem(t) {
						none = none || knownZero(en, p, en.Len(t))
					}
				})
				c.expect(none, rule, con, p.RetPos, "0 is given although there are children [%s]", lits(p))
			default:
				c.fail(rule, con, p.RetPos, "%v is given [%s]", r, lits(p))
			}
		}
	}
	c.atLeast(rule, 2)
}

func hasElem(t *engine.Term) bool {
	return t.Find(func(x *engine.Term) bool { return x.Op == "elem" }) != nil
}

func walkLits(p *engine.Path, f func(t *engine.Term)) {
	for _, l := range p.Lits {
		walkTerm(l.Cond, f)
	}
}

// batchStep: a batch comes from the stripe read at present; at its end the next one follows; the end of
// the last is the end of all.
func batchStep(c *Check, m *batchModel) {
	rule := "a batch is filled by the stripe at hand"
	con := short(m.bNext)
	en := m.engine(c.W, m.next, m.clear)
	s := c.run(en, rule, m.bNext, nil, nil)
	recv, vec := s.Params[0], vecParam(s)
	cur, rows := fieldTerm(en, recv, m.B, isVar(m.bCursor)), fieldTerm(en, recv, m.B, isVar(m.bRows))
	at := fieldTerm(en, recv, m.B, isVar(m.bIndex))
	stripes := fieldTerm(en, recv, m.B, isVar(m.stripes))
	n := 0
	for _, p := range good(en, m.bNext, s) {
		n++
		var step *engine.Event
		cleared := false
		var after []*engine.Event
		check := func(e *engine.Event) {
			c.expect(cleared, rule, con, e.Pos, "the batch is not cleared before")
			c.expect(takes(e, vec), rule, con, e.Pos, "another batch is filled")
			c.expect(e.Recv != nil && isElem(e.Recv, stripes, at), rule, con, e.Pos, "%v is read, not the stripe at hand", e.Recv)
		}
		for _, e := range p.Events {
			switch {
			case calledIs(e, m.clear) && takes(e, vec):
				c.expect(step == nil, rule, con, e.Pos, "the batch is cleared after it was filled")
				cleared = true
			case calledIs(e, m.next):
				check(e)
				c.expect(step == nil, rule, con, e.Pos, "two stripes are read for one batch [%s]", lits(p))
				step = e
				after = nil
			case e.Kind == "loop":
				for _, it := range e.Loop.Iters {
					for _, a := range flat(it) {
						if calledIs(a.e, m.clear) {
							c.fail(rule, con, a.e.Pos, "the batch is cleared again")
						}
						if !calledIs(a.e, m.next) {
							continue
						}
						check(a.e)
						// read on only if the stripe did not fill the batch
						more := len(a.e.Res) > 0
						if more {
							end, k := en.Decide(it.St, a.e.Res[0])
							more = k && !end
						}
						full := false
						for _, x := range resultsOf(it.Events, m.cap, vec) {
							for _, l := range resultsOf(it.Events, m.len, vec) {
								if v, k := en.Decide(it.St, en.Le(x, l)); k && !v {
									full = true
								}
							}
						}
						c.expect(more && full, rule, con, a.e.Pos, "reading goes on after the end of a stripe or with a full batch [%s]", lits(it))
					}
				}
			default:
				after = append(after, e)
			}
		}
		c.expect(cleared, rule, con, p.RetPos, "the batch is not cleared [%s]", lits(p))
		cur1, at1 := now(en, p, recv, m.B, m.bCursor), now(en, p, recv, m.B, m.bIndex)
		if step == nil {
			done := sureLe(en, p, rows, cur)
			c.expect(done || sureLe(en, p, en.Len(stripes), at), rule, con, p.RetPos, "nothing is read although rows are left [%s]", lits(p))
			if done {
				c.expect(says(en, p, p.Ret[0], en.P.Bool(true)), rule, con, p.RetPos, "the end is not reported [%s]", lits(p))
				c.expect(cur1 == cur, rule, con, p.RetPos, "rows are counted which were not read")
			}
			continue
		}
		counted := false
		for _, l := range resultsOf(after, m.len, vec) {
			counted = counted || cur1 == en.P.Add(cur, l, 1, cur.Typ)
		}
		c.expect(counted, rule, con, p.RetPos, "the rows read are not counted: %v", cur1)
		c.expect(says(en, p, p.Ret[0], en.Le(rows, cur1)), rule, con, p.RetPos, "the end reported is %v, not whether all rows are read [%s]", p.Ret[0], lits(p))
		end, k := false, false
		if len(step.Res) > 0 {
			end, k = en.Decide(p.St, step.Res[0])
		}
		switch {
		case !k:
			c.fail(rule, con, p.RetPos, "whether the stripe ended is not looked at [%s]", lits(p))
		case end:
			last := sureLe(en, p, en.Len(stripes), en.P.Add(at, en.P.Int(1), 1, at.Typ))
			c.expect(at1 == en.P.Add(at, en.P.Int(1), 1, at.Typ) || at1 == at && last, rule, con, p.RetPos, "after the end of a stripe %v is next [%s]", at1, lits(p))
		default:
			c.expect(at1 == at, rule, con, p.RetPos, "the stripe is left before its end for %v [%s]", at1, lits(p))
		}
	}
	c.expect(n > 0, rule, con, fnPos(m.bNext), "no successful path")
	c.atLeast(rule, 1)
}

// batchMade: a batch reader starts at the first row of the first stripe and knows all stripes in order.
func batchMade(c *Check, m *batchModel) {
	rule := "reading starts at the first row"
	mk := c.W.fn("orc", "newStripeReader")
	if !c.expect(mk != nil, rule, "stripe reader", 0, "function making stripe readers not found") {
		return
	}
	zero := func(en *engine.Engine, p *engine.Path, x *engine.Term, t types.Type, v *types.Var) bool {
		n, ok := eqConst(en, p, now(en, p, x, t, v))
		return ok && n == 0
	}
	for _, t := range c.W.implementers("orc", "Reader") {
		fn := c.W.method(t, "CreateBatchReader")
		en := c.W.streamEngine()
		en.TrackStores = true
		old := en.Opaque
		en.Opaque = func(f *ssa.Function) bool { return f == mk || old != nil && old(f) }
		s := c.run(en, rule, fn, nil, nil)
		recv := s.Params[0]
		infos := fieldTerm(en, recv, recv.Typ, sliceOf("pb/pb.StripeInformation"))
		if !c.expect(infos != nil, rule, short(fn), fnPos(fn), "stripe records not found") {
			continue
		}
		for _, p := range good(en, fn, s) {
			b := engine.StripIface(p.Ret[0])
			if !c.expect(b.Op == "alloc" && deptr(b.Typ) == types.Type(m.B), rule, short(fn), p.RetPos, "no new batch reader is given but %v", b) {
				continue
			}
			c.expect(zero(en, p, b, m.B, m.bCursor) && zero(en, p, b, m.B, m.bIndex), rule, short(fn), p.RetPos, "a batch reader starts elsewhere")
			r := now(en, p, b, m.B, m.bRows)
			c.expect(r.Op == "load" && engine.Root(r.Args[0]) == recv && r.Args[0].Op == "field" && !hasElem(r), rule, short(fn), p.RetPos, "the number of rows is %v, not the file's", r)
			lp, idx, vals := mapped(en, p, now(en, p, b, m.B, m.stripes), en.Len(infos))
			if !c.expect(lp != nil, rule, short(fn), p.RetPos, "the stripes are not as many as are recorded, in their order [%s]", lits(p)) {
				continue
			}
			for _, v := range vals {
				e, _ := v.v.Any.(*engine.Event)
				ok := v.v.Op == "res" && e != nil && calledIs(e, mk)
				if ok {
					ok = false
					for _, a := range e.Args {
						ok = ok || isElem(a, infos, idx)
					}
				}
				c.expect(ok, rule, short(fn), lp.Pos, "a stripe reader is made of another record")
			}
		}
		// the file's number of rows
	}
	en := c.W.streamEngine()
	en.TrackStores = true
	s := c.run(en, rule, mk, nil, nil)
	var info *engine.Term
	for _, x := range s.Params {
		if typeIs(x.Typ, "pb/pb.StripeInformation") {
			info = x
		}
	}
	for _, p := range good(en, mk, s) {
		b := engine.StripIface(p.Ret[0])
		if !c.expect(b.Op == "alloc" && info != nil, rule, short(mk), p.RetPos, "no new stripe reader is given") {
			continue
		}
		c.expect(zero(en, p, b, m.S, m.cursor), rule, short(mk), p.RetPos, "a stripe reader starts elsewhere")
		r := stripConv(now(en, p, b, m.S, m.rows))
		rows := r.Op == "load" && r.Args[0] == fieldTerm(en, info, info.Typ, named("NumberOfRows"))
		if r.Op == "const" {
			n, _ := r.IntVal()
			rows = n == 0 && knownTrue(en, p.St, isNil(en, fieldTerm(en, info, info.Typ, named("NumberOfRows"))))
		}
		c.expect(rows, rule, short(mk), p.RetPos, "the number of rows is %v, not that of the stripe's record [%s]", r, lits(p))
	}
	c.atLeast(rule, 2)
}

// positionsKept: nothing but reading, seeking and making changes positions.
func positionsKept(c *Check, m *batchModel) {
	rule := "positions change by reading and seeking only"
	may := map[*ssa.Function]bool{}
	for _, f := range []*ssa.Function{m.bNext, m.bSeek} {
		for g := range c.W.reachOf(f) {
			may[g] = true
		}
	}
	for _, v := range []*types.Var{m.cursor, m.rows, m.bCursor, m.bRows, m.bIndex, m.stripes} {
		c.ob(rule, v.Name())
		for _, f := range c.W.Funcs {
			for _, s := range fieldStores(f, v) {
				made := false
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					_, made = fa.X.(*ssa.Alloc)
				}
				counts := v != m.rows && v != m.bRows && v != m.stripes
				c.expect(made || counts && may[f] || v == m.stripes && !may[f], rule, v.Name(), s.Pos(), "%s sets it", short(f))
			}
		}
	}
	c.atLeast(rule, 4)
}
