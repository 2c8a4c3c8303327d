package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C15"] = property{"effect analysis over go/ssa path summaries: every memory cell which writing or flushing a column, stream or encoder may change is given its first value again by resetting, every column is reset between stripes, and rows are counted once by a loop invariant of linear forms", rulesC15}
}

func rulesC15(c *Check) {
	rule := "a reset undoes what writing changed"
	for _, col := range c.writers(rule) {
		for _, nulls := range []bool{false, true} {
			for _, index := range []bool{false, true} {
				columnReset(c, col, nulls, index)
			}
			onlyFlushed(c, col, nulls)
		}
	}
	c.atLeast(rule, 40)
	c.atLeast("only flushed data is written out", 20)
	streamReset(c)
	encoderReset(c)
	columnsReset(c)
	rowsOnce(c)
}

// fileWide tells that a cell belongs to the statistics kept over all stripes.
func fileWide(en *engine.Engine, recv *engine.Term, T types.Type, a *engine.Term) bool {
	st := fieldTerm(en, recv, T, ofType("pb/pb.ColumnStatistics"))
	return st != nil && a.Contains(st)
}

// changes lists the cells reached from recv which a method may change, with how.
func changes(en *engine.Engine, recv *engine.Term, T types.Type, fn *ssa.Function, s *engine.Summary) map[*engine.Term]token.Pos {
	r := map[*engine.Term]token.Pos{}
	for _, p := range good(en, fn, s) {
		for a, v := range p.Writes {
			if base(a) != recv || fileWide(en, recv, T, a) {
				continue
			}
			if v == en.P.Mk("load", "0", v.Typ, a) {
				continue
			}
			if _, ok := r[a]; !ok {
				r[a] = p.RetPos
			}
		}
		for _, x := range flat(p) {
			if x.e.Kind == "call" && x.e.Name == "mapupdate" {
				if m := x.e.Recv; base(m) == recv {
					if a := loadAddr(m); a != nil {
						if _, ok := r[a]; !ok {
							r[a] = x.e.Pos
						}
					}
				}
			}
		}
	}
	return r
}

// renewed tells that at the end of a resetting path a cell holds a first value again: a zero, something newly
// made, or something it was told to reset.
func renewed(en *engine.Engine, p *engine.Path, a *engine.Term, first func(a, v *engine.Term) bool) bool {
	for x := a; x != nil; {
		{
			if v, ok := p.Writes[x]; ok {
				if freshValue(en, p, v) || first != nil && first(x, v) {
					return true
				}
			}
			// the object in the cell is told to reset
			for _, e := range p.Events {
				if e.Kind == "call" && e.Name == "clear" && len(e.Args) == 1 && loadAddr(e.Args[0]) == x {
					return true
				}
				if e.Kind == "loop" && len(e.Loop.Iters) > 0 {
					all := true
					for _, it := range e.Loop.Iters {
						all = all && len(calls(it.Events, func(d *engine.Event) bool { return d.Name == "delete" && loadAddr(d.Args[0]) == x })) > 0
					}
					if all {
						return true
					}
				}
				if e.Kind != "call" || e.Name != "Reset" {
					continue
				}
				o := e.Recv
				if o == nil && len(e.Args) > 0 {
					o = e.Args[0]
				}
				if o == nil {
					continue
				}
				o = engine.StripIface(o)
				if loadAddr(o) == x || o == x {
					return true
				}
			}
		}
		switch {
		case x.Op == "load":
			x = x.Args[0]
		case (x.Op == "field" || x.Op == "elem") && len(x.Args) > 0:
			x = x.Args[0]
		default:
			x = nil
		}
	}
	return false
}

func freshValue(en *engine.Engine, p *engine.Path, v *engine.Term) bool {
	x := engine.StripIface(v)
	switch x.Op {
	case "alloc", "make", "nil":
		return true
	}
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Slice); ok {
			n, ok := eqConst(en, p, en.Len(v))
			return ok && n == 0
		}
	}
	return zeroTerm(stripConv(v))
}

func columnReset(c *Check, col *column, nulls, index bool) {
	rule := "a reset undoes what writing changed"
	con := col.name + cfgName(nulls)
	if index {
		con += " indexed"
	}
	as := also(col.withNulls(nulls), col.withIndex(index), col.withStats())
	T := types.NewPointer(col.T)
	dirty := map[*engine.Term]token.Pos{}
	for _, m := range []string{"Write", "Flush"} {
		fn, s := c.runMethod(col, rule, m, as)
		if fn == nil {
			return
		}
		for a, p := range changes(col.en, col.recv, T, fn, s) {
			dirty[a] = p
		}
	}
	fn, s := c.runMethod(col, rule, "Reset", as)
	if fn == nil {
		return
	}
	live := map[*colStream]bool{}
	for _, st := range col.live(nulls) {
		live[st] = true
	}
	for _, p := range s.Paths {
		if p.Panic {
			c.fail(rule, con, p.RetPos, "resetting panics [%s]", lits(p))
			continue
		}
		for a, pos := range dirty {
			c.expect(renewed(col.en, p, a, nil), rule, con, fn.Pos(), "%s, changed at %s, is not reset [%s]", a, c.W.pos(pos), lits(p))
		}
		reset := map[*colStream]bool{}
		for _, x := range flat(p) {
			st := col.streamOf(x.e.Recv)
			if x.e.Kind != "call" || st == nil {
				continue
			}
			switch {
			case !live[st]:
				c.fail(rule, con, x.e.Pos, "stream %s is not there without nulls, but %s is called", st.name, x.e.Name)
			case x.e.Name == "Reset" && x.lp == nil:
				reset[st] = true
			case x.e.Name == "Size" || x.e.Name == "Info" || x.e.Name == "GetPosition":
			default:
				c.fail(rule, con, x.e.Pos, "%s is called on stream %s while resetting", x.e.Name, st.name)
			}
		}
		for _, st := range col.live(nulls) {
			c.expect(reset[st], rule, con, fn.Pos(), "stream %s is not reset [%s]", st.name, lits(p))
		}
		// the file's statistics carry on
		for a, v := range p.Writes {
			c.expect(base(a) != col.recv || !fileWide(col.en, col.recv, T, a) || v == col.en.P.Mk("load", "0", v.Typ, a), rule, con, p.RetPos, "the statistics of the file are changed: %s", a)
			st := fieldTerm(col.en, col.recv, T, ofType("pb/pb.ColumnStatistics"))
			c.expect(st == nil || a != loadAddr(st) || v == st, rule, con, p.RetPos, "the statistics of the file are replaced")
		}
	}
}

// onlyFlushed: a column writes out only after a flag was found set which flushing sets and resetting clears.
func onlyFlushed(c *Check, col *column, nulls bool) {
	rule := "only flushed data is written out"
	con := col.name + cfgName(nulls)
	as := also(col.withNulls(nulls), col.withStats())
	flags := map[*engine.Term]bool{}
	fn, s := c.runMethod(col, rule, "Flush", as)
	if fn == nil {
		return
	}
	truth := func(p *engine.Path, a *engine.Term, t types.Type, want bool) bool {
		v, ok := p.Writes[a]
		if !ok {
			return false
		}
		b, k := col.en.Decide(p.St, v)
		return k && b == want
	}
	allFields(col.T, func(path []int, v *types.Var) {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			a, ft := addrOf(col.en, col.recv, types.NewPointer(col.T), path)
			ok := true
			for _, p := range good(col.en, fn, s) {
				ok = ok && truth(p, a, ft, true)
			}
			if ok {
				flags[a] = true
			}
		}
	})
	fn, s = c.runMethod(col, rule, "Reset", as)
	if fn == nil {
		return
	}
	for a := range flags {
		for _, p := range s.Paths {
			if !p.Panic && !truth(p, a, types.Typ[types.Bool], false) {
				delete(flags, a)
			}
		}
	}
	if !c.expect(len(flags) > 0, rule, con, fn.Pos(), "nothing tells data flushed from data not flushed: no flag is set by every flush and cleared by every reset") {
		return
	}
	fn, s = c.runMethod(col, rule, "WriteOut", as)
	if fn == nil {
		return
	}
	for _, p := range good(col.en, fn, s) {
		ok := false
		for a := range flags {
			v, k := col.en.Decide(p.St, col.en.P.Mk("load", "0", types.Typ[types.Bool], a))
			ok = ok || k && v
		}
		c.expect(ok, rule, con, p.RetPos, "data is written out though it was not flushed [%s]", lits(p))
	}
}

// streamReset: a stream's buffers, lengths and whatever else writing changes start anew.
func streamReset(c *Check) {
	rule := "a stream reset empties its buffers"
	for _, t := range c.W.implementers(streamPkg, "Writer") {
		for _, comp := range []bool{false, true} {
			con := t.Obj().Name() + compName(comp)
			en := c.W.streamEngine()
			recv := en.P.Mk("param", "w", types.NewPointer(t))
			as := withCompression(en, recv, recv.Typ, comp)
			dirty := map[*engine.Term]token.Pos{}
			filled := map[*engine.Term]bool{}
			for _, m := range []string{"Write", "Flush"} {
				fn := c.W.method(t, m)
				if !c.expect(fn != nil, rule, con, 0, "%s not found", m) {
					return
				}
				args := []*engine.Term{recv}
				for _, q := range fn.Params[1:] {
					args = append(args, en.P.Mk("param", q.Name(), q.Type()))
				}
				s := c.run(en, rule, fn, args, as)
				for a, p := range changes(en, recv, recv.Typ, fn, s) {
					dirty[a] = p
				}
				for _, p := range s.Paths {
					for _, x := range flat(p) {
						for _, y := range append([]*engine.Term{x.e.Recv}, x.e.Args...) {
							if y != nil && x.e.Kind == "call" {
								y = engine.StripIface(y)
								if y.Typ != nil && y.Typ.String() == "*bytes.Buffer" && base(y) == recv && !looks(x.e, y) {
									filled[y] = true
								}
							}
						}
					}
				}
			}
			gone := emptied(c, en, rule, t, recv, as)
			fn := c.W.method(t, "Reset")
			if !c.expect(fn != nil && len(filled) > 0, rule, con, fnPos(fn), "no buffers found") {
				return
			}
			// counted for the log only: nothing depends on it
			idle := unread(c.W, t)
			for _, p := range c.run(en, rule, fn, []*engine.Term{recv}, as).Paths {
				if p.Panic {
					continue
				}
				for a, pos := range dirty {
					if a.Op == "field" && idle[a.Aux] && a.Args[0] == recv {
						continue
					}
					c.expect(renewed(en, p, a, nil), rule, con, fn.Pos(), "%s, changed at %s, is not reset [%s]", a, c.W.pos(pos), lits(p))
				}
				for b := range filled {
					ok := knownTrue(en, p.St, isNil(en, b)) || gone[b]
					if v, w := p.Writes[loadAddr(b)]; w {
						ok = v != b && freshValue(en, p, v)
					}
					for _, e := range p.Events {
						if e.Kind == "call" && e.Recv != nil && engine.StripIface(e.Recv) == b {
							switch {
							case e.Name == "Reset", e.Name == "Truncate" && zeroTerm(e.Args[0]):
								ok = true
							case !looks(e, b):
								ok = false
							}
						}
					}
					c.expect(ok, rule, con, fn.Pos(), "%s is not emptied [%s]", b, lits(p))
				}
			}
		}
	}
	c.atLeast(rule, 2)
}

// emptied lists the buffers of a stream which flushing and writing out leave empty.
func emptied(c *Check, en *engine.Engine, rule string, t *types.Named, recv *engine.Term, as func(s *engine.State)) map[*engine.Term]bool {
	r := map[*engine.Term]bool{}
	for _, m := range []string{"Flush", "WriteOut"} {
		fn := c.W.method(t, m)
		if fn == nil {
			continue
		}
		args := []*engine.Term{recv}
		for _, q := range fn.Params[1:] {
			args = append(args, en.P.Mk("param", q.Name(), q.Type()))
		}
		n := map[*engine.Term]int{}
		ps := good(en, fn, c.run(en, rule, fn, args, as))
		for _, p := range ps {
			seen := map[*engine.Term]bool{}
			for _, x := range p.Events {
				if x.Kind != "call" {
					continue
				}
				if x.Recv != nil && x.Name == "WriteTo" {
					seen[engine.StripIface(x.Recv)] = true
				}
				if len(x.Args) == 4 {
					if b := engine.StripIface(x.Args[3]); drains(x, b) != nil {
						seen[b] = true
					}
				}
				if x.Recv != nil && x.Name == "Len" {
					if b := engine.StripIface(x.Recv); knownEmpty(en, p, b, x) {
						seen[b] = true
					}
				}
			}
			for b := range seen {
				n[b]++
			}
		}
		for b, k := range n {
			if k == len(ps) {
				r[b] = true
			}
		}
	}
	return r
}

// unread lists the fields of a type which are read only to be changed or logged.
func unread(w *World, t *types.Named) map[string]bool {
	r := map[string]bool{}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Basic); ok {
			r[st.Field(i).Name()] = true
		}
	}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(deptr(fa.X.Type()), t) {
					if f, ok := in.(*ssa.Field); ok && types.Identical(f.X.Type(), t) && !onlyLogged(f, fa, map[ssa.Value]bool{}) {
						delete(r, st.Field(f.Field).Name())
					}
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr != fa {
							delete(r, st.Field(fa.Field).Name())
						}
					case *ssa.UnOp:
						if !onlyLogged(u, fa, map[ssa.Value]bool{}) {
							delete(r, st.Field(fa.Field).Name())
						}
					default:
						delete(r, st.Field(fa.Field).Name())
					}
				}
			}
		}
	}
	return r
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// onlyLogged tells that a value read from a field ends in the field again or in a log.
func onlyLogged(v ssa.Value, from *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			switch u.Op {
			case token.ADD, token.SUB, token.MUL:
				if !onlyLogged(u, from, seen) {
					return false
				}
			default:
				return false
			}
		case *ssa.Convert:
			if !onlyLogged(u, from, seen) {
				return false
			}
		case *ssa.MakeInterface:
			if !onlyLogged(u, from, seen) {
				return false
			}
		case *ssa.Store:
			switch a := u.Addr.(type) {
			case *ssa.FieldAddr:
				if from == nil || a.Field != from.Field || !types.Identical(a.X.Type(), from.X.Type()) {
					return false
				}
			case *ssa.IndexAddr:
				al, ok := a.X.(*ssa.Alloc)
				if !ok || al.Comment != "varargs" || !logArgs(al) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// logArgs tells that the arguments of a variable number are those of calls which log.
func logArgs(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Slice:
			for _, x := range *u.Referrers() {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					return false
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "logrus") {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// encoderReset: whatever an encoder keeps between values is gone after a flush.
func encoderReset(c *Check) {
	rule := "an encoder starts anew after a flush"
	w := c.W
	encs := w.implementers("orc/encoding", "Encoder")
	fresh := freshEncoders(c, rule)
	appends := w.appending(encs)
	for _, nt := range encs {
		enc, fl := w.method(nt, "Encode"), w.method(nt, "Flush")
		if enc == nil || fl == nil {
			continue
		}
		con := nt.Obj().Name()
		c.ob(rule, con)
		en := w.newEngine()
		en.TrackStores = true
		en.Opaque = func(f *ssa.Function) bool {
			return w.rel(pkgOf(f)) == "orc/encoding" && f.Parent() == nil && !appends[f] && f.Name() != "Encode" && f.Name() != "Flush"
		}
		recv := en.P.Mk("param", "e", enc.Params[0].Type())
		v, out := en.P.Mk("param", "v", enc.Params[1].Type()), en.P.Mk("param", "out", enc.Params[2].Type())
		cases := w.encoderCases(nt, en.Opaque, fresh)
		dirty := map[*engine.Term]token.Pos{}
		for _, known := range cases {
			for a, pos := range changes(en, recv, recv.Typ, enc, c.run(en, rule, enc, []*engine.Term{recv, v, out}, known(en, recv))) {
				dirty[a] = pos
			}
		}
		for _, known := range cases {
			for _, p := range good(en, fl, c.run(en, rule, fl, []*engine.Term{recv, out}, known(en, recv))) {
				for a, pos := range dirty {
					x := en.Load(p.St, a, cellType(a))
					k := a.Aux + "@" + ownerOf(a)
					c.expect(isFresh(en, p, x, fresh[k]), rule, con, p.RetPos, "%s, changed at %s, is %s after a flush [%s]", a, w.pos(pos), x, lits(p))
				}
			}
		}
	}
	c.atLeast(rule, 5)
}

func cellType(a *engine.Term) types.Type {
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return a.Typ
}

// columnsReset: the next stripe begins with all columns reset.
func columnsReset(c *Check) {
	rule := "every column is reset between stripes"
	fn := c.W.fn("orc", "stripeWriter.forward")
	if !c.expect(fn != nil, rule, "forward", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	cws := columnSlice(en, recv)
	if !c.expect(cws != nil, rule, "forward", fn.Pos(), "column writers not found") {
		return
	}
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		n := 0
		for _, lp := range loops(p.Events) {
			idx := fullLoop(en, lp, p, en.Len(cws))
			if idx == nil {
				continue
			}
			all := len(lp.Iters) > 0
			for _, it := range lp.Iters {
				all = all && len(calls(it.Events, func(e *engine.Event) bool {
					return e.Name == "Reset" && e.Recv != nil && isElem(engine.StripIface(e.Recv), cws, idx)
				})) > 0
			}
			if all {
				n++
			}
		}
		c.expect(n > 0, rule, "forward", fn.Pos(), "not all columns are reset [%s]", lits(p))
		// nothing else of the stripe carries on
		for _, e := range flat(p) {
			if e.e.Kind == "call" && e.e.Recv != nil && typeIs(e.e.Recv.Typ, "orc/column.Writer") {
				c.expect(e.e.Name == "Reset" || e.e.Name == "Size" || strings.HasPrefix(e.e.Name, "Get"), rule, "forward", e.e.Pos, "%s is called on a column between stripes", e.e.Name)
			}
		}
	}
	c.atLeast(rule, 1)
}

// rowsOnce: every row handed in is written once and counted once, in the stripe it is written to.
func rowsOnce(c *Check) {
	rule := "every row is written and counted once"
	w := c.W
	fn, fl, fw := w.fn("orc", "stripeWriter.write"), w.fn("orc", "stripeWriter.flushOut"), w.fn("orc", "stripeWriter.forward")
	if !c.expect(fn != nil && fl != nil && fw != nil, rule, "write", 0, "functions not found") {
		return
	}
	en := w.fileEngine()
	en.TrackStores = true
	old := en.Opaque
	en.Opaque = func(f *ssa.Function) bool {
		return f == fl || f == fw || rowWriter(w, f) || f.Name() == "Len" && f.Signature.Recv() != nil || old != nil && old(f)
	}
	s := c.run(en, rule, fn, nil, nil)
	recv, vec := s.Params[0], s.Params[1]
	info := fieldTerm(en, recv, recv.Typ, ofType("pb/pb.StripeInformation"))
	if !c.expect(info != nil, rule, "write", fn.Pos(), "stripe record not found") {
		return
	}
	rows := derefInit(en, info, info.Typ, "NumberOfRows")
	cell := loadAddr(rows)
	c.ob(rule, "write")
	c.ob(rule, "count")
	c.ob(rule, "flush")
	for _, p := range good(en, fn, s) {
		var row *engine.Loop
		for _, lp := range loops(p.Events) {
			n := 0
			for _, it := range lp.Iters {
				n += len(calls(it.Events, func(e *engine.Event) bool { return rowCall(e) }))
			}
			if n > 0 {
				c.expect(row == nil, rule, "write", lp.Pos, "rows are written by two loops")
				row = lp
			}
		}
		for _, e := range p.Events {
			if e.Kind == "call" && (rowCall(e) || isMethod(e, fl) || isMethod(e, fw)) {
				c.fail(rule, "write", e.Pos, "%s is called outside of the loop over the rows", e.Name)
			}
		}
		if row == nil {
			none := false
			for n := range batchLens(p, vec) {
				v, k := en.Decide(p.St, en.Le(n, en.P.Int(0)))
				none = none || k && v
			}
			c.expect(none, rule, "write", p.RetPos, "no rows are written [%s]", lits(p))
			continue
		}
		idx := rowIndex(en, row, p, batchLens(p, vec))
		if !c.expect(idx != nil, rule, "write", row.Pos, "the rows are not written from the first to the last [%s]", lits(p)) {
			continue
		}
		// count
		end := stripConv(en.Load(p.St, cell, rows.Typ))
		lin := en.P.LinOf(end)
		for i, it := range row.Iters {
			rc := calls(it.Events, rowCall)
			if c.expect(len(rc) == 1, rule, "write", row.Pos, "a row is written %d times [%s]", len(rc), lits(it)) {
				ok, vok := false, false
				for _, a := range rc[0].Args {
					ok = ok || stripConv(a) == idx
					vok = vok || a == vec
				}
				c.expect(ok && vok, rule, "write", rc[0].Pos, "not the next row is written")
			}
			step, carried := en.P.Int(0), int64(0)
			for t, k := range lin.Coef {
				ph := phiOf(row, t)
				if ph == nil {
					c.expect(t == rows, rule, "count", row.Pos, "%s is counted as rows", t)
					continue
				}
				step = en.P.Add(step, en.P.Add(ph.Next[i], ph.Term, -1, ph.Term.Typ), k, ph.Term.Typ)
				if !strings.HasPrefix(ph.Name, "mem:") {
					carried += k
				}
			}
			n, k := stripConv(step).IntVal()
			c.expect(k && n == 1, rule, "count", row.Pos, "a row is counted %s times [%s]", step, lits(it))
			// flush
			var did []*engine.Event
			counted := -1
			rowAt := -1
			for j, e := range it.Events {
				switch {
				case e.Kind == "store" && e.Addr == cell:
					counted = j
				case e.Kind == "call" && rowCall(e):
					rowAt = j
				case e.Kind == "call" && isMethod(e, fl):
					c.expect(takes(e, recv) && rowAt >= 0, rule, "flush", e.Pos, "flushed before the row is written")
					did = append(did, e)
				case e.Kind == "call" && isMethod(e, fw):
					c.expect(takes(e, recv) && len(did) == 1, rule, "flush", e.Pos, "the next stripe is begun after %d flushes", len(did))
					for t := range lin.Coef {
						ph := phiOf(row, t)
						if ph == nil || strings.HasPrefix(ph.Name, "mem:") {
							continue
						}
						c.expect(zeroTerm(stripConv(ph.Next[i])), rule, "count", e.Pos, "rows of the stripe written are counted to the next [%s]", lits(it))
						c.expect(counted >= 0, rule, "count", e.Pos, "the next stripe is begun before the rows are counted")
					}
					did = append(did, e)
				case e.Kind == "loop":
					deep([]*engine.Event{e}, func(x *engine.Event, _ *engine.Loop) {
						if x.Kind == "call" && (isMethod(x, fl) || isMethod(x, fw) || rowCall(x)) {
							c.fail(rule, "flush", x.Pos, "%s is called in a loop", x.Name)
						}
					})
				}
			}
			c.expect(len(did) == 0 || len(did) == 2, rule, "flush", row.Pos, "a stripe is flushed but not left [%s]", lits(it))
			_ = carried
		}
		init := en.P.Int(lin.K)
		for t, k := range lin.Coef {
			if ph := phiOf(row, t); ph != nil {
				init = en.P.Add(init, ph.Init, k, ph.Term.Typ)
			} else {
				init = en.P.Add(init, t, k, rows.Typ)
			}
		}
		c.expect(stripConv(init) == rows, rule, "count", fn.Pos(), "without rows the number of rows becomes %s", init)
	}
	c.atLeast(rule, 3)
}

// rowWriter tells that a function writes one row of a batch: it takes an index and a batch.
func rowWriter(w *World, f *ssa.Function) bool {
	if f.Pkg == nil || w.rel(f.Pkg.Pkg) != "orc" || f.Parent() != nil {
		return false
	}
	vec, idx := false, false
	for _, p := range f.Params {
		vec = vec || typeIs(p.Type(), "orc/api.ColumnVector")
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			idx = true
		}
	}
	return vec && idx && callsColumnWrite(f)
}

func callsColumnWrite(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() && cc.Method.Name() == "Write" && typeIs(cc.Value.Type(), "orc/column.Writer") {
					return true
				}
			}
		}
	}
	return false
}

func rowCall(e *engine.Event) bool {
	if e.Kind != "call" {
		return false
	}
	vec, idx := false, false
	for _, a := range e.Args {
		if a.Typ == nil {
			continue
		}
		vec = vec || typeIs(a.Typ, "orc/api.ColumnVector")
		if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			idx = true
		}
	}
	return vec && idx
}

func isMethod(e *engine.Event, fn *ssa.Function) bool {
	return e.Kind == "call" && e.Callee == fn.String()
}

// rowIndex is the index of the row an iteration of a loop is at, if the loop visits as many rows as
// the batch says it has, from the first to the last.
func rowIndex(en *engine.Engine, lp *engine.Loop, exit *engine.Path, lens map[*engine.Term]bool) *engine.Term {
	for n := range lens {
		if idx := fullLoop(en, lp, exit, n); idx != nil {
			return idx
		}
	}
	reaches := func(st *engine.State, idx *engine.Term, want bool) bool {
		for n := range lens {
			if v, k := en.Decide(st, en.Le(n, idx)); k && v == want {
				return true
			}
		}
		return false
	}
	for _, ph := range lp.Phis {
		ok := zeroTerm(ph.Init) && len(ph.Next) > 0 && reaches(exit.St, ph.Term, true)
		for i, nx := range ph.Next {
			ok = ok && nx == en.P.Add(ph.Term, en.P.Int(1), 1, ph.Term.Typ) && reaches(lp.Iters[i].St, ph.Term, false)
		}
		if ok {
			return ph.Term
		}
	}
	return nil
}

// batchLens lists the results of asking a batch for its number of rows.
func batchLens(p *engine.Path, vec *engine.Term) map[*engine.Term]bool {
	r := map[*engine.Term]bool{}
	for _, x := range flat(p) {
		if x.e.Kind == "call" && x.e.Name == "Len" && len(x.e.Res) > 0 {
			for _, a := range append([]*engine.Term{x.e.Recv}, x.e.Args...) {
				if a != nil && allOf(a, vec) {
					r[x.e.Res[0]] = true
				}
			}
		}
	}
	return r
}

// allOf tells that a value is an object or a copy of it.
func allOf(x, obj *engine.Term) bool {
	if x == obj || x.Op == "load" && x.Args[0] == obj {
		return true
	}
	if x.Op != "struct" || len(x.Args) == 0 {
		return false
	}
	for _, f := range x.Args {
		if f.Op != "load" || f.Args[0].Op != "field" || f.Args[0].Args[0] != obj {
			return false
		}
	}
	return true
}
