package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C09"] = property{"static analysis: ownership typestate of file handles: on every path of every function acquiring one it is closed or handed to an object that is kept, never both; the Close method of every owner closes each handle, stream and child it owns exactly once on every path and nothing else", rulesC09}
}

func rulesC09(c *Check) {
	acquired(c)
	columnsClosed(c)
	streamsClosed(c)
	ownersClosed(c)
	initUndone(c)
}

// acquires tells whether a call opens a file handle.
func (w *World) acquires(e *engine.Event) bool {
	if e.Kind != "call" || len(e.Res) != 2 {
		return false
	}
	switch e.Callee {
	case "os.Open", "os.Create", "os.OpenFile":
		return true
	}
	return w.isFile(e.Res[0].Typ) && (e.Name == "Clone" || strings.HasPrefix(e.Name, "Open"))
}

// fnAcquires: the function itself contains such a call.
func fnAcquires(w *World, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			res := cc.Signature().Results()
			if res.Len() != 2 {
				continue
			}
			name := ""
			if cc.IsInvoke() {
				name = cc.Method.Name()
			} else if f := cc.StaticCallee(); f != nil {
				name = f.Name()
			}
			if (w.isFile(res.At(0).Type()) || res.At(0).Type().String() == "*os.File") && (name == "Clone" || strings.HasPrefix(name, "Open") || name == "Create") {
				return true
			}
		}
	}
	return false
}

func isClose(e *engine.Event, h *engine.Term) bool {
	return e.Kind == "call" && e.Name == "Close" && e.Recv != nil && engine.StripIface(e.Recv) == h
}

func acquired(c *Check) {
	rule := "a handle opened is kept or closed"
	for _, fn := range c.W.Funcs {
		if !strings.HasPrefix(c.W.rel(fn.Pkg.Pkg), "orc") || fn.Parent() != nil || fn.Synthetic != "" || !fnAcquires(c.W, fn) {
			continue
		}
		en := c.W.fileEngine()
		if c.W.rel(fn.Pkg.Pkg) != "orc" {
			en = c.W.colEngine()
		}
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := short(fn)
		c.ob(rule, con)
		n := 0
		for _, p := range s.Paths {
			if p.Panic {
				continue
			}
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if !c.W.acquires(e) {
					return
				}
				if v, k := en.Decide(p.St, isNil(en, e.Res[1])); k && !v {
					return // nothing was opened
				}
				n++
				c.sites++
				h := engine.StripIface(e.Res[0])
				if in != nil {
					c.fail(rule, con, e.Pos, "%s is called in a loop, which is not followed", e.Name)
					return
				}
				closed := 0
				deep(p.Events, func(x *engine.Event, l *engine.Loop) {
					if isClose(x, h) {
						closed++
						if l != nil {
							closed++
						}
					}
				})
				kept := failed(en, p) != yes && (owned(en, s, p, h, 0))
				switch {
				case closed > 1:
					c.fail(rule, con, p.RetPos, "the handle of %s is closed twice (%s)", e.Name, lits(p))
				case closed == 1 && kept:
					c.fail(rule, con, p.RetPos, "the handle of %s is closed and then handed out (%s)", e.Name, lits(p))
				case closed == 0 && !kept:
					c.fail(rule, con, p.RetPos, "the handle of %s is neither closed nor kept (%s)", e.Name, lits(p))
				}
			})
		}
		c.expect(n > 0, rule, con, fnPos(fn), "no path opening a handle was followed")
	}
	c.atLeast(rule, 15)
}

// owned tells whether x is held by what a path returns or what outlives it.
func owned(en *engine.Engine, s *engine.Summary, p *engine.Path, x *engine.Term, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, r := range p.Ret {
		if engine.StripIface(r) == x {
			return true
		}
	}
	for _, pr := range s.Params {
		if pr == x {
			return true
		}
	}
	for a, v := range p.Writes {
		if !holds(v, x) {
			continue
		}
		root := engine.Root(a)
		if root != x && owned(en, s, p, root, depth+1) {
			return true
		}
	}
	for _, e := range calls(p.Events, nil) {
		if e.Name == "Close" || len(e.Res) == 0 || !strings.HasPrefix(strings.ToLower(e.Name), "new") {
			continue
		}
		for _, a := range e.Args {
			if engine.StripIface(a) == x && owned(en, s, p, engine.StripIface(e.Res[0]), depth+1) {
				return true
			}
		}
	}
	return false
}

// holds: a value is, or contains directly, x.
func holds(v, x *engine.Term) bool {
	v = engine.StripIface(v)
	if v == x {
		return true
	}
	if v.Op == "struct" {
		for _, a := range v.Args {
			if holds(a, x) {
				return true
			}
		}
	}
	return false
}

// columnsClosed: closing a column reader closes each of its streams and children once.
func columnsClosed(c *Check) {
	rule := "closing a column closes its streams and children"
	for _, col := range c.readers(rule) {
		en := col.en
		fn, s := c.runMethod(col, rule, "Close", nil)
		if s == nil {
			continue
		}
		done := map[*engine.Term]bool{}
		for _, st := range col.streams {
			if done[st.term] {
				continue
			}
			done[st.term] = true
			con := col.name + " " + st.name
			c.ob(rule, con)
			for _, p := range s.Paths {
				absent := knownTrue(en, p.St, isNil(en, st.term))
				if st == col.present && col.nulls != nil && knownTrue(en, p.St, notTerm(en, col.nulls)) {
					absent = true
				}
				c.once(rule, con, p, st.term, absent)
			}
		}
		for _, ch := range col.children {
			con := col.name + " " + fieldName(ch)
			c.ob(rule, con)
			for _, p := range s.Paths {
				c.once(rule, con, p, ch, knownTrue(en, p.St, isNil(en, ch)))
			}
		}
		if col.childArr != nil {
			con := col.name + " " + fieldName(col.childArr)
			c.ob(rule, con)
			for _, p := range s.Paths {
				closesAll(c, en, rule, con, p, col.childArr, func(e *engine.Event, idx *engine.Term) bool {
					return e.Name == "Close" && e.Recv != nil && isElem(engine.StripIface(e.Recv), col.childArr, idx)
				})
			}
		}
		// nothing else, such as the handle all columns share
		con := col.name + " others"
		c.ob(rule, con)
		for _, p := range s.Paths {
			c.expect(!p.Panic, rule, con, fnPos(fn), "closing panics")
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind != "call" || e.Name != "Close" || e.Recv == nil {
					return
				}
				r := engine.StripIface(e.Recv)
				if done[r] || in != nil && col.childArr != nil && r.Contains(col.childArr) {
					return
				}
				for _, ch := range col.children {
					if ch == r {
						return
					}
				}
				c.fail(rule, con, e.Pos, "%v is closed, which the column does not own", r)
			})
		}
	}
	c.atLeast(rule, 40)
}

// once demands one Close of x on a path, none when it is absent.
func (c *Check) once(rule, con string, p *engine.Path, x *engine.Term, absent bool) {
	n := 0
	deep(p.Events, func(e *engine.Event, in *engine.Loop) {
		if isClose(e, x) {
			n++
			if in != nil {
				n++
			}
		}
	})
	switch {
	case absent && n > 0: // closing nothing is harmless
	case !absent && n != 1:
		c.fail(rule, con, p.RetPos, "%s is closed %d times (%s)", fieldName(x), n, lits(p))
	}
}

// closesAll demands a loop over all of a slice with one matching call in every iteration.
func closesAll(c *Check, en *engine.Engine, rule, con string, p *engine.Path, arr *engine.Term, match func(e *engine.Event, idx *engine.Term) bool) {
	n := 0
	for _, lp := range loops(p.Events) {
		idx := fullLoop(en, lp, p, en.Len(arr))
		if idx == nil {
			continue
		}
		all := len(lp.Iters) > 0
		for _, it := range lp.Iters {
			k := 0
			nilElem := false
			deep(it.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind == "call" && match(e, idx) {
					k++
					if in != nil {
						k++
					}
				}
			})
			for _, l := range it.Lits {
				if l.Val && l.Cond.Op == "isnil" && l.Cond.Args[0].Find(func(t *engine.Term) bool { return isElem(t, arr, idx) }) != nil {
					nilElem = true
				}
			}
			if k != 1 && !(nilElem && k == 0) {
				all = false
			}
		}
		if all {
			n++
		}
	}
	if n == 0 && knownTrue(en, p.St, en.Le(en.Len(arr), en.P.Int(0))) {
		return // nothing to close
	}
	c.expect(n == 1, rule, con, p.RetPos, "not all of %s are closed once (%s)", fieldName(arr), lits(p))
}

// streamsClosed: closing a stream closes its handle.
func streamsClosed(c *Check) {
	rule := "closing a stream closes its handle"
	p := c.W.Pkgs["orc/stream"]
	for _, n := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(t) {
			continue
		}
		fn := c.W.method(t, "Close")
		if fn == nil {
			continue
		}
		hp, opt := handlePath(c.W, t)
		if hp == nil {
			continue
		}
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name()
		c.ob(rule, con)
		for _, q := range s.Paths {
			h, _ := addrOf(en, s.Params[0], types.NewPointer(t), hp)
			ht := en.P.Mk("load", "0", fieldTypeAt(t, hp), h)
			absent := knownTrue(en, q.St, isNil(en, s.Params[0]))
			for k := range opt {
				a, ft := addrOf(en, s.Params[0], types.NewPointer(t), opt[k])
				if knownTrue(en, q.St, isNil(en, en.P.Mk("load", "0", ft, a))) {
					absent = true
				}
			}
			c.expect(!q.Panic, rule, con, fnPos(fn), "closing panics")
			c.once(rule, con, q, ht, absent)
			for _, e := range calls(q.Events, func(e *engine.Event) bool { return e.Name == "Close" && e.Recv != nil }) {
				c.expect(engine.StripIface(e.Recv) == ht, rule, con, e.Pos, "%v is closed too", e.Recv)
			}
		}
	}
	c.atLeast(rule, 6)
}

// handlePath finds the file handle of a stream through its pointers, and the pointers on the way.
func handlePath(w *World, t types.Type) (path []int, ptrs [][]int) {
	type item struct {
		t    types.Type
		path []int
		ptrs [][]int
	}
	queue := []item{{t, nil, nil}}
	for n := 0; len(queue) > 0 && n < 100; n++ {
		it := queue[0]
		queue = queue[1:]
		tt := it.t
		if p, ok := tt.Underlying().(*types.Pointer); ok {
			tt = p.Elem()
		}
		st, ok := tt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			p := append(append([]int{}, it.path...), i)
			ft := st.Field(i).Type()
			if typeIs(ft, "orc/io.File") {
				return p, it.ptrs
			}
			pt, isPtr := ft.(*types.Pointer)
			if isPtr {
				if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() != nil && w.rel(nt.Obj().Pkg()) == "orc/stream" {
					queue = append(queue, item{ft, p, append(append([][]int{}, it.ptrs...), p)})
				}
			} else if nt, ok := ft.(*types.Named); ok && nt.Obj().Pkg() != nil && w.rel(nt.Obj().Pkg()) == "orc/stream" {
				queue = append(queue, item{ft, p, it.ptrs})
			}
		}
	}
	return nil, nil
}

func fieldTypeAt(t types.Type, path []int) types.Type {
	for _, k := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		t = t.Underlying().(*types.Struct).Field(k).Type()
	}
	return t
}

// ownersClosed: the readers and writers of files close what they own.
func ownersClosed(c *Check) {
	rule := "closing a reader or writer closes what it owns"
	for _, iface := range []string{"Reader", "Writer"} {
		for _, t := range c.W.implementers("orc", iface) {
			fn := c.W.method(t, "Close")
			en := c.W.fileEngine()
			s := c.run(en, rule, fn, nil, nil)
			if s == nil {
				continue
			}
			con := t.Obj().Name()
			c.ob(rule, con)
			h := fieldTerm(en, s.Params[0], s.Params[0].Typ, ofType("orc/io.File"))
			if !c.expect(h != nil, rule, con, fnPos(fn), "no file handle is found") {
				continue
			}
			for _, p := range s.Paths {
				if !p.Panic {
					c.once(rule, con, p, h, false)
				}
			}
		}
	}
	for _, t := range c.W.implementers("orc", "BatchReader") {
		fn := c.W.method(t, "Close")
		en := c.W.fileEngine()
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name()
		arr := fieldTerm(en, s.Params[0], s.Params[0].Typ, func(v *types.Var) bool {
			sl, ok := v.Type().(*types.Slice)
			return ok && ownsColumns(c.W, sl.Elem())
		})
		if !c.expect(arr != nil, rule, con, fnPos(fn), "the stripes are not found") {
			continue
		}
		for _, p := range s.Paths {
			closesAll(c, en, rule, con, p, arr, func(e *engine.Event, idx *engine.Term) bool {
				r := e.Recv
				return e.Name == "Close" && r != nil && r.Typ != nil && typeIs(engine.StripIface(r).Typ, "orc/column.Reader") && r.Find(func(x *engine.Term) bool { return isElem(x, arr, idx) }) != nil
			})
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind == "call" && e.Name == "Close" && e.Recv != nil && c.W.isFile(e.Recv.Typ) {
					c.fail(rule, con, e.Pos, "%v is closed, which belongs to the file reader", e.Recv)
				}
			})
		}
	}
	c.atLeast(rule, 3)
}

// ownsColumns: a pointer to a struct with a column reader.
func ownsColumns(w *World, t types.Type) bool {
	return fieldIndex(t, ofType("orc/column.Reader")) != nil
}

// initUndone: what was opened for a batch reader is closed when it cannot be completed.
func initUndone(c *Check) {
	rule := "what was opened is closed on failure"
	// the columns of a stripe
	fn := c.W.fn("orc", "newStripeReader")
	if c.expect(fn != nil, rule, "newStripeReader", 0, "function not found") {
		en := c.W.fileEngine()
		s := c.run(en, rule, fn, nil, nil)
		n := 0
		for _, p := range s.Paths {
			made := false
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind == "call" && strings.HasSuffix(e.Callee, "/orc/column.NewReader") {
					made = true
				}
			})
			if !made || p.Panic || failed(en, p) == no {
				continue
			}
			n++
			undone := false
			for _, lp := range loops(p.Events) {
				if closing(en, p, lp) {
					undone = true
				}
			}
			c.expect(undone, rule, "newStripeReader columns", p.RetPos, "the columns made so far are not closed (%s)", lits(p))
		}
		c.expect(n > 3, rule, "newStripeReader columns", fnPos(fn), "no failing path after making columns was followed")
	}
	// the stripes of a batch reader
	for _, t := range c.W.implementers("orc", "Reader") {
		fn := c.W.method(t, "CreateBatchReader")
		en := c.W.fileEngine()
		fo := en.Opaque
		nsr := c.W.fn("orc", "newStripeReader")
		en.Opaque = func(f *ssa.Function) bool { return fo(f) || f == nsr }
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name() + " stripes"
		n := 0
		for _, p := range s.Paths {
			for _, lp := range loops(p.Events) {
				for i, it := range lp.Iters {
					for _, e := range calls(it.Events, func(e *engine.Event) bool { return calledIs(e, nsr) }) {
						n++
						keptNow := false
						for _, ph := range lp.Phis {
							if i < len(ph.Next) && ph.Next[i] != nil && ph.Next[i].Find(func(x *engine.Term) bool { return x == e.Res[0] }) != nil {
								keptNow = true
							}
						}
						for _, v := range it.Writes {
							if v.Find(func(x *engine.Term) bool { return x == e.Res[0] }) != nil {
								keptNow = true
							}
						}
						c.expect(keptNow, rule, con, e.Pos, "the stripe reader is not kept")
					}
				}
			}
			made := false
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind == "call" && calledIs(e, nsr) {
					made = true
				}
			})
			if failed(en, p) == no || !made {
				continue
			}
			undone := false
			for _, lp := range loops(p.Events) {
				if closing(en, p, lp) {
					undone = true
				}
			}
			c.expect(undone, rule, con, p.RetPos, "the stripes made so far are not closed (%s)", lits(p))
		}
		c.expect(n > 0, rule, con, fnPos(fn), "no stripe is made")
	}
}

// closing tells whether a loop closes everything of the slice it runs over.
func closing(en *engine.Engine, p *engine.Path, lp *engine.Loop) bool {
	var arr *engine.Term
	for _, it := range lp.Iters {
		for _, e := range calls(it.Events, func(e *engine.Event) bool { return e.Name == "Close" && e.Recv != nil }) {
			e.Recv.Find(func(t *engine.Term) bool {
				if t.Op == "elem" && arr == nil {
					arr = t.Args[0]
				}
				return false
			})
		}
	}
	if arr == nil || fullLoop(en, lp, p, en.Len(arr)) == nil {
		return false
	}
	for _, it := range lp.Iters {
		nils := false
		for _, l := range it.Lits {
			if l.Val && l.Cond.Op == "isnil" && l.Cond.Args[0].Contains(arr) {
				nils = true
			}
		}
		n := len(calls(it.Events, func(e *engine.Event) bool { return e.Name == "Close" }))
		if n != 1 && !(nils && n == 0) {
			return false
		}
	}
	return true
}
