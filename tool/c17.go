package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C17"] = property{"static analysis: totality of the dispatches by kind: every value of the column type, encoding, stream kind and compression enumerations (and one outside of them) is tried against the path conditions of the functions choosing by it, and paths reporting success must have made the object or done the conversion they stand for; type assertions and index bounds known on every successful path", rulesC17}
}

// fileEngine keeps columns, streams and compression as effects.
func (w *World) fileEngine() *engine.Engine {
	en := w.newEngine()
	en.Opaque = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Parent() != nil {
			return false
		}
		switch w.rel(f.Pkg.Pkg) {
		case "orc/column", "orc/common", "orc/stream", "orc/encoding", "orc/io":
			return true
		}
		return false
	}
	return en
}

const outside = 99 // a value of no enumeration

func rulesC17(c *Check) {
	factories(c)
	streamDispatch(c)
	compressionDispatch(c)
	indexBounds(c)
	encodersTyped(c)
	modeChecked(c)
	childrenAttached(c)
	emptyBatches(c)
}

// factories: each kind and encoding gives an error or an object; what can be written can be read.
func factories(c *Check) {
	rule := "an unsupported column type or encoding is refused"
	accepted := map[string]map[kindEnc]bool{}
	for _, name := range []string{"NewReader", "NewWriter"} {
		en := c.W.colEngine()
		bs, s := c.factory(rule, name, en)
		if s == nil {
			return
		}
		acc := map[kindEnc]bool{}
		accepted[name] = acc
		all := map[kindEnc]bool{}
		for _, b := range bs {
			con := name + " " + b.ke.String()
			all[b.ke] = true
			c.ob(rule, con)
			if b.path.Panic {
				continue // refused loudly
			}
			if failed(en, b.path) == yes {
				continue
			}
			acc[b.ke] = true
			ok := b.obj != nil && b.T != nil && b.obj.Op != "nil"
			c.expect(ok, rule, con, b.path.RetPos, "neither an object nor an error is returned")
		}
		sch := s.Params[0]
		for _, f := range []string{"Kind", "Encoding"} {
			t := fieldTerm(en, sch, sch.Typ, named(f))
			con := name + " unknown " + f
			c.ob(rule, con)
			for _, p := range s.Paths {
				if v, k := en.Decide(p.St, en.Eq(t, en.P.Int(outside))); k && !v || p.Panic {
					continue
				}
				c.expect(failed(en, p) == yes, rule, con, p.RetPos, "a %s the package does not know is accepted", strings.ToLower(f))
			}
		}
		for ke := range all {
			c.ob(rule, name+" "+ke.String())
		}
	}
	c.atLeast(rule, 60)
	rule = "what is written can be read"
	for ke := range accepted["NewWriter"] {
		c.expect(accepted["NewReader"][ke], rule, ke.String(), 0, "%s is written but not read", ke)
	}
	c.atLeast(rule, 12)
}

// streamDispatch: every kind of stream handed to a column reader is taken or refused.
func streamDispatch(c *Check) {
	rule := "an unknown stream is refused"
	for _, t := range c.W.implementers(colPkg, "Reader") {
		fn := c.W.method(t, "InitStream")
		if fn == nil || fn.Synthetic != "" && t.Obj().Name() == "reader" {
			continue
		}
		en := c.W.colEngine()
		en.TrackStores = true
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		kinds := c.W.streamKinds()
		kinds[outside] = "unknown"
		taken := 0
		for kv, kn := range kinds {
			con := t.Obj().Name() + " " + kn
			c.ob(rule, con)
			for _, p := range good(en, fn, s) {
				compatible, about := kindCompatible(en, p, s.Params[1], kv)
				if !compatible {
					continue
				}
				stored := false
				for a, v := range p.Writes {
					x := engine.StripIface(v)
					ev, isRes := x.Any.(*engine.Event)
					if engine.Root(a) == s.Params[0] && x.Op == "res" && isRes && strings.Contains(ev.Callee, "/orc/stream.New") {
						stored = true
					}
				}
				if about && stored {
					taken++
				}
				c.expect(about && stored, rule, con, p.RetPos, "a %s stream is neither taken nor refused", kn)
			}
		}
		c.expect(taken > 0, rule, t.Obj().Name(), fnPos(fn), "no stream is ever taken")
	}
	c.atLeast(rule, 100)
}

// kindCompatible tells whether a path may be taken for a stream kind, and whether it looks at the kind at all.
func kindCompatible(en *engine.Engine, p *engine.Path, info *engine.Term, kv int64) (ok, about bool) {
	ok = true
	for _, l := range p.Lits {
		if l.Cond.Op != "eq0" {
			continue
		}
		for t := range en.P.LinOf(l.Cond.Args[0]).Coef {
			if t.Typ == nil || !strings.HasSuffix(t.Typ.String(), "pb.Stream_Kind") || !t.Contains(info) {
				continue
			}
			about = true
			if v, k := en.Decide(p.St, en.Eq(t, en.P.Int(kv))); k && !v {
				ok = false
			}
		}
	}
	return
}

// compressionDispatch: functions working by kind of compression know the kind where they succeed.
func compressionDispatch(c *Check) {
	rule := "an unsupported compression is refused"
	kinds := c.W.consts("pb/pb", "CompressionKind")
	kinds[outside] = "unknown"
	for _, fn := range c.W.Funcs {
		if c.W.rel(fn.Pkg.Pkg) != "orc/common" || fn.Parent() != nil || !returnsError(fn) {
			continue
		}
		var kp *ssa.Parameter
		for _, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "pb.CompressionKind") {
				kp = p
			}
		}
		if kp == nil {
			continue
		}
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		var kt *engine.Term
		for i, p := range fn.Params {
			if p == kp {
				kt = s.Params[i]
			}
		}
		var order []int64
		for kv := range kinds {
			order = append(order, kv)
		}
		sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
		accepts := 0
		for _, kv := range order {
			if kinds[kv] == "NONE" || kinds[kv] == "CompressionKind_NONE" {
				continue
			}
			con := short(fn) + " " + kinds[kv]
			c.ob(rule, con)
			for _, p := range good(en, fn, s) {
				if v, k := en.Decide(p.St, en.Eq(kt, en.P.Int(kv))); k && !v {
					continue
				}
				// the algorithm named must be the one applied
				algs := map[string]bool{}
				deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
					if e.Kind == "call" {
						for _, a := range []string{"flate", "zlib", "snappy", "lzo", "lz4", "zstd"} {
							if strings.Contains(e.Callee, "/"+a+".") {
								algs[a] = true
							}
						}
					}
				})
				kn := strings.ToLower(strings.TrimPrefix(kinds[kv], "CompressionKind_"))
				okAlg := len(algs) == 0
				if kn == "zlib" {
					okAlg = !algs["snappy"] && !algs["lzo"] && !algs["lz4"] && !algs["zstd"]
				} else {
					okAlg = len(algs) == 1 && algs[kn]
				}
				accepts++
				c.expect(okAlg && kv != outside, rule, con, p.RetPos, "%s is treated as something else", kinds[kv])
			}
		}
		c.expect(accepts > 0, rule, short(fn), fnPos(fn), "nothing is ever accepted")
	}
	c.atLeast(rule, 24)
}

// indexBounds: row index entries are only used when they are there.
func indexBounds(c *Check) {
	rule := "a stride without entry is refused"
	for _, col := range c.readers(rule) {
		fn, s := c.runMethod(col, rule, "SeekStride", nil)
		if s == nil {
			continue
		}
		con := col.name + ".SeekStride"
		used := false
		for _, p := range good(col.en, fn, s) {
			check := func(t *engine.Term) {
				t.Find(func(x *engine.Term) bool {
					if x.Op == "elem" && strings.Contains(types.TypeString(x.Typ, nil), "RowIndexEntry") {
						used = true
						c.sites++
						idx := x.Args[1]
						lo := knownTrue(col.en, p.St, col.en.Le(col.en.P.Int(0), idx))
						hi := knownTrue(col.en, p.St, col.en.Le(col.en.P.Add(idx, col.en.P.Int(1), 1, idx.Typ), col.en.Len(x.Args[0])))
						c.expect(lo && hi, rule, con, p.RetPos, "entry %s of the index is used without knowing that it exists", idx)
						c.expect(nilChecked(col.en, p, x.Args[0]), rule, con, p.RetPos, "the index is used without knowing that there is one")
					}
					return false
				})
			}
			deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
				for _, a := range e.Args {
					check(a)
				}
			})
		}
		if len(col.perRow) > 0 || col.present != nil {
			c.expect(used, rule, con, fnPos(fn), "no index entry is used for a stride")
		}
	}
	c.atLeast(rule, 10)
}

// nilChecked tells that the pointers a slice is loaded through are known not to be nil.
func nilChecked(en *engine.Engine, p *engine.Path, t *engine.Term) bool {
	for t.Op == "load" {
		a := t.Args[0]
		for a.Op == "field" || a.Op == "elem" {
			a = a.Args[0]
		}
		if a.Op != "load" {
			return true
		}
		if strings.Contains(types.TypeString(a.Typ, nil), "RowIndex") {
			v, k := en.Decide(p.St, isNil(en, a))
			return k && !v
		}
		t = a
	}
	return true
}

// encodersTyped: an encoder succeeds only having asserted the type of the value.
func encodersTyped(c *Check) {
	rule := "values of another type are refused"
	for _, t := range c.W.implementers("orc/encoding", "Encoder") {
		fn := c.W.method(t, "Encode")
		if fn == nil {
			continue
		}
		con := t.Obj().Name() + ".Encode"
		en := c.W.newEngine()
		en.TrackStores = true
		en.Opaque = func(f *ssa.Function) bool { // what only ever sees values of a type already
			for _, q := range f.Params {
				if types.IsInterface(q.Type()) {
					return false
				}
			}
			return f.Parent() == nil
		}
		s := c.run(en, rule, fn, nil, nil)
		v := s.Params[1]
		c.ob(rule, con)
		for _, p := range good(en, fn, s) {
			asserted := false
			for _, l := range p.Lits {
				if l.Cond.Op == "is" && l.Val && l.Cond.Args[0] == v {
					asserted = true
				}
			}
			look := func(x *engine.Term) {
				sources(x, func(_ *engine.Event, y *engine.Term) {
					asserted = asserted || y.Op == "assert" && y.Args[0] == v
				})
			}
			for _, l := range p.Lits {
				look(l.Cond)
			}
			deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
				for _, a := range e.Args {
					look(a)
				}
				look(e.Recv)
				look(e.Val)
			})
			c.expect(asserted, rule, con, p.RetPos, "success is reported for values of any type (%s)", lits(p))
		}
	}
	c.atLeast(rule, 7)
	// columns assert the type, or leave it to the encoder
	cols := map[string]*column{}
	for _, col := range c.writers(rule) {
		cols[col.name] = col
	}
	we := c.W.colEngine()
	wbs, _ := c.factory(rule, "NewWriter", we)
	for _, b := range wbs {
		if b.T == nil || cols[b.T.Obj().Name()] == nil {
			continue
		}
		col := cols[b.T.Obj().Name()]
		fn, s := c.runMethod(col, rule, "Write", col.withConfig(configOf(b, we)))
		if s == nil {
			continue
		}
		con := col.name + ".Write " + b.ke.String()
		null := nullOf(col.en, s.Params[1])
		for _, p := range good(col.en, fn, s) {
			if len(col.perRow) == 0 && len(col.dict) == 0 {
				continue
			}
			if v, k := col.en.Decide(p.St, null); k && v {
				continue
			}
			c.ob(rule, con)
			ok := false
			look := func(x *engine.Term) {
				sources(x, func(_ *engine.Event, y *engine.Term) {
					ok = ok || (y.Op == "assert" || y.Op == "is") && y.Contains(s.Params[1])
				})
			}
			for _, l := range p.Lits {
				if l.Val || l.Cond.Op != "is" {
					look(l.Cond)
				}
			}
			deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
				for _, a := range e.Args {
					look(a)
					// the value itself goes to the encoder
					if e.Kind == "call" && e.Name == "Write" && a.Op != "iface" && a.Contains(s.Params[1]) {
						ok = true
					}
				}
				look(e.Recv)
				look(e.Val)
			})
			c.expect(ok, rule, con, p.RetPos, "a value of any type is taken for one of the column (%s)", lits(p))
		}
	}
}

// nullOf is the Null field of a value handed in.
func nullOf(en *engine.Engine, v *engine.Term) *engine.Term {
	return en.P.Mk("fval", "Null", types.Typ[types.Bool], v)
}

// modeChecked: operations existing for one mode of a stream are refused in the other.
func modeChecked(c *Check) {
	rule := "a request not matching the stream's mode is refused"
	n := 0
	for _, m := range [][2]string{{"IntRLV2Reader", "signed"}, {"FloatReader", "is64"}} {
		tm := c.W.Pkgs["orc/stream"].Type(m[0])
		if !c.expect(tm != nil, rule, m[0], 0, "type not found") {
			continue
		}
		nt := tm.Type().(*types.Named)
		// the mode is what the constructor's flag is kept in
		ctor := c.W.fn("orc/stream", "New"+m[0])
		if !c.expect(ctor != nil, rule, "New"+m[0], 0, "constructor not found") {
			continue
		}
		ce := c.W.newEngine()
		cs := c.run(ce, rule, ctor, nil, nil)
		var flag *engine.Term
		for _, p := range cs.Params {
			if b, ok := p.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				flag = p
			}
		}
		var mode []int
		allFields(nt, func(path []int, v *types.Var) {
			for _, p := range cs.Paths {
				a, ft := addrIn(ce, p, engine.StripIface(p.Ret[0]), types.NewPointer(nt), path)
				if flag != nil && ce.Load(p.St, a, ft) == flag {
					mode = path
				}
			}
		})
		if !c.expect(mode != nil, rule, m[0], ctor.Pos(), "the mode is not kept") {
			continue
		}
		seen := map[bool]bool{}
		ms := c.W.Prog.MethodSets.MethodSet(types.NewPointer(nt))
		for i := 0; i < ms.Len(); i++ {
			fn := c.W.Prog.MethodValue(ms.At(i))
			if fn == nil || !returnsError(fn) || fn.Signature.Results().Len() != 2 || fn.Signature.Params().Len() > 0 {
				continue
			}
			en := c.W.newEngine()
			en.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && c.W.rel(f.Pkg.Pkg) == "orc/encoding" }
			s := c.run(en, rule, fn, nil, nil)
			a, ft := addrOf(en, s.Params[0], types.NewPointer(nt), mode)
			cell := en.P.Mk("load", "0", ft, a)
			con := m[0] + "." + fn.Name()
			vals := map[bool]bool{}
			for _, p := range good(en, fn, s) {
				v, k := en.Decide(p.St, cell)
				if !k {
					c.fail(rule, con, p.RetPos, "values are delivered whatever the mode")
					continue
				}
				vals[v] = true
				seen[v] = true
			}
			n++
			c.expect(len(vals) == 1, rule, con, fnPos(fn), "values are delivered in either mode or none")
		}
		c.expect(seen[true] && seen[false], rule, m[0], ctor.Pos(), "one of the modes cannot be read")
	}
	c.atLeast(rule, 4)
}

// childrenAttached: a column which has children of its own is read with them or not at all.
func childrenAttached(c *Check) {
	rule := "a child column is attached or refused"
	fn := c.W.fn("orc", "newStripeReader")
	if !c.expect(fn != nil, rule, "newStripeReader", 0, "function not found") {
		return
	}
	en := c.W.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	n := 0
	var in func(p *engine.Path, depth int)
	in = func(p *engine.Path, depth int) {
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			for _, ph := range e.Loop.Iters {
				// an iteration over the children of a type
				kids := false
				for _, l := range ph.Lits {
					l.Cond.Find(func(t *engine.Term) bool {
						kids = kids || t.Op == "len" && t.Args[0].Op == "load" && t.Args[0].Args[0].Aux == "Children" && strings.Contains(t.Args[0].Typ.String(), "TypeDescription")
						return false
					})
				}
				if kids && depth > 0 && notExcluded(en, ph) {
					n++
					con := "child of " + kindOfParent(en, ph, c.W)
					set := calls(ph.Events, func(e *engine.Event) bool {
						return e.Recv != nil && strings.Contains(e.Callee, "/orc/column.") && len(e.Args) == 1 && typeIs(e.Args[0].Typ, "orc/column.Reader")
					})
					c.expect(len(set) == 1, rule, con, e.Loop.Pos, "a child is neither attached to its parent nor refused (%s)", lits(ph))
				}
				in(ph, depth+1)
			}
		}
	}
	for _, p := range good(en, fn, s) {
		in(p, 0)
	}
	c.expect(n >= 2, rule, "newStripeReader", fnPos(fn), "children are not looked at")
}

// notExcluded tells an iteration which is not for a column left out of the batch.
func notExcluded(en *engine.Engine, p *engine.Path) bool {
	if _, got := searched(en, p); got != maybe {
		return got == yes
	}
	// the reader of a column left out is missing
	for _, l := range p.Lits {
		if l.Val && l.Cond.Op == "isnil" {
			x := engine.StripIface(l.Cond.Args[0])
			if x.Op == "load" && x.Args[0].Op == "elem" && typeIs(x.Typ, "orc/column.Reader") {
				return false
			}
		}
	}
	return true
}

func kindOfParent(en *engine.Engine, p *engine.Path, w *World) string {
	ks := w.consts("pb/pb", "Type_Kind")
	for _, l := range p.Lits {
		if l.Cond.Op != "eq0" || !l.Val {
			continue
		}
		for t := range en.P.LinOf(l.Cond.Args[0]).Coef {
			if t.Op == "load" && t.Args[0].Aux == "Kind" {
				if v, ok := eqConst(en, p, t); ok {
					return ks[v]
				}
			}
		}
	}
	return "?"
}

// emptyBatches: batches of no rows are refused, they would be read for ever.
func emptyBatches(c *Check) {
	rule := "a batch without rows is refused"
	for _, n := range [][2]string{{"orc", "reader.CreateBatchReader"}, {"orc/api", "TypeDescription.CreateVector"}} {
		fn := c.W.fn(n[0], n[1])
		if !c.expect(fn != nil, rule, n[1], 0, "function not found") {
			continue
		}
		en := c.W.fileEngine()
		op := en.Opaque
		nsr := c.W.fn("orc", "newStripeReader")
		en.Opaque = func(f *ssa.Function) bool {
			return op(f) || f == nsr || strings.HasPrefix(f.Name(), "create") && f.Name() != "createVectorChecked"
		}
		s := c.run(en, rule, fn, nil, nil)
		opt := s.Params[len(s.Params)-1]
		rows := fieldTerm(en, opt, opt.Typ, named("RowSize"))
		if !c.expect(rows != nil, rule, n[1], fnPos(fn), "no row size") {
			continue
		}
		for _, p := range good(en, fn, s) {
			v, k := en.Decide(p.St, en.Eq(rows, en.P.Int(0)))
			c.expect(k && !v, rule, n[1], p.RetPos, "a row size of 0 is accepted")
		}
	}
}
