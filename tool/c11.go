package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C11"] = property{"symbolic effect analysis over go/ssa summaries: the bytes handed to the file by opening and closing a writer are told apart by origin (magic, marshalled footer, marshalled postscript, length byte), every field of footer and postscript is checked as a linear form or loop over all stripes and schemas; on the reader's side each buffer is a region of the file in linear arithmetic and the regions parsed must be the ones written", rulesC11}
}

func rulesC11(c *Check) {
	head := fileHead(c)
	fileTail(c, head)
	tailRead(c)
}

// globalValue is the constant a variable of the package is initialized to and never changed from.
func (w *World) globalValue(t *engine.Term) constant.Value {
	t = stripConv(t)
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op != "global" {
		return nil
	}
	var r constant.Value
	n := 0
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Name() != "init" {
				continue
			}
			n += storesTo(f, t.Aux, &r)
		}
	}
	for _, f := range w.Funcs {
		if f.Name() != "init" || f.Synthetic == "" {
			n += storesTo(f, t.Aux, &r)
		}
	}
	if n != 1 {
		return nil
	}
	return r
}

func storesTo(f *ssa.Function, name string, r *constant.Value) (n int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if g, ok := st.Addr.(*ssa.Global); ok && g.String() == name {
				n++
				if k, ok := st.Val.(*ssa.Const); ok {
					*r = k.Value
				} else {
					*r = nil
				}
			}
		}
	}
	return n
}

// constBytes are the bytes a term stands for.
func (w *World) constBytes(en *engine.Engine, p *engine.Path, t *engine.Term) (string, bool) {
	x := stripConv(t)
	if s, ok := x.StringVal(); ok {
		return s, true
	}
	if v := w.globalValue(x); v != nil && v.Kind() == constant.String {
		return constant.StringVal(v), true
	}
	if el, ok := en.SliceElems(p.St, x); ok {
		var b []byte
		for _, e := range el {
			k, ok := stripConv(e).IntVal()
			if !ok {
				return "", false
			}
			b = append(b, byte(k))
		}
		return string(b), true
	}
	return "", false
}

func (w *World) intValue(t *engine.Term) (int64, bool) {
	if k, ok := stripConv(t).IntVal(); ok {
		return k, true
	}
	if v := w.globalValue(t); v != nil && v.Kind() == constant.Int {
		return constant.Int64Val(v)
	}
	return 0, false
}

// fileOf finds the file opened on a path.
func (w *World) fileOf(p *engine.Path) *engine.Term {
	for _, x := range flat(p) {
		if x.e.Kind != "call" {
			continue
		}
		for _, r := range x.e.Res {
			if w.isFile(r.Typ) {
				return r
			}
		}
	}
	return nil
}

// fileHead: a file begins with the magic bytes and nothing else.
func fileHead(c *Check) int {
	rule := "a file starts with the magic bytes"
	w := c.W
	fn := w.fn("orc", "NewOSFileWriter")
	if !c.expect(fn != nil, rule, "NewOSFileWriter", 0, "function not found") {
		return 0
	}
	en := w.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	n := 0
	for _, p := range good(en, fn, s) {
		f := w.fileOf(p)
		if !c.expect(f != nil, rule, "NewOSFileWriter", fn.Pos(), "no file is opened [%s]", lits(p)) {
			continue
		}
		n++
		head := ""
		for _, x := range flat(p) {
			if x.e.Kind != "call" || !takes(x.e, f) || strings.Contains(x.e.Callee, "orc/column.") {
				continue
			}
			b, ok := "", false
			if x.e.Name == "Write" && x.lp == nil {
				b, ok = w.constBytes(en, p, x.e.Args[0])
			}
			c.expect(ok, rule, "NewOSFileWriter", x.e.Pos, "%s is called on the new file", x.e.Name)
			head += b
		}
		c.expect(head == "ORC", rule, "NewOSFileWriter", fn.Pos(), "the file starts with %q", head)
	}
	c.expect(n > 0, rule, "NewOSFileWriter", fn.Pos(), "no successful path")
	return len("ORC")
}

// tailPiece is something written to the end of a file.
type tailPiece struct {
	content
	elem *engine.Term // a single byte
	e    *engine.Event
}

func fileTail(c *Check, head int) {
	rule := "a file ends with footer, postscript and its length"
	w := c.W
	fn, fl := w.fn("orc", "writer.Close"), w.fn("orc", "stripeWriter.flushOut")
	if !c.expect(fn != nil && fl != nil, rule, "Close", 0, "function not found") {
		return
	}
	en := w.fileEngine()
	old := en.Opaque
	en.Opaque = func(f *ssa.Function) bool { return f == fl || old(f) }
	en.TrackStores = true
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	file := fieldTerm(en, recv, recv.Typ, func(v *types.Var) bool { return w.isFile(v.Type()) })
	opts := fieldTerm(en, recv, recv.Typ, ofType("orc/config.WriterOptions"))
	sw := fieldTerm(en, recv, recv.Typ, ofType("orc.stripeWriter"))
	schemas := fieldTerm(en, recv, recv.Typ, sliceOf("orc/api.TypeDescription"))
	if !c.expect(file != nil && opts != nil && sw != nil && schemas != nil, rule, "Close", fn.Pos(), "fields of the writer not found") {
		return
	}
	infosPath := fieldIndex(sw.Typ, sliceOf("pb/pb.StripeInformation"))
	kind := derefInit(en, opts, opts.Typ, "CompressionKind")
	chunk := derefInit(en, opts, opts.Typ, "ChunkSize")
	if !c.expect(infosPath != nil && kind != nil && chunk != nil, rule, "Close", fn.Pos(), "options or stripe records not found") {
		return
	}
	n := 0
	for _, p := range good(en, fn, s) {
		n++
		var items []tailPiece
		bad := false
		for _, x := range flat(p) {
			if x.e.Kind != "call" {
				continue
			}
			if calledIs(x.e, fl) {
				c.expect(len(items) == 0, rule, "Close", x.e.Pos, "a stripe is written behind the footer")
				continue
			}
			if !takes(x.e, file) || x.e.Name == "Close" || isRecv(x.e, file) && x.e.Name == "Size" {
				continue
			}
			cs, ok := written(en, p, x.e)
			if !c.expect(ok && x.lp == nil, rule, "Close", x.e.Pos, "%s is called on the file: what is written cannot be told", x.e.Name) {
				bad = true
				continue
			}
			for _, k := range cs {
				if k.compressed {
					items = append(items, tailPiece{content: k, e: x.e})
					continue
				}
				if el, ok := en.SliceElems(p.St, k.bytes); ok {
					for _, b := range el {
						items = append(items, tailPiece{elem: b, e: x.e})
					}
					continue
				}
				ps, ok := pieces(en, k.bytes)
				if !c.expect(ok, rule, "Close", x.e.Pos, "what is written cannot be told") {
					bad = true
				}
				for _, q := range ps {
					items = append(items, tailPiece{content: content{bytes: q.spread}, elem: q.elem, e: x.e})
				}
			}
		}
		if bad || !c.expect(len(items) == 3 && items[2].elem != nil && items[0].bytes != nil && items[1].bytes != nil, rule, "Close", p.RetPos, "%d parts are written instead of footer, postscript and a byte [%s]", len(items), lits(p)) {
			continue
		}
		ft, fev := marshalled(items[0].bytes, "pb/pb.Footer")
		ps, pev := marshalled(items[1].bytes, "pb/pb.PostScript")
		if !c.expect(ft != nil && ps != nil, rule, "Close", p.RetPos, "the parts written are %s and %s, not footer and postscript [%s]", items[0].bytes, items[1].bytes, lits(p)) {
			continue
		}
		// nothing is changed after it was marshalled
		after := map[*engine.Term]bool{}
		for _, x := range flat(p) {
			if x.e == fev {
				after[ft] = true
			}
			if x.e == pev {
				after[ps] = true
			}
			for o := range after {
				if x.e.Kind == "store" && x.e.Addr.Contains(o) {
					c.fail(rule, "Close", x.e.Pos, "changed after it was marshalled: %s", x.e.Addr)
				}
			}
		}
		c.expect(!items[1].compressed, rule, "postscript", items[1].e.Pos, "the postscript is compressed")
		b := stripConv(items[2].elem)
		c.expect(b == stripConv(en.Len(items[1].bytes)) || isCount(en, p.St, b, items[1].e) && wholeWrite(items[1]), rule, "length byte", items[2].e.Pos, "the last byte is %s, not the length of the postscript [%s]", items[2].elem, lits(p))

		// compression
		none, known := en.Decide(p.St, en.Eq(kind, en.P.Int(0)))
		c.expect(known && none == !items[0].compressed, rule, "compression", items[0].e.Pos, "the footer is compressed: %v [%s]", items[0].compressed, lits(p))
		if items[0].compressed {
			c.expect(stripConv(items[0].kind) == kind && stripConv(items[0].size) == chunk, rule, "compression", items[0].e.Pos, "the footer is compressed as %s in chunks of %s", items[0].kind, items[0].size)
		}
		v := deref(en, p, ps, ps.Typ, "Compression")
		c.expect(v == kind || equalInts(en, p, v, kind), rule, "compression", pev.Pos, "the postscript tells compression %s", v)
		v = deref(en, p, ps, ps.Typ, "CompressionBlockSize")
		c.expect(v != nil && stripConv(v) == chunk || none && known, rule, "compression", pev.Pos, "the postscript tells a chunk size of %s", v)
		v = deref(en, p, ps, ps.Typ, "FooterLength")
		c.expect(v != nil && footerLength(en, p, v, items[0]), rule, "footer length", pev.Pos, "the postscript tells a footer of length %s [%s]", v, lits(p))
		v = deref(en, p, ps, ps.Typ, "MetadataLength")
		c.expect(v == nil || zeroTerm(stripConv(v)) || v.Op == "load" && v.Args[0].Op == "nil", rule, "metadata", pev.Pos, "the postscript tells %s bytes of metadata, none are written", v)

		// the footer
		a, it := addrIn(en, p, sw, sw.Typ, infosPath)
		infos := en.Load(p.St, a, it)
		v = deref(en, p, ft, ft.Typ, "Stripes")
		c.expect(v == infos || samePieces(en, v, infos), rule, "stripes", fev.Pos, "the footer lists %s instead of all stripes", v)
		v = deref(en, p, ft, ft.Typ, "HeaderLength")
		k, ok := w.intValue(v)
		c.expect(ok && int(k) == head, rule, "header length", fev.Pos, "the footer tells a header of length %s", v)
		sumOver(c, en, p, rule, "content length", fev, deref(en, p, ft, ft.Typ, "ContentLength"), infos, "IndexLength", "DataLength", "FooterLength")
		sumOver(c, en, p, rule, "number of rows", fev, deref(en, p, ft, ft.Typ, "NumberOfRows"), infos, "NumberOfRows")
		typesListed(c, en, p, "the footer lists the schema", fev, deref(en, p, ft, ft.Typ, "Types"), schemas)
	}
	c.expect(n > 0, rule, "Close", fn.Pos(), "no successful path")
	c.atLeast(rule, 8)
	c.atLeast("the footer lists the schema", 3)
}

func isRecv(e *engine.Event, x *engine.Term) bool {
	return e.Recv != nil && engine.StripIface(e.Recv) == engine.StripIface(x)
}

func sliceOf(name string) func(v *types.Var) bool {
	return func(v *types.Var) bool {
		sl, ok := v.Type().Underlying().(*types.Slice)
		return ok && typeIs(sl.Elem(), name)
	}
}

// wholeWrite tells that a part is all that its event wrote.
func wholeWrite(t tailPiece) bool {
	return t.e.Name == "Write" && stripConv(t.e.Args[0]) == t.bytes || t.e.Name == "WriteTo"
}

// marshalled returns the message some bytes are the encoding of.
func marshalled(t *engine.Term, typ string) (*engine.Term, *engine.Event) {
	ev, ok := t.Any.(*engine.Event)
	if !ok || t.Op != "res" || ev.Name != "Marshal" || len(ev.Args) != 1 {
		return nil, nil
	}
	m := engine.StripIface(ev.Args[0])
	if !typeIs(m.Typ, typ) {
		return nil, nil
	}
	return m, ev
}

func equalInts(en *engine.Engine, p *engine.Path, a, b *engine.Term) bool {
	return a != nil && b != nil && isIntType(a.Typ) && isIntType(b.Typ) && knownTrue(en, p.St, en.Eq(stripConv(a), stripConv(b)))
}

// footerLength tells that a number is that of the bytes written for the footer.
func footerLength(en *engine.Engine, p *engine.Path, v *engine.Term, f tailPiece) bool {
	v = stripConv(v)
	if isCount(en, p.St, v, f.e) && wholeWrite(f) {
		return true
	}
	if !f.compressed {
		return v == stripConv(en.Len(f.bytes))
	}
	// the length of the buffer holding the footer alone
	ev, ok := v.Any.(*engine.Event)
	if ok && v.Op == "res" && ev.Name == "Len" && ev.Recv != nil {
		cs, ok := bufferHolds(en, p, ev.Recv, ev)
		return ok && len(cs) == 1 && cs[0].compressed && cs[0].bytes == f.bytes
	}
	// the length of the slice written
	if f.e.Name == "Write" {
		return v == stripConv(en.Len(f.e.Args[0]))
	}
	return false
}

func samePieces(en *engine.Engine, a, b *engine.Term) bool {
	if a == nil || b == nil {
		return false
	}
	pa, ok1 := pieces(en, a)
	pb, ok2 := pieces(en, b)
	if !ok1 || !ok2 || len(pa) != len(pb) {
		return false
	}
	for i := range pa {
		if pa[i].lp != nil || pb[i].lp != nil || pa[i].elem != pb[i].elem || pa[i].spread != pb[i].spread {
			return false
		}
	}
	return true
}

// sumOver: a number is the sum of fields over all elements of a slice of messages.
func sumOver(c *Check, en *engine.Engine, p *engine.Path, rule, con string, e *engine.Event, v, arr *engine.Term, fields ...string) {
	c.ob(rule, con)
	if !c.expect(v != nil, rule, con, e.Pos, "not set") {
		return
	}
	ad, ok := addends(en, v)
	if !c.expect(ok, rule, con, e.Pos, "is %s, which is no sum", v) {
		return
	}
	lps := map[*engine.Loop]bool{}
	for _, x := range ad {
		if x.lp == nil {
			c.expect(zeroTerm(x.t), rule, con, e.Pos, "%s is added", x.t)
			continue
		}
		lps[x.lp] = true
	}
	seen := map[string]bool{}
	for lp := range lps {
		idx := fullLoop(en, lp, p, en.Len(arr))
		if !c.expect(idx != nil, rule, con, lp.Pos, "not every stripe is added") {
			continue
		}
		got := map[string]bool{}
		for k, it := range lp.Iters {
			count := map[string]int{}
			for _, x := range ad {
				if x.lp != lp || x.it != it {
					continue
				}
				f := ""
				if x.t.Op == "load" && x.t.Args[0].Op == "load" {
					a := x.t.Args[0].Args[0]
					if a.Op == "field" && isElem(a.Args[0], arr, idx) {
						f = a.Aux
					}
				}
				c.expect(f != "", rule, con, lp.Pos, "%s is added, which is no length of the stripe", x.t)
				count[f]++
			}
			for f, n := range count {
				c.expect(n == 1, rule, con, lp.Pos, "%s is added %d times", f, n)
				if k == 0 {
					got[f] = true
				}
				c.expect(got[f], rule, con, lp.Pos, "%s is not added for every stripe [%s]", f, lits(it))
			}
			c.expect(len(count) == len(got), rule, con, lp.Pos, "not everything is added for every stripe [%s]", lits(it))
		}
		for f := range got {
			c.expect(!seen[f], rule, con, lp.Pos, "%s is added by two loops", f)
			seen[f] = true
		}
	}
	for _, f := range fields {
		c.expect(seen[f], rule, con, e.Pos, "%s of the stripes is not added", f)
		delete(seen, f)
	}
	c.expect(len(seen) == 0, rule, con, e.Pos, "%v is added", sortedKeys(seen))
}

// iterVal is the value of an element in an iteration.
type iterVal struct {
	it *engine.Path
	v  *engine.Term
}

// mapped describes a slice filled with one element for each of n indices, in order.
func mapped(en *engine.Engine, exit *engine.Path, t, n *engine.Term) (lp *engine.Loop, idx *engine.Term, vals []iterVal) {
	if ps, ok := pieces(en, t); ok && len(ps) == 1 && ps[0].lp != nil {
		idx := fullLoop(en, ps[0].lp, exit, n)
		if idx == nil {
			return nil, nil, nil
		}
		for k, it := range ps[0].iters {
			if len(it) != 1 || it[0].elem == nil {
				return nil, nil, nil
			}
			vals = append(vals, iterVal{ps[0].lp.Iters[k], it[0].elem})
		}
		return ps[0].lp, idx, vals
	}
	sl, ok := t.Typ.Underlying().(*types.Slice)
	if t.Op != "make" || !ok || en.Len(t) != n && stripConv(en.Len(t)) != stripConv(n) {
		return nil, nil, nil
	}
	for _, e := range exit.Events {
		if e.Kind != "loop" {
			continue
		}
		idx := fullLoop(en, e.Loop, exit, n)
		if idx == nil {
			continue
		}
		a := en.ElemAddr(t, idx, sl.Elem())
		vals = nil
		for _, it := range e.Loop.Iters {
			v := it.Writes[a]
			if v == nil {
				break
			}
			vals = append(vals, iterVal{it, v})
		}
		if len(vals) > 0 && len(vals) == len(e.Loop.Iters) {
			return e.Loop, idx, vals
		}
	}
	return nil, nil, nil
}

// copied tells that a slice holds just the elements of another one, which f recognizes.
func copied(en *engine.Engine, p *engine.Path, t *engine.Term, f func(src *engine.Term) bool) bool {
	if f(t) {
		return true
	}
	if ps, ok := pieces(en, t); ok && len(ps) == 1 && ps[0].spread != nil && ps[0].spread != t && f(ps[0].spread) {
		return true
	}
	for _, e := range p.Events {
		if e.Kind == "call" && e.Name == "copy" && len(e.Args) == 2 && e.Args[0] == t && f(e.Args[1]) && en.Len(t) == en.Len(e.Args[1]) {
			return true
		}
	}
	// element by element
	for _, e := range p.Events {
		if e.Kind != "loop" || len(e.Loop.Iters) == 0 {
			continue
		}
		if ps, ok := pieces(en, t); ok && len(ps) == 1 && ps[0].lp != nil {
			return spreadOf(en, p, ps[0], f)
		}
		if t.Op != "make" {
			continue
		}
		idx := fullLoop(en, e.Loop, p, en.Len(t))
		if idx == nil {
			continue
		}
		ok := true
		for _, it := range e.Loop.Iters {
			v := it.Writes[en.ElemAddr(t, idx, t.Typ.Underlying().(*types.Slice).Elem())]
			ok = ok && v != nil && v.Op == "load" && v.Args[0].Op == "elem" && v.Args[0].Args[1] == idx && f(v.Args[0].Args[0]) && en.Len(v.Args[0].Args[0]) == en.Len(t)
		}
		if ok {
			return true
		}
	}
	return false
}

// ofElem tells that a term is a field of an element of a slice, however often memory was looked at since.
func ofElem(t, arr, idx *engine.Term, field string) bool {
	t = stripConv(t)
	return t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == field && isElem(t.Args[0].Args[0], arr, idx)
}

// typesListed: the types in a footer are the schemas, with their children and names.
func typesListed(c *Check, en *engine.Engine, p *engine.Path, rule string, e *engine.Event, v, schemas *engine.Term) {
	c.ob(rule, "types")
	_, idx, vals := mapped(en, p, v, en.Len(schemas))
	if !c.expect(idx != nil, rule, "types", e.Pos, "the types listed are %s, not one for each schema", v) {
		return
	}
	for _, x := range vals {
		it, ty := x.it, x.v
		if !c.expect(ty.Op == "alloc", rule, "types", e.Pos, "a type is not its own object") {
			continue
		}
		c.ob(rule, "kind")
		k := deref(en, it, ty, ty.Typ, "Kind")
		c.expect(k != nil && ofElem(k, schemas, idx, "Kind"), rule, "kind", e.Pos, "the kind of a type is %s [%s]", k, lits(it))
		c.ob(rule, "names")
		names := deref(en, it, ty, ty.Typ, "FieldNames")
		c.expect(copied(en, it, names, func(s *engine.Term) bool { return ofElem(s, schemas, idx, "ChildrenNames") }), rule, "names", e.Pos, "the names of the children are %s [%s]", names, lits(it))
		c.ob(rule, "children")
		subs := deref(en, it, ty, ty.Typ, "Subtypes")
		children := childrenOf(en, it, subs)
		none := children == nil && subs != nil && subs.Op == "nil"
		if none {
			// left out where there are none
			ok := false
			for _, l := range it.Lits {
				walkTerm(l.Cond, func(y *engine.Term) {
					if y.Op == "len" && ofElem(y.Args[0], schemas, idx, "Children") {
						n, k := en.Decide(it.St, en.Eq(y, en.P.Int(0)))
						ok = ok || k && n
					}
				})
			}
			c.expect(ok, rule, "children", e.Pos, "the children are left out [%s]", lits(it))
			continue
		}
		c.expect(children != nil && ofElem(children, schemas, idx, "Children"), rule, "children", e.Pos, "the children listed are %s, not the ids of all children in order [%s]", subs, lits(it))
	}
}

// childrenOf returns the slice of schemas whose ids a slice holds.
func childrenOf(en *engine.Engine, p *engine.Path, subs *engine.Term) *engine.Term {
	var arr *engine.Term
	find := func(v *engine.Term) {
		v = stripConv(v)
		if v.Op == "load" && v.Args[0].Op == "field" && v.Args[0].Aux == "Id" {
			if a := loadAddr(v.Args[0].Args[0]); a != nil && a.Op == "elem" {
				arr = a.Args[0]
			}
		}
	}
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		for _, it := range e.Loop.Iters {
			for _, v := range it.Writes {
				find(v)
			}
		}
	}
	if arr == nil {
		if ps, ok := pieces(en, subs); ok && len(ps) == 1 {
			for _, it := range ps[0].iters {
				for _, x := range it {
					if x.elem != nil {
						find(x.elem)
					}
				}
			}
		}
	}
	if arr == nil {
		return nil
	}
	_, idx, vals := mapped(en, p, subs, en.Len(arr))
	if idx == nil {
		return nil
	}
	for _, x := range vals {
		if !ofElem(x.v, arr, idx, "Id") {
			return nil
		}
	}
	return arr
}

// region is a part of the file in memory.
type region struct{ start, size *engine.Term }

type tailReader struct {
	en   *engine.Engine
	p    *engine.Path
	file *engine.Term
}

// region tells what part of the file a slice holds.
func (r *tailReader) region(t *engine.Term) *region {
	en := r.en
	I := types.Typ[types.Int64]
	switch t.Op {
	case "make":
		var last *engine.Event
		for _, e := range r.p.Events {
			if e.Kind != "call" || !takes(e, r.file) {
				continue
			}
			full := (e.Name == "ReadFull" || e.Name == "ReadAtLeast") && len(e.Args) >= 2 && engine.StripIface(e.Args[0]) == engine.StripIface(r.file) && e.Args[1] == t
			if full {
				if e.Name == "ReadAtLeast" && (len(e.Args) != 3 || stripConv(e.Args[2]) != stripConv(en.Len(t))) {
					return nil
				}
				if last == nil || last.Name != "Seek" {
					return nil
				}
				off := r.seekedTo(last)
				if off == nil {
					return nil
				}
				return &region{off, stripConv(en.Len(t))}
			}
			last = e
		}
		return nil
	case "sl":
		x := r.region(t.Args[0])
		if x == nil {
			return nil
		}
		lo, hi := en.P.Int(0), x.size
		if t.Args[1].Op != "nil" {
			lo = t.Args[1]
		}
		if len(t.Args) > 2 && t.Args[2].Op != "nil" {
			hi = t.Args[2]
		}
		return &region{en.P.Add(x.start, lo, 1, I), en.P.Add(hi, lo, -1, I)}
	case "seq":
		var all *region
		for _, a := range t.Args {
			if a.Op != "s" {
				return nil
			}
			x := r.region(a.Args[0])
			if x == nil {
				return nil
			}
			if all == nil {
				all = x
				continue
			}
			if stripConv(en.P.Add(all.start, all.size, 1, I)) != stripConv(x.start) {
				return nil
			}
			all = &region{all.start, en.P.Add(all.size, x.size, 1, I)}
		}
		return all
	}
	return nil
}

func (r *tailReader) size() *engine.Term {
	for _, e := range r.p.Events {
		if e.Kind == "call" && e.Name == "Size" && isRecv(e, r.file) && len(e.Res) > 0 {
			return e.Res[0]
		}
	}
	return nil
}

func (r *tailReader) seekedTo(e *engine.Event) *engine.Term {
	if len(e.Args) != 2 || !isRecv(e, r.file) {
		return nil
	}
	wh, ok := e.Args[1].IntVal()
	if !ok {
		return nil
	}
	switch wh {
	case 0:
		return stripConv(e.Args[0])
	case 2:
		if s := r.size(); s != nil {
			return r.en.P.Add(s, stripConv(e.Args[0]), 1, types.Typ[types.Int64])
		}
	}
	return nil
}

// parsed finds where a message is decoded from bytes.
func parsed(p *engine.Path, typ string) []*engine.Event {
	return calls(p.Events, func(e *engine.Event) bool {
		return e.Kind == "call" && e.Name == "Unmarshal" && len(e.Args) == 2 && typeIs(engine.StripIface(e.Args[1]).Typ, typ)
	})
}

// inflated tells what bytes a buffer holds the decompressed contents of.
func inflated(en *engine.Engine, p *engine.Path, buf *engine.Term, stop *engine.Event) (src, kind *engine.Term, ok bool) {
	buf = engine.StripIface(buf)
	empty := buf.Op == "alloc"
	if ev, isEv := buf.Any.(*engine.Event); isEv && buf.Op == "res" && ev.Name == "NewBuffer" {
		n, k := en.Len(ev.Args[0]).IntVal()
		empty = ev.Args[0].Op == "nil" || k && n == 0
		if ev.Args[0].Op == "sl" || ev.Args[0].Op == "make" {
			empty = empty || knownZero(en, p, en.Len(ev.Args[0]))
		}
	}
	n := 0
	for _, e := range p.Events {
		if e == stop {
			break
		}
		if e.Kind == "loop" {
			bad := false
			deep([]*engine.Event{e}, func(f *engine.Event, _ *engine.Loop) { bad = bad || takes(f, buf) })
			if bad {
				return nil, nil, false
			}
		}
		if !takes(e, buf) {
			continue
		}
		switch {
		case isRecv(e, buf) && e.Name == "Reset":
			empty = true
			n = 0
		case isRecv(e, buf) && (e.Name == "Grow" || e.Name == "Len" || e.Name == "Cap"):
		case strings.HasSuffix(e.Callee, "orc/common.DecompressChunks") && len(e.Args) == 3 && engine.StripIface(e.Args[1]) == buf:
			n++
			if !empty || n > 1 {
				return nil, nil, false
			}
			kind = e.Args[0]
			in := engine.StripIface(e.Args[2])
			ev, isEv := in.Any.(*engine.Event)
			if !isEv || in.Op != "res" || ev.Name != "NewBuffer" && ev.Name != "NewReader" {
				return nil, nil, false
			}
			for _, g := range p.Events {
				if g == e {
					break
				}
				if g != ev && takes(g, in) {
					return nil, nil, false
				}
			}
			src = ev.Args[0]
		default:
			return nil, nil, false
		}
	}
	return src, kind, n == 1
}

func tailRead(c *Check) {
	rule := "postscript and footer are found where they were written"
	w := c.W
	fn := w.fn("orc", "NewOSFileReader")
	if !c.expect(fn != nil, rule, "NewOSFileReader", 0, "function not found") {
		return
	}
	en := w.fileEngine()
	en.TrackStores = true
	s := c.run(en, rule, fn, nil, nil)
	I := types.Typ[types.Int64]
	n := 0
	for _, p := range good(en, fn, s) {
		file := w.fileOf(p)
		if !c.expect(file != nil, rule, "NewOSFileReader", p.RetPos, "no file is opened") {
			continue
		}
		n++
		r := &tailReader{en, p, file}
		size := r.size()
		pe, fe := parsed(p, "pb/pb.PostScript"), parsed(p, "pb/pb.Footer")
		if !c.expect(size != nil && len(pe) == 1 && len(fe) == 1, rule, "NewOSFileReader", p.RetPos, "postscript and footer are not parsed once each [%s]", lits(p)) {
			continue
		}
		ps, ft := engine.StripIface(pe[0].Args[1]), engine.StripIface(fe[0].Args[1])
		reg := r.region(pe[0].Args[0])
		c.ob(rule, "postscript")
		if !c.expect(reg != nil, rule, "postscript", pe[0].Pos, "the postscript is parsed from %s, which cannot be located in the file [%s]", pe[0].Args[0], lits(p)) {
			continue
		}
		end := en.P.Add(reg.start, reg.size, 1, I)
		c.expect(stripConv(end) == stripConv(en.P.Add(size, en.P.Int(1), -1, I)), rule, "postscript", pe[0].Pos, "the postscript is taken to end at %s", end)
		psLen := stripConv(reg.size)
		ok := false
		if a := loadAddr(psLen); a != nil && a.Op == "elem" {
			if x := r.region(a.Args[0]); x != nil {
				ok = stripConv(en.P.Add(x.start, a.Args[1], 1, I)) == stripConv(en.P.Add(size, en.P.Int(1), -1, I))
			}
		}
		c.expect(ok, rule, "length byte", pe[0].Pos, "the length of the postscript is %s, not the last byte of the file", psLen)
		c.ob(rule, "length byte")

		kind := deref(en, p, ps, ps.Typ, "Compression")
		src := fe[0].Args[0]
		c.ob(rule, "compression")
		none, known := en.Decide(p.St, en.Eq(kind, en.P.Int(0)))
		if ev, ok := src.Any.(*engine.Event); ok && src.Op == "res" && ev.Name == "Bytes" && ev.Recv != nil {
			in, k, ok := inflated(en, p, ev.Recv, ev)
			if !c.expect(ok, rule, "compression", fe[0].Pos, "what the footer is parsed from cannot be told [%s]", lits(p)) {
				continue
			}
			c.expect(known && !none && stripConv(k) == stripConv(kind), rule, "compression", fe[0].Pos, "the footer is decompressed as %s [%s]", k, lits(p))
			src = in
		} else {
			c.expect(known && none, rule, "compression", fe[0].Pos, "the footer is not decompressed [%s]", lits(p))
		}
		reg = r.region(src)
		c.ob(rule, "footer")
		if !c.expect(reg != nil, rule, "footer", fe[0].Pos, "the footer is parsed from %s, which cannot be located in the file [%s]", src, lits(p)) {
			continue
		}
		end = en.P.Add(reg.start, reg.size, 1, I)
		want := en.P.Add(en.P.Add(size, en.P.Int(1), -1, I), psLen, -1, I)
		c.expect(stripConv(end) == stripConv(want), rule, "footer", fe[0].Pos, "the footer is taken to end at %s, the postscript begins at %s", end, want)
		fl := deref(en, p, ps, ps.Typ, "FooterLength")
		c.expect(stripConv(reg.size) == stripConv(fl), rule, "footer", fe[0].Pos, "the footer is taken to be of %s bytes", reg.size)
		// all of it was read
		if src.Op == "sl" && src.Args[1].Op != "nil" {
			meta := deref(en, p, ps, ps.Typ, "MetadataLength")
			lo := src.Args[1]
			free := en.P.Add(lo, stripConv(meta), -1, I)
			c.expect(knownTrue(en, p.St, en.Le(en.P.Int(0), lo)) || knownTrue(en, p.St, en.Le(en.P.Int(0), free)) || stripConv(lo) == stripConv(meta), rule, "footer", fe[0].Pos, "the footer begins before what was read: at %s [%s]", lo, lits(p))
		}
		readerMade(c, en, p, ps, ft, kind)
	}
	c.expect(n > 0, rule, "NewOSFileReader", fn.Pos(), "no successful path")
	c.atLeast(rule, 4)
	c.atLeast("the reader is told what the file tells", 6)
}

// readerMade: what the reader goes by is what footer and postscript tell.
func readerMade(c *Check, en *engine.Engine, p *engine.Path, ps, ft, kind *engine.Term) {
	rule := "the reader is told what the file tells"
	rd := engine.StripIface(p.Ret[0])
	w := c.W
	field := func(f func(v *types.Var) bool) *engine.Term {
		path := fieldIndex(rd.Typ, f)
		if path == nil {
			return nil
		}
		a, t := addrIn(en, p, rd, rd.Typ, path)
		return en.Load(p.St, a, t)
	}
	opts := field(ofType("orc/config.ReaderOptions"))
	schemas := field(sliceOf("orc/api.TypeDescription"))
	stripes := field(sliceOf("pb/pb.StripeInformation"))
	stats := field(sliceOf("pb/pb.ColumnStatistics"))
	if !c.expect(opts != nil && schemas != nil && stripes != nil && stats != nil, rule, "reader", p.RetPos, "fields of the reader not found") {
		return
	}
	msg := func(f string) *engine.Term { return deref(en, p, ft, ft.Typ, f) }
	c.ob(rule, "stripes")
	c.expect(stripes == msg("Stripes") || samePieces(en, stripes, msg("Stripes")), rule, "stripes", p.RetPos, "the stripes are %s", stripes)
	c.ob(rule, "statistics")
	c.expect(stats == msg("Statistics") || samePieces(en, stats, msg("Statistics")), rule, "statistics", p.RetPos, "the statistics are %s", stats)
	c.ob(rule, "rows")
	if get := w.method(deptr(rd.Typ).(*types.Named), "NumberOfRows"); c.expect(get != nil, rule, "rows", p.RetPos, "NumberOfRows not found") {
		ge := w.newEngine()
		gs := c.run(ge, rule, get, nil, nil)
		for _, q := range gs.Paths {
			a := loadAddr(stripConv(q.Ret[0]))
			ok := a != nil && a.Op == "field" && a.Args[0] == gs.Params[0]
			if c.expect(ok, rule, "rows", get.Pos(), "the number of rows told is %s", q.Ret[0]) {
				v := field(named(a.Aux))
				c.expect(v != nil && stripConv(v) == stripConv(msg("NumberOfRows")), rule, "rows", p.RetPos, "the number of rows is %s", v)
			}
		}
	}
	c.ob(rule, "compression")
	v := deref(en, p, opts, opts.Typ, "CompressionKind")
	none, known := en.Decide(p.St, en.Eq(kind, en.P.Int(0)))
	c.expect(stripConv(v) == stripConv(kind) || equalInts(en, p, v, kind), rule, "compression", p.RetPos, "the compression is %s", v)
	if !known || !none {
		v = deref(en, p, opts, opts.Typ, "ChunkSize")
		want := deref(en, p, ps, ps.Typ, "CompressionBlockSize")
		c.expect(stripConv(v) == stripConv(want), rule, "compression", p.RetPos, "the chunk size is %s", v)
	}
	// schemas
	ty := msg("Types")
	_, idx, vals := mapped(en, p, schemas, en.Len(ty))
	c.ob(rule, "schemas")
	if !c.expect(idx != nil, rule, "schemas", p.RetPos, "the schemas are not one for each type") {
		return
	}
	for _, x := range vals {
		if !c.expect(x.v.Op == "alloc", rule, "schemas", p.RetPos, "a schema is not its own object") {
			continue
		}
		k := deref(en, x.it, x.v, x.v.Typ, "Kind")
		c.expect(ofElem(k, ty, idx, "Kind") || k.Op == "load" && ofElem(k.Args[0], ty, idx, "Kind"), rule, "schemas", p.RetPos, "the kind of a schema is %s", k)
		id := deref(en, x.it, x.v, x.v.Typ, "Id")
		c.expect(stripConv(id) == stripConv(idx), rule, "schemas", p.RetPos, "the id of a schema is %s", id)
	}
	nulls, kids := 0, 0
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		for _, it := range e.Loop.Iters {
			var subs []*engine.Event
			for _, x := range it.Events {
				if x.Kind != "store" || x.Addr.Op != "field" {
					continue
				}
				o := x.Addr.Args[0]
				if !isElemOf(o, schemas) {
					continue
				}
				at := loadAddr(engine.StripIface(o)).Args[1]
				switch x.Addr.Aux {
				case "HasNulls":
					nulls++
					i := fullLoop(en, e.Loop, p, en.Len(stats))
					v := x.Val
					c.expect(i != nil && at == i && (ofElem(v, stats, i, "HasNull") || v.Op == "load" && ofElem(v.Args[0], stats, i, "HasNull")), rule, "nulls", x.Pos, "whether a column has nulls is taken from %s", v)
				case "Children", "ChildrenNames":
					subs = append(subs, x)
					i := fullLoop(en, e.Loop, p, en.Len(ty))
					c.expect(i != nil && at == i, rule, "children", x.Pos, "set for %s", o)
				default:
					c.fail(rule, "schemas", x.Pos, "%s of a schema is changed to %s", x.Addr.Aux, x.Val)
				}
			}
			for _, x := range subs {
				i := fullLoop(en, e.Loop, p, en.Len(ty))
				if i == nil {
					continue
				}
				ok := false
				what := ""
				if x.Addr.Aux == "Children" {
					kids++
					what = "Subtypes"
					ok = childSchemas(en, it, x.Val, schemas, ty, i)
				} else {
					what = "FieldNames"
					ok = childNames(en, it, x.Val, ty, i)
				}
				c.expect(ok, rule, "children", x.Pos, "%s is set to %s, not made of %s in order [%s]", x.Addr.Aux, x.Val, what, lits(it))
			}
			if len(subs) == 0 && kids > 0 && len(e.Loop.Iters) > 1 && e.Loop.Iters[0] != it {
				// left out only where there are none
				if i := fullLoop(en, e.Loop, p, en.Len(ty)); i != nil {
					ok := false
					for _, l := range it.Lits {
						walkTerm(l.Cond, func(y *engine.Term) {
							if y.Op == "len" && ofElem(y.Args[0], ty, i, "Subtypes") {
								z, k := en.Decide(it.St, en.Eq(y, en.P.Int(0)))
								ok = ok || k && z
							}
						})
					}
					c.expect(ok, rule, "children", e.Loop.Pos, "children are left out [%s]", lits(it))
				}
			}
		}
	}
	c.ob(rule, "nulls")
	c.ob(rule, "children")
	c.expect(nulls > 0, rule, "nulls", p.RetPos, "whether a column has nulls is not set")
	c.expect(kids > 0, rule, "children", p.RetPos, "children are not set")
}

// childSchemas tells that a slice holds the schema of every subtype of a type, in order.
func childSchemas(en *engine.Engine, p *engine.Path, v, schemas, ty, i *engine.Term) bool {
	subs := subtypesIn(p, ty, i)
	for _, s := range subs {
		_, j, vals := mapped(en, p, v, en.Len(s))
		if j == nil {
			continue
		}
		ok := true
		for _, x := range vals {
			a := loadAddr(engine.StripIface(x.v))
			ok = ok && a != nil && a.Op == "elem" && a.Args[0] == schemas && isElem(stripConv(a.Args[1]), s, j)
		}
		if ok {
			return true
		}
	}
	return false
}

// childNames tells that the names of a structure's children are taken in order.
func childNames(en *engine.Engine, p *engine.Path, v, ty, i *engine.Term) bool {
	isNames := func(s *engine.Term) bool { return ofElem(s, ty, i, "FieldNames") }
	if copied(en, p, v, isNames) {
		return true
	}
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		idx := fullLoop(en, e.Loop, p, en.Len(v))
		if idx == nil || v.Op != "make" {
			continue
		}
		ok, n := true, 0
		for _, it := range e.Loop.Iters {
			x := it.Writes[en.ElemAddr(v, idx, v.Typ.Underlying().(*types.Slice).Elem())]
			if x == nil {
				ok = ok && knownKind(en, it, ty, i, 12) == no
				continue
			}
			n++
			ok = ok && x.Op == "load" && x.Args[0].Op == "elem" && x.Args[0].Args[1] == idx && isNames(x.Args[0].Args[0])
		}
		if ok && n > 0 {
			return true
		}
	}
	return false
}

// subtypesIn finds the terms standing for the subtypes of a type.
func subtypesIn(p *engine.Path, ty, i *engine.Term) []*engine.Term {
	seen := map[*engine.Term]bool{}
	look := func(y *engine.Term) {
		if ofElem(y, ty, i, "Subtypes") {
			seen[y] = true
		}
	}
	var walk func(q *engine.Path)
	walk = func(q *engine.Path) {
		for _, l := range q.Lits {
			walkTerm(l.Cond, look)
		}
		for _, e := range q.Events {
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					walk(it)
				}
			}
		}
	}
	walk(p)
	var r []*engine.Term
	for t := range seen {
		r = append(r, t)
	}
	return r
}

// knownKind tells whether a type is known (not) to be of a kind.
func knownKind(en *engine.Engine, p *engine.Path, ty, i *engine.Term, kind int64) tri {
	r := maybe
	for _, l := range p.Lits {
		walkTerm(l.Cond, func(y *engine.Term) {
			if y.Op == "load" && ofElem(y.Args[0], ty, i, "Kind") {
				if v, k := en.Decide(p.St, en.Eq(y, en.P.Int(kind))); k {
					if v {
						r = yes
					} else {
						r = no
					}
				}
			}
		})
	}
	return r
}

// walkTerm visits all subterms.
func walkTerm(t *engine.Term, f func(*engine.Term)) {
	t.Find(func(x *engine.Term) bool { f(x); return false })
}
