package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C14"] = property{"path-sensitive effect analysis over go/ssa summaries: on every path of writing a row the statistics cells change by the linear forms and under the comparisons their meaning demands, sizes are the sum of the lengths of all live streams, and the statistics listed are the cells of each column in order", rulesC14}
}

func rulesC14(c *Check) {
	rule := "values are counted"
	cfgs := c.settings("NewWriter", rule)
	for _, col := range c.writers(rule) {
		for _, nulls := range []bool{false, true} {
			for _, cfg := range cfgs[col.name] {
				rowStats(c, col, nulls, cfg)
			}
			sizeOnDisk(c, col, nulls)
		}
	}
	c.atLeast(rule, 20)
	c.atLeast("size on disk is the sum of all streams", 20)
	c.atLeast("minimum and maximum follow the values", 10)
	statsBuiltRight(c)
	statsListed(c)
}

// statCell is a cell of the statistics of a column: Kind.Field.
type statCell struct {
	kind, field string
	addr, init  *engine.Term
}

// statCells lists the cells of kinds of statistics known to be there.
func (col *column) statCells() (count *engine.Term, r []statCell) {
	en := col.en
	st := fieldTerm(en, col.recv, types.NewPointer(col.T), ofType("pb/pb.ColumnStatistics"))
	if st == nil {
		return nil, nil
	}
	count = derefInit(en, st, st.Typ, "NumberOfValues")
	for _, k := range []string{"IntStatistics", "DoubleStatistics", "DateStatistics", "TimestampStatistics"} {
		if !col.stats[k] {
			continue
		}
		ks := fieldTerm(en, st, st.Typ, named(k))
		if ks == nil {
			continue
		}
		allFields(ks.Typ, func(path []int, v *types.Var) {
			if !v.Exported() || strings.HasPrefix(v.Name(), "XXX") {
				return
			}
			x := derefInit(en, ks, ks.Typ, v.Name())
			if x != nil && x.Op == "load" {
				r = append(r, statCell{k, v.Name(), x.Args[0], x})
			}
		})
	}
	return count, r
}

// setting is what fields of a column type are set to by the factory where it differs by kind.
type setting struct {
	name string
	cfg  map[string]*engine.Term
}

// settings lists the settings each column type is built with.
func (c *Check) settings(factory, rule string) map[string][]setting {
	en := c.W.colEngine()
	bs, _ := c.factory(rule, factory, en)
	all := map[string][]setting{}
	differ := map[string]map[string]bool{}
	for _, b := range bs {
		if b.T == nil {
			continue
		}
		t := b.T.Obj().Name()
		n := setting{"", configOf(b, en)}
		for _, o := range all[t] {
			for k := range n.cfg {
				if o.cfg[k] != n.cfg[k] {
					if differ[t] == nil {
						differ[t] = map[string]bool{}
					}
					differ[t][k] = true
				}
			}
		}
		all[t] = append(all[t], n)
	}
	r := map[string][]setting{}
	for t, ss := range all {
		seen := map[string]bool{}
		for _, x := range ss {
			for k := range x.cfg {
				if !differ[t][k] {
					delete(x.cfg, k)
				}
			}
			var vs []string
			for k, v := range x.cfg {
				vs = append(vs, " "+k+"="+v.String())
			}
			sort.Strings(vs)
			x.name = strings.Join(vs, "")
			if !seen[x.name] {
				seen[x.name] = true
				r[t] = append(r[t], x)
			}
		}
	}
	return r
}

func rowStats(c *Check, col *column, nulls bool, set setting) {
	rule := "values are counted"
	con := col.name + " " + cfgName(nulls) + set.name
	en := col.en
	fn := c.W.method(col.T, "Write")
	if fn == nil {
		return
	}
	T := types.NewPointer(col.T)
	val := en.P.Mk("param", "value", fn.Params[1].Type())
	null := en.P.Mk("fval", "Null", types.Typ[types.Bool], val)
	_, s := c.runMethod(col, rule, "Write", also(col.withNulls(nulls), col.withStats(), col.withConfig(set.cfg)), val)
	count, cells := col.statCells()
	st := fieldTerm(en, col.recv, T, ofType("pb/pb.ColumnStatistics"))
	if !c.expect(s != nil && count != nil && st != nil, rule, con, fn.Pos(), "statistics not found") {
		return
	}
	ps := good(en, fn, s)
	isZero := en.Eq(count, en.P.Int(0))
	// what the statistics are made of
	stored := map[string]map[*engine.Term]bool{}
	for _, p := range ps {
		for _, sc := range cells {
			if v := later(en, p.St, sc.init, nil); v != sc.init {
				if stored[sc.kind+"."+sc.field] == nil {
					stored[sc.kind+"."+sc.field] = map[*engine.Term]bool{}
				}
				if v.Op != "min" && v.Op != "max" {
					stored[sc.kind+"."+sc.field][v] = true
				}
			}
		}
	}
	rule2 := "minimum and maximum follow the values"
	n := 0
	for _, p := range ps {
		c.expect(en.Load(p.St, loadAddr(st), st.Typ) == st, rule, con, p.RetPos, "the statistics of the file are replaced")
		isNull, known := en.Decide(p.St, null)
		if known && isNull {
			for a, v := range p.Writes {
				c.expect(!a.Contains(st) || v == en.P.Mk("load", "0", v.Typ, a), rule, con, p.RetPos, "a null row changes %s [%s]", a, lits(p))
			}
			for _, x := range flat(p) {
				c.expect(x.e.Kind != "store" || !x.e.Addr.Contains(st), rule, con, x.e.Pos, "a null row changes the statistics")
			}
			continue
		}
		n++
		end := en.Load(p.St, loadAddr(count), count.Typ)
		c.expect(stripConv(end) == stripConv(en.P.Add(count, en.P.Int(1), 1, count.Typ)), rule, con, p.RetPos, "after a value the number of values is %s [%s]", end, lits(p))
		first, firstKnown := en.Decide(p.St, isZero)
		for _, sc := range cells {
			name := con + " " + sc.kind + "." + sc.field
			v := later(en, p.St, sc.init, nil)
			changed := v != sc.init
			isMin, isMax := strings.HasPrefix(sc.field, "Min"), strings.HasPrefix(sc.field, "Max")
			switch {
			case isMin || isMax:
				c.ob(rule2, name)
				before := func(x, y *engine.Term) (bool, bool) { // x comes before y or equals it
					if isMax {
						x, y = y, x
					}
					return notAfter(en, p, x, y)
				}
				switch {
				case changed && (v.Op == "min" && isMin || v.Op == "max" && isMax):
					c.expect(len(v.Args) == 2 && (v.Args[0] == sc.init || v.Args[1] == sc.init) && firstKnown && !first, rule2, name, p.RetPos, "becomes %s [%s]", v, lits(p))
				case changed:
					b, k := before(v, sc.init)
					c.expect(firstKnown && first || k && b, rule2, name, p.RetPos, "becomes %s, which is neither the first value nor known to be beyond the old one [%s]", v, lits(p))
					c.expect(madeOf(v, val), rule2, name, p.RetPos, "becomes %s, which is not made of the value", v)
					sameValue(c, col, rule2, name, p, sc, v)
				default:
					ok := false
					for x := range stored[sc.kind+"."+sc.field] {
						b, k := before(sc.init, x)
						ok = ok || k && b
						// beyond the other end: the old minimum is no larger than the old maximum
						for _, o := range cells {
							if o.kind == sc.kind && o.field != sc.field && strings.TrimPrefix(strings.TrimPrefix(o.field, "Min"), "Max") == sc.field[3:] && stored[o.kind+"."+o.field][x] {
								b, k := before(o.init, x)
								ok = ok || k && b
							}
						}
					}
					c.expect(ok && firstKnown && !first, rule2, name, p.RetPos, "does not change, though this may be the first value or beyond the old one [%s]", lits(p))
				}
			case sc.field == "Sum":
				x := addedTo(en, v, sc.init)
				if c.expect(changed && x != nil && madeOf(x, val), rule2, name, p.RetPos, "becomes %s, not the old sum and the value [%s]", v, lits(p)) {
					sameValue(c, col, rule2, name, p, sc, x)
				}
			}
		}
	}
	c.expect(n > 0, rule, con, fn.Pos(), "no path writes a value")
	// nothing but rows changes them
	for _, m := range []string{"Reset", "WriteOut", "Flush"} {
		f, ms := c.runMethod(col, rule, m, also(col.withNulls(nulls), col.withStats()))
		if f == nil {
			continue
		}
		size := derefInit(en, st, st.Typ, "BytesOnDisk")
		for _, p := range good(en, f, ms) {
			for a, v := range p.Writes {
				if a.Contains(st) && !(m == "Flush" && a == loadAddr(size)) {
					c.expect(v == en.P.Mk("load", "0", v.Typ, a), rule, con, p.RetPos, "%s changes %s", m, a)
				}
			}
			c.expect(en.Load(p.St, loadAddr(st), st.Typ) == st, rule, con, p.RetPos, "%s replaces the statistics of the file", m)
		}
	}
}

// notAfter tells whether x <= y is known on a path, for integers and floats (x not greater than y).
func notAfter(en *engine.Engine, p *engine.Path, x, y *engine.Term) (bool, bool) {
	if isIntType(x.Typ) && isIntType(y.Typ) {
		if v, k := en.Decide(p.St, en.Le(x, y)); k {
			return v, true
		}
		// x < y known implies it
		if v, k := en.Decide(p.St, en.Le(en.P.Add(x, en.P.Int(1), 1, x.Typ), y)); k && v {
			return true, true
		}
		return false, false
	}
	B := types.Typ[types.Bool]
	if v, k := en.Decide(p.St, en.P.Mk("lt", "", B, y, x)); k {
		return !v, true
	}
	if v, k := en.Decide(p.St, en.P.Mk("lt", "", B, x, y)); k && v {
		return true, true
	}
	return false, false
}

// madeOf tells that a term depends on the row's value.
func madeOf(t, val *engine.Term) bool {
	if t.Contains(val) {
		return true
	}
	found := false
	sources(t, func(ev *engine.Event, x *engine.Term) {
		if ev == nil {
			return
		}
		for _, a := range append([]*engine.Term{ev.Recv}, ev.Args...) {
			found = found || a != nil && a.Contains(val)
		}
	})
	return found
}

// addedTo takes the addend out of a sum.
func addedTo(en *engine.Engine, v, old *engine.Term) *engine.Term {
	if v == nil {
		return nil
	}
	if v.Op == "bin" && v.Aux == "+" && len(v.Args) == 2 {
		if v.Args[0] == old {
			return v.Args[1]
		}
		if v.Args[1] == old {
			return v.Args[0]
		}
		return nil
	}
	if !isIntType(v.Typ) {
		return nil
	}
	d := en.P.Add(v, old, -1, v.Typ)
	if en.P.LinOf(d).Coef[old] != 0 {
		return nil
	}
	return d
}

// plainValue strips conversions and type assertions.
func plainValue(t *engine.Term) *engine.Term {
	for {
		switch t.Op {
		case "conv", "iface", "assert":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// sameValue: statistics are about the value written to the data stream; those of timestamps about its milliseconds.
func sameValue(c *Check, col *column, rule, con string, p *engine.Path, sc statCell, v *engine.Term) {
	if sc.kind == "TimestampStatistics" {
		c.expect(isMillis(col.en, v), rule, con, p.RetPos, "%s is not a number of milliseconds since the epoch", v)
		return
	}
	for _, st := range col.perRow {
		if st.kind != "DATA" {
			continue
		}
		for _, e := range st.on(p.Events, writePrim) {
			c.expect(plainValue(e.Args[0]) == plainValue(v), rule, con, e.Pos, "%s is written, but %s goes into the statistics", e.Args[0], v)
		}
	}
}

// isMillis tells that a term is (base+Seconds)*1000 + Nanos/1000000 of a timestamp, or that of the time made of it.
func isMillis(en *engine.Engine, v *engine.Term) bool {
	lin := en.P.LinOf(stripConv(v))
	secs, base, whole, frac := int64(0), int64(0), int64(0), int64(0)
	if lin.K != 0 {
		return false
	}
	for t, k := range lin.Coef {
		x := stripConv(t)
		switch {
		case isField(x, "Seconds"):
			secs += k
		case strings.HasPrefix(x.Op, "bin") && (x.Aux == "/" || strings.HasSuffix(x.Op, "/")) && len(x.Args) == 2:
			d, ok := x.Args[1].IntVal()
			n := stripConv(x.Args[0])
			ev, isRes := n.Any.(*engine.Event)
			if !ok || d != 1000000 || !isField(n, "Nanos") && !(isRes && n.Op == "res" && ev.Name == "Nanosecond") {
				return false
			}
			frac += k
		default:
			ev, ok := x.Any.(*engine.Event)
			if !ok || x.Op != "res" || ev.Recv == nil {
				return false
			}
			switch timeOf(en, ev.Recv) {
			case "epoch":
				if ev.Name != "Unix" {
					return false
				}
				base += k
			case "value":
				switch ev.Name {
				case "Unix":
					whole += k
				case "UnixMilli":
					return k == 1 && len(lin.Coef) == 1
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return frac == 1 && (secs == 1000 && base == 1000 && whole == 0 || whole == 1000 && secs == 0 && base == 0)
}

func isField(t *engine.Term, name string) bool {
	return t.Op == "fval" && t.Aux == name || t.Op == "load" && fieldName(t) == name
}

// timeOf tells the epoch of timestamps (a constant date) from the time a timestamp denotes.
func timeOf(en *engine.Engine, t *engine.Term) string {
	for i := 0; i < 5; i++ {
		ev, ok := t.Any.(*engine.Event)
		if !ok || t.Op != "res" {
			return ""
		}
		switch ev.Name {
		case "In", "UTC", "Local":
			t = ev.Recv
			continue
		case "Date":
			want := []int64{2015, 1, 1, 0, 0, 0, 0}
			for i, w := range want {
				if i >= len(ev.Args) {
					return ""
				}
				if v, ok := ev.Args[i].IntVal(); !ok || v != w {
					return ""
				}
			}
			return "epoch"
		case "Unix":
			if len(ev.Args) != 2 || !isField(stripConv(ev.Args[1]), "Nanos") {
				return ""
			}
			lin := en.P.LinOf(stripConv(ev.Args[0]))
			ok := lin.K == 0 && len(lin.Coef) == 2
			for a, k := range lin.Coef {
				a = stripConv(a)
				e, isRes := a.Any.(*engine.Event)
				ok = ok && k == 1 && (isField(a, "Seconds") || isRes && a.Op == "res" && e.Name == "Unix" && e.Recv != nil && timeOf(en, e.Recv) == "epoch")
			}
			if ok {
				return "value"
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

func sizeOnDisk(c *Check, col *column, nulls bool) {
	rule := "size on disk is the sum of all streams"
	con := col.name + " " + cfgName(nulls)
	en := col.en
	fn, s := c.runMethod(col, rule, "Flush", also(col.withNulls(nulls), col.withStats()))
	st := fieldTerm(en, col.recv, types.NewPointer(col.T), ofType("pb/pb.ColumnStatistics"))
	if fn == nil || st == nil {
		return
	}
	old := derefInit(en, st, st.Typ, "BytesOnDisk")
	for _, p := range good(en, fn, s) {
		c.ob(rule, con)
		end := deref(en, p, st, st.Typ, "BytesOnDisk")
		ad, ok := addends(en, end)
		if !c.expect(ok, rule, con, p.RetPos, "the size on disk becomes %s [%s]", end, lits(p)) {
			continue
		}
		got := map[*colStream]int{}
		hadOld := 0
		for _, x := range ad {
			if x.t == stripConv(old) {
				hadOld++
				continue
			}
			stream := (*colStream)(nil)
			for t := x.t; t != nil; {
				if ev, ok := t.Any.(*engine.Event); ok && t.Op == "res" && ev.Name == "Info" {
					stream = col.streamOf(ev.Recv)
				}
				if len(t.Args) == 0 || t.Op == "res" {
					break
				}
				t = t.Args[0]
			}
			isLen := x.t.Op == "load" && (fieldName(x.t) == "Length" || x.t.Args[0].Op == "load" && fieldName(x.t.Args[0]) == "Length")
			if c.expect(stream != nil && isLen && x.lp == nil, rule, con, p.RetPos, "%s is added, which is not the length of a stream [%s]", x.t, lits(p)) {
				got[stream]++
			}
		}
		c.expect(hadOld == 1, rule, con, p.RetPos, "the size of the stripes before is not kept: %s", end)
		for _, x := range col.live(nulls) {
			want := 1
			if got[x] == 0 && noLength(en, p, x) {
				want = 0
			}
			c.expect(got[x] == want, rule, con, p.RetPos, "the length of stream %s is added %d times [%s]", x.name, got[x], lits(p))
		}
	}
}

// noLength tells that a path found no length in the information of a stream.
func noLength(en *engine.Engine, p *engine.Path, st *colStream) bool {
	for _, e := range st.on(p.Events, map[string]bool{"Info": true}) {
		if len(e.Res) == 0 {
			continue
		}
		i := e.Res[0]
		if v, k := en.Decide(p.St, isNil(en, i)); k && v {
			return true
		}
		if pt, ok := i.Typ.Underlying().(*types.Pointer); ok {
			if f := fieldIndex(pt.Elem(), named("Length")); f != nil {
				a, ft := addrOf(en, i, i.Typ, f)
				if v, k := en.Decide(p.St, isNil(en, en.Load(p.St, a, ft))); k && v {
					return true
				}
			}
		}
	}
	return false
}

// statsBuiltRight: statistics start at nothing, tell whether there may be nulls, and share nothing with those of the index.
func statsBuiltRight(c *Check) {
	rule := "statistics start empty and tell whether nulls may occur"
	en := c.W.colEngine()
	bs, s := c.factory(rule, "NewWriter", en)
	if s == nil {
		return
	}
	sch := s.Params[0]
	nulls := fieldTerm(en, sch, sch.Typ, named("HasNulls"))
	for _, b := range bs {
		if b.T == nil {
			continue
		}
		con := b.ke.String()
		path := fieldIndex(b.T, ofType("pb/pb.ColumnStatistics"))
		if !c.expect(path != nil, rule, con, 0, "no statistics kept") {
			continue
		}
		a, ft := addrIn(en, b.path, b.obj, types.NewPointer(b.T), path)
		st := en.Load(b.path.St, a, ft)
		c.expect(st.Op == "alloc", rule, con, 0, "the statistics are %s, not the column's own", st)
		for _, f := range []string{"NumberOfValues", "BytesOnDisk"} {
			v := deref(en, b.path, st, ft, f)
			c.expect(v != nil && zeroTerm(stripConv(v)), rule, con, 0, "%s starts as %s", f, v)
		}
		h := deref(en, b.path, st, ft, "HasNull")
		has, k1 := en.Decide(b.path.St, nulls)
		v, k2 := en.Decide(b.path.St, h)
		c.expect(h == nulls || k1 && k2 && v == has, rule, con, b.path.RetPos, "whether there are nulls is told as %s [%s]", h, lits(b.path))
		// memory shared with other statistics of the object
		mine := map[*engine.Term]string{}
		statPointers(en, b.path, st, ft, func(x *engine.Term, f string) {
			c.expect(mine[x] == "", rule, con, 0, "%s shares memory with %s", f, mine[x])
			mine[x] = f
		})
		allFields(b.T, func(fp []int, fv *types.Var) {
			if !typeIs(fv.Type(), "pb/pb.ColumnStatistics") || samePath(fp, path) {
				return
			}
			a, ft := addrIn(en, b.path, b.obj, types.NewPointer(b.T), fp)
			o := en.Load(b.path.St, a, ft)
			if !c.expect(o != st, rule, con, 0, "%s are the statistics of the file", fv.Name()) {
				return
			}
			if o.Op == "nil" {
				return
			}
			statPointers(en, b.path, o, ft, func(x *engine.Term, f string) {
				c.expect(mine[x] == "", rule, con, 0, "%s of %s shares memory with the statistics of the file", f, fv.Name())
			})
		})
	}
	c.atLeast(rule, 10)

	// later ones
	rule = "index statistics share nothing with those of the file"
	for _, col := range c.writers(rule) {
		for _, m := range []string{"Write", "Reset", "Flush"} {
			fn, s := c.runMethod(col, rule, m, also(col.withIndex(true), col.withStats()))
			st := fieldTerm(col.en, col.recv, types.NewPointer(col.T), ofType("pb/pb.ColumnStatistics"))
			if fn == nil || st == nil {
				continue
			}
			c.ob(rule, col.name)
			for _, p := range s.Paths {
				for a, v := range p.Writes {
					if a.Contains(st) || a == loadAddr(st) || v.Typ == nil {
						continue
					}
					if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
						c.expect(!(v == st || v.Op == "load" && v.Contains(st)), rule, col.name, p.RetPos, "%s becomes memory of the statistics of the file", a)
					}
				}
			}
		}
	}
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// statPointers visits the objects statistics point to.
func statPointers(en *engine.Engine, p *engine.Path, st *engine.Term, t types.Type, f func(x *engine.Term, name string)) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if !s.Field(i).Exported() {
			continue
		}
		if _, ok := ft.Underlying().(*types.Pointer); !ok {
			continue
		}
		x := en.Load(p.St, en.FieldAddr(st, s, i), ft)
		if x.Op != "alloc" {
			continue
		}
		f(x, s.Field(i).Name())
		statPointers(en, p, x, ft, func(y *engine.Term, n string) { f(y, s.Field(i).Name()+"."+n) })
	}
}

// statsListed: the file's footer lists the statistics of each column in the order of the schemas.
func statsListed(c *Check) {
	rule := "the footer lists the statistics of each column"
	w := c.W
	fn := w.fn("orc", "writer.writeFileTail")
	if !c.expect(fn != nil, rule, "writeFileTail", 0, "function not found") {
		return
	}
	en := w.fileEngine()
	s := c.run(en, rule, fn, nil, nil)
	recv := s.Params[0]
	var src *types.Var // the field statistics are taken from
	n := 0
	for _, p := range good(en, fn, s) {
		for _, x := range flat(p) {
			if x.e.Kind != "call" || x.e.Name != "Marshal" || len(x.e.Args) != 1 || !typeIs(engine.StripIface(x.e.Args[0]).Typ, "pb/pb.Footer") {
				continue
			}
			n++
			ft := engine.StripIface(x.e.Args[0])
			ps, ok := pieces(en, deref(en, p, ft, ft.Typ, "Statistics"))
			if !c.expect(ok && len(ps) == 1, rule, "footer", x.e.Pos, "the statistics listed cannot be told [%s]", lits(p)) {
				continue
			}
			if ps[0].lp != nil {
				c.expect(statsPieces(en, p, ps, func() *engine.Term {
					sw := fieldTerm(en, recv, recv.Typ, ofType("orc.stripeWriter"))
					return columnSlice(en, sw)
				}), rule, "footer", x.e.Pos, "the statistics listed are not those of every column in order")
				continue
			}
			a := loadAddr(ps[0].spread)
			if !c.expect(ps[0].spread != nil && a != nil && a.Op == "field" && a.Args[0] == recv, rule, "footer", x.e.Pos, "the statistics listed are %s", ps[0].spread) {
				continue
			}
			i := fieldIndex(recv.Typ, named(a.Aux))
			src = deptr(recv.Typ).Underlying().(*types.Struct).Field(i[0])
		}
	}
	c.expect(n > 0, rule, "footer", fn.Pos(), "no footer is written")
	if src == nil {
		return
	}
	// where that field is filled
	nw := w.fn("orc", "newWriter")
	if !c.expect(nw != nil, rule, "newWriter", 0, "function not found") {
		return
	}
	en = w.fileEngine()
	for _, p := range good(en, nw, c.run(en, rule, nw, nil, nil)) {
		o := p.Ret[0]
		a, ft := addrIn(en, p, o, o.Typ, fieldIndex(o.Typ, func(v *types.Var) bool { return v == src }))
		ps, ok := pieces(en, en.Load(p.St, a, ft))
		c.expect(ok && statsPieces(en, p, ps, func() *engine.Term {
			a, st := addrIn(en, p, o, o.Typ, fieldIndex(o.Typ, ofType("orc.stripeWriter")))
			sw := en.Load(p.St, a, st)
			ca, ct := addrIn(en, p, sw, st, fieldIndex(st, func(v *types.Var) bool {
				sl, ok := v.Type().(*types.Slice)
				return ok && typeIs(sl.Elem(), "orc/column.Writer")
			}))
			return en.Load(p.St, ca, ct)
		}), rule, "newWriter", nw.Pos(), "%s are not the statistics of every column in order [%s]", src.Name(), lits(p))
	}
	g := w.callGraph()
	within := g.reach([]*ssa.Function{nw})
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deptr(fa.X.Type()).Underlying().(*types.Struct)
				if !ok || st.Field(fa.Field) != src {
					continue
				}
				for _, u := range *fa.Referrers() {
					if sto, ok := u.(*ssa.Store); ok && sto.Addr == fa {
						_, in := within[f]
						c.expect(in, rule, "newWriter", sto.Pos(), "%s is changed after the writer was made", src.Name())
					}
				}
			}
		}
	}
	// GetStats hands out the statistics kept
	for _, col := range c.writers(rule) {
		fn, s := c.runMethod(col, rule, "GetStats", nil)
		st := fieldTerm(col.en, col.recv, types.NewPointer(col.T), ofType("pb/pb.ColumnStatistics"))
		if fn == nil || st == nil {
			continue
		}
		for _, p := range s.Paths {
			c.expect(p.Panic || p.Ret[0] == st, rule, col.name, fn.Pos(), "hands out %s", p.Ret[0])
		}
	}
}

// statsPieces tells that a sequence is GetStats of every element of a slice of columns.
func statsPieces(en *engine.Engine, p *engine.Path, ps []piece, cols func() *engine.Term) bool {
	if len(ps) != 1 || ps[0].lp == nil {
		return false
	}
	cws := cols()
	if cws == nil {
		return false
	}
	lp := ps[0].lp
	idx := fullLoop(en, lp, p, en.Len(cws))
	if idx == nil || len(ps[0].iters) == 0 {
		return false
	}
	for _, it := range ps[0].iters {
		if len(it) != 1 || it[0].elem == nil {
			return false
		}
		ev, ok := it[0].elem.Any.(*engine.Event)
		if !ok || it[0].elem.Op != "res" || ev.Name != "GetStats" || ev.Recv == nil || !isElem(engine.StripIface(ev.Recv), cws, idx) {
			return false
		}
	}
	return true
}
