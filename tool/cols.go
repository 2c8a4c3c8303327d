package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func parseInt(s string) (int64, error) { return strconv.ParseInt(s, 10, 64) }

const colPkg = "orc/column"

// colStream is one stream of a column reader or writer.
type colStream struct {
	addr, term *engine.Term // the field and what it holds on entry
	name       string
	kind       string // PRESENT, DATA, ...
	ctor       string // stream constructor
	ctorArgs   []*engine.Term
}

// column is a column reader or writer type under analysis.
type column struct {
	T        *types.Named
	name     string
	en       *engine.Engine
	recv     *engine.Term
	streams  []*colStream
	present  *colStream
	perRow   []*colStream // value streams holding one value per non-null row
	dict     []*colStream // streams of a dictionary
	children []*engine.Term
	childArr *engine.Term // slice of children
	nulls    *engine.Term // schema.HasNulls
	opts     *engine.Term
	stats    map[string]bool // kinds of statistics kept: field of ColumnStatistics -> there
}

func (w *World) streamKinds() map[int64]string { return w.consts("pb/pb", "Stream_Kind") }

// kindOn returns the stream kind a path is about: the value info.Kind was found equal to.
func (w *World) kindOn(en *engine.Engine, p *engine.Path, isKind func(*engine.Term) bool) (string, bool) {
	ks := w.streamKinds()
	for _, l := range p.Lits {
		if l.Cond.Op != "eq0" {
			continue
		}
		lin := en.P.LinOf(l.Cond.Args[0])
		for t := range lin.Coef {
			if !isKind(t) {
				continue
			}
			if v, ok := eqConst(en, p, t); ok {
				if n, ok := ks[v]; ok {
					return n, true
				}
			}
		}
	}
	return "", false
}

// readers builds the model of every column reader of the package.
func (c *Check) readers(rule string) []*column {
	var r []*column
	for _, t := range c.W.implementers(colPkg, "Reader") {
		if t.Obj().Name() == "reader" {
			continue
		}
		en := c.W.colEngine()
		en.TrackStores = true
		col := &column{T: t, name: t.Obj().Name(), en: en, recv: en.P.Mk("param", "r", types.NewPointer(t))}
		fn := c.W.method(t, "InitStream")
		if fn == nil {
			continue
		}
		info := en.P.Mk("param", "info", fn.Params[1].Type())
		s := c.run(en, rule, fn, []*engine.Term{col.recv, info, en.P.Mk("param", "start", fn.Params[2].Type())}, nil)
		for _, p := range good(en, fn, s) {
			kind, ok := c.W.kindOn(en, p, func(t *engine.Term) bool { return t.Contains(info) })
			for a, v := range p.Writes {
				if engine.Root(a) != col.recv {
					continue
				}
				x := engine.StripIface(v)
				ev, isRes := x.Any.(*engine.Event)
				if x.Op != "res" || !isRes || !strings.Contains(ev.Callee, "/orc/stream.New") {
					continue
				}
				if !ok {
					kind = "?"
				}
				st := &colStream{addr: a, term: en.P.Mk("load", "0", v.Typ, a), name: a.Aux, kind: kind, ctor: ev.Name, ctorArgs: ev.Args}
				dup := false
				for _, o := range col.streams {
					if o.addr == a && o.kind == kind {
						dup = true
					}
				}
				if !dup {
					col.streams = append(col.streams, st)
				}
			}
		}
		sort.Slice(col.streams, func(i, j int) bool { return col.streams[i].name < col.streams[j].name })
		rd := c.W.Pkgs[colPkg].Type("Reader").Type()
		allFields(t, func(path []int, v *types.Var) {
			a, ft := addrOf(en, col.recv, types.NewPointer(t), path)
			if types.Identical(v.Type(), rd) {
				col.children = append(col.children, en.P.Mk("load", "0", ft, a))
			} else if sl, ok := v.Type().(*types.Slice); ok && types.Identical(sl.Elem(), rd) {
				col.childArr = en.P.Mk("load", "0", ft, a)
			}
		})
		col.classify(c.W)
		r = append(r, col)
	}
	return r
}

func (col *column) classify(w *World) {
	hasDict := false
	for _, s := range col.streams {
		if s.kind == "DICTIONARY_DATA" {
			hasDict = true
		}
	}
	for _, s := range col.streams {
		switch {
		case s.kind == "PRESENT":
			col.present = s
		case hasDict && (s.kind == "LENGTH" || s.kind == "DICTIONARY_DATA"):
			col.dict = append(col.dict, s)
		default:
			col.perRow = append(col.perRow, s)
		}
	}
	pt := types.NewPointer(col.T)
	sch := fieldTerm(col.en, col.recv, pt, ofType("orc/api.TypeDescription"))
	if sch != nil {
		col.nulls = fieldTerm(col.en, sch, sch.Typ, named("HasNulls"))
	}
	for _, o := range []string{"orc/config.WriterOptions", "orc/config.ReaderOptions"} {
		if col.opts == nil {
			col.opts = fieldTerm(col.en, col.recv, pt, ofType(o))
		}
	}
}

// statsBuilt lists which kinds of statistics an object built keeps; kinds on which earlier
// objects of the type differ are left out.
func statsBuilt(en *engine.Engine, b *built, old map[string]bool) map[string]bool {
	r := map[string]bool{}
	path := fieldIndex(b.T, ofType("pb/pb.ColumnStatistics"))
	if path == nil {
		return r
	}
	a, ft := addrIn(en, b.path, b.obj, types.NewPointer(b.T), path)
	x := en.Load(b.path.St, a, ft)
	pt, ok := ft.Underlying().(*types.Pointer)
	if !ok || x.Op != "alloc" {
		return r
	}
	st := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		v := en.Load(b.path.St, en.FieldAddr(x, st, i), f.Type())
		isnil, k := en.Decide(b.path.St, isNil(en, v))
		if !k {
			continue
		}
		if o, was := old[f.Name()]; old != nil && (!was || o == isnil) {
			continue
		}
		r[f.Name()] = !isnil
	}
	return r
}

// withStats is the assumption that the column keeps the statistics it is built with.
func (col *column) withStats() func(s *engine.State) {
	return func(s *engine.State) {
		x := fieldTerm(col.en, col.recv, types.NewPointer(col.T), ofType("pb/pb.ColumnStatistics"))
		if x == nil {
			return
		}
		for f, there := range col.stats {
			if v := fieldTerm(col.en, x, x.Typ, named(f)); v != nil {
				col.en.Assume(s, isNil(col.en, v), !there, 0)
			}
		}
	}
}

// withIndex is the assumption that row indexes are (not) recorded.
func (col *column) withIndex(index bool) func(s *engine.State) {
	return func(s *engine.State) {
		if col.opts != nil {
			if x := fieldTerm(col.en, col.opts, col.opts.Typ, named("WriteIndex")); x != nil {
				col.en.Assume(s, x, index, 0)
			}
		}
	}
}

func also(fs ...func(s *engine.State)) func(s *engine.State) {
	return func(s *engine.State) {
		for _, f := range fs {
			f(s)
		}
	}
}

// withNulls is the assumption that the column has (no) null markers.
func (col *column) withNulls(nulls bool) func(s *engine.State) {
	return func(s *engine.State) {
		if col.nulls != nil {
			col.en.Assume(s, col.nulls, nulls, 0)
		}
		if col.present != nil {
			col.en.Assume(s, isNil(col.en, col.present.term), !nulls, 0)
		}
	}
}

// on returns the calls of methods of a stream among events.
func (s *colStream) on(evs []*engine.Event, names map[string]bool) []*engine.Event {
	return calls(evs, func(e *engine.Event) bool {
		return e.Recv != nil && engine.StripIface(e.Recv) == s.term && (names == nil || names[e.Name])
	})
}

// mentions tells that a call on a stream occurs among events or in their loops.
func (s *colStream) mentions(evs []*engine.Event, names map[string]bool) bool {
	found := false
	deep(evs, func(e *engine.Event, _ *engine.Loop) {
		if e.Kind == "call" && e.Recv != nil && engine.StripIface(e.Recv) == s.term && names[e.Name] {
			found = true
		}
	})
	return found
}

// kindEnc is a column type and encoding.
type kindEnc struct{ kind, enc string }

func (k kindEnc) String() string { return k.kind + "/" + k.enc }

// built is what NewReader or NewWriter makes of a kind and encoding.
type built struct {
	ke   kindEnc
	T    *types.Named // nil when refused
	path *engine.Path
	obj  *engine.Term
}

// factory summarises column.NewReader / NewWriter.
func (c *Check) factory(rule, name string, en *engine.Engine) (r []*built, s *engine.Summary) {
	fn := c.W.fn(colPkg, name)
	c.expect(fn != nil, rule, name, fnPos(fn), "function not found")
	if fn == nil {
		return nil, nil
	}
	s = c.run(en, rule, fn, nil, nil)
	sch := s.Params[0]
	kt := fieldTerm(en, sch, sch.Typ, named("Kind"))
	et := fieldTerm(en, sch, sch.Typ, named("Encoding"))
	if !c.expect(kt != nil && et != nil && kt.Op == "load" && et.Op == "load", rule, name, fnPos(fn), "kind and encoding of the column not found") {
		return nil, nil
	}
	kinds := c.W.consts("pb/pb", "Type_Kind")
	encs := c.W.consts("pb/pb", "ColumnEncoding_Kind")
	for _, kn := range sortedInts(kinds) {
		for _, encn := range sortedInts(encs) {
			// everything made of kind and encoding is then known
			s := c.run(en, rule, fn, s.Params, func(st *engine.State) {
				en.Assume(st, en.Eq(kt, en.P.Int(kn)), true, 0)
				en.Assume(st, en.Eq(et, en.P.Int(encn)), true, 0)
				en.Preset(st, kt.Args[0], en.P.Const(constant.MakeInt64(kn), kt.Typ))
				en.Preset(st, et.Args[0], en.P.Const(constant.MakeInt64(encn), et.Typ))
			})
			if s == nil {
				continue
			}
			for _, p := range s.Paths {
				b := &built{ke: kindEnc{kinds[kn], encs[encn]}, path: p}
				if !p.Panic && len(p.Ret) == 2 && failed(en, p) != yes {
					x := p.Ret[0]
					if x.Op == "iface" {
						b.obj = x.Args[0]
						t := x.Typ
						if pt, ok := t.(*types.Pointer); ok {
							t = pt.Elem()
						}
						b.T, _ = t.(*types.Named)
					}
				}
				r = append(r, b)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].ke.kind != r[j].ke.kind {
			return r[i].ke.kind < r[j].ke.kind
		}
		return r[i].ke.enc < r[j].ke.enc
	})
	return r, s
}

// writers builds the model of every column writer of the package.
func (c *Check) writers(rule string) []*column {
	fe := c.W.colEngine()
	bs, _ := c.factory(rule, "NewWriter", fe)
	type ctorInfo struct {
		kind, ctor string
		args       []*engine.Term
	}
	info := map[string]map[string]ctorInfo{} // type -> field path -> ctor
	kinds := c.W.streamKinds()
	presentField := ""
	stats := map[string]map[string]bool{}
	for _, b := range bs {
		if b.T == nil {
			continue
		}
		stats[b.T.Obj().Name()] = statsBuilt(fe, b, stats[b.T.Obj().Name()])
		m := info[b.T.Obj().Name()]
		if m == nil {
			m = map[string]ctorInfo{}
			info[b.T.Obj().Name()] = m
		}
		allFields(b.T, func(path []int, v *types.Var) {
			if !typeIs(v.Type(), "orc/stream.Writer") {
				return
			}
			a, ft := addrIn(fe, b.path, b.obj, types.NewPointer(b.T), path)
			x := engine.StripIface(fe.Load(b.path.St, a, ft))
			ev, ok := x.Any.(*engine.Event)
			if x.Op != "res" || !ok || len(ev.Args) < 2 {
				return
			}
			ci := ctorInfo{kind: "?", ctor: ev.Name, args: ev.Args}
			if kv, ok := ev.Args[1].IntVal(); ok {
				ci.kind = kinds[kv]
			}
			m[fmt.Sprint(path)] = ci
			if ci.kind == "PRESENT" {
				presentField = v.Name()
			}
		})
	}
	var r []*column
	for _, t := range c.W.implementers(colPkg, "Writer") {
		en := c.W.colEngine()
		en.TrackStores = true
		col := &column{T: t, name: t.Obj().Name(), en: en, recv: en.P.Mk("param", "w", types.NewPointer(t)), stats: stats[t.Obj().Name()]}
		m := info[t.Obj().Name()]
		allFields(t, func(path []int, v *types.Var) {
			if !typeIs(v.Type(), "orc/stream.Writer") {
				return
			}
			a, ft := addrOf(en, col.recv, types.NewPointer(t), path)
			st := &colStream{addr: a, term: en.P.Mk("load", "0", ft, a), name: v.Name()}
			if ci, ok := m[fmt.Sprint(path)]; ok {
				st.kind, st.ctor, st.ctorArgs = ci.kind, ci.ctor, ci.args
			} else if m == nil && v.Name() == presentField {
				st.kind = "PRESENT"
			} else {
				st.kind = "?"
			}
			col.streams = append(col.streams, st)
		})
		if len(col.streams) == 0 {
			continue
		}
		col.classify(c.W)
		r = append(r, col)
	}
	return r
}

// runMethod summarises a method of the column under an assumption.
func (c *Check) runMethod(col *column, rule, name string, assume func(s *engine.State), args ...*engine.Term) (*ssa.Function, *engine.Summary) {
	fn := c.W.method(col.T, name)
	if !c.expect(fn != nil, rule, col.name+"."+name, 0, "method not found") {
		return nil, nil
	}
	as := []*engine.Term{col.recv}
	as = append(as, args...)
	for i := len(as); i < len(fn.Params); i++ {
		as = append(as, col.en.P.Mk("param", fn.Params[i].Name(), fn.Params[i].Type()))
	}
	return fn, c.run(col.en, rule, fn, as, assume)
}

func sortedInts(m map[int64]string) []int64 {
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
