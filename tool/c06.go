package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C06"] = property{"for every type and encoding the factory accepts, abstract interpretation of writer and reader from the objects built: encoder behind each stream against decoder calls of the operation it is read with, dependence of delivered values on streams and of stream arguments on fields of the value, dynamic Go types, narrowing conversions", rulesC06}
}

func rulesC06(c *Check) {
	re, we := c.W.colEngine(), c.W.colEngine()
	rbs, _ := c.factory("reader", "NewReader", re)
	wbs, _ := c.factory("writer", "NewWriter", we)
	wcols := map[string]*column{}
	for _, col := range c.writers("writer") {
		wcols[col.name] = col
	}
	rcols := map[string]*column{}
	for _, col := range c.readers("reader") {
		rcols[col.name] = col
	}
	codecs := map[string]string{}
	for _, wb := range wbs {
		if wb.T == nil || wcols[wb.T.Obj().Name()] == nil {
			continue
		}
		for _, rb := range rbs {
			if rb.T == nil || rb.ke != wb.ke || rcols[rb.T.Obj().Name()] == nil {
				continue
			}
			counterpart(c, wb, we, wcols[wb.T.Obj().Name()], rb, re, rcols[rb.T.Obj().Name()], codecs)
		}
	}
	c.atLeast("a stream is read with the counterpart of its encoder", 20)
	c.atLeast("values are delivered in the type they are written in", 12)
	c.atLeast("a delivered value is made of its row's streams", 12)
	for _, col := range c.writers("writer") {
		writtenLengths(c, col)
	}
	c.atLeast("a length written is that of the contents", 3)
	byteOrders(c)
	c.atLeast("values of fixed width are decoded as they are encoded", 4)
}

// configOf lists what is known of the fields of an object built.
func configOf(b *built, fe *engine.Engine) map[string]*engine.Term {
	r := map[string]*engine.Term{}
	if b.obj == nil || b.T == nil {
		return r
	}
	allFields(b.T, func(path []int, v *types.Var) {
		if _, ok := v.Type().Underlying().(*types.Basic); !ok {
			return
		}
		a, ft := addrIn(fe, b.path, b.obj, types.NewPointer(b.T), path)
		x := fe.Load(b.path.St, a, ft)
		if x.IsConst() {
			r[fmt.Sprint(path)] = x
		}
	})
	return r
}

// withConfig assumes what is known of the receiver's fields.
func (col *column) withConfig(cfg map[string]*engine.Term) func(s *engine.State) {
	return func(s *engine.State) {
		allFields(col.T, func(path []int, v *types.Var) {
			x := cfg[fmt.Sprint(path)]
			if x == nil {
				return
			}
			a, ft := addrOf(col.en, col.recv, types.NewPointer(col.T), path)
			cell := col.en.P.Mk("load", "0", ft, a)
			if v, ok := x.BoolVal(); ok {
				col.en.Assume(s, cell, v, 0)
			} else if v, ok := x.IntVal(); ok {
				col.en.Assume(s, col.en.Eq(cell, col.en.P.Int(v)), true, 0)
			}
		})
	}
}

func counterpart(c *Check, wb *built, we *engine.Engine, w *column, rb *built, re *engine.Engine, r *column, codecs map[string]string) {
	rule := "a stream is read with the counterpart of its encoder"
	con := wb.ke.String()
	rcfg := configOf(rb, re)
	wcfg := configOf(wb, we)
	// encoders per stream kind of this writer
	enc := map[string]string{}
	allFields(wb.T, func(path []int, v *types.Var) {
		if !typeIs(v.Type(), "orc/stream.Writer") {
			return
		}
		a, ft := addrIn(we, wb.path, wb.obj, types.NewPointer(wb.T), path)
		x := engine.StripIface(we.Load(wb.path.St, a, ft))
		ev, ok := x.Any.(*engine.Event)
		if x.Op != "res" || !ok || len(ev.Args) < 2 {
			return
		}
		kv, _ := ev.Args[1].IntVal()
		enc[c.W.streamKinds()[kv]] = writerCodec(c, rule, ev)
	})
	// a path without markers has no present stream
	ren := r.en
	fn, s := c.runMethod(r, rule, "NextBatch", r.withConfig(rcfg))
	if s == nil {
		return
	}
	paths := good(ren, fn, s)
	// how each stream is read
	used := map[*colStream]map[string]bool{}
	for _, p := range paths {
		deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
			if e.Kind != "call" || e.Recv == nil || !nextPrims[e.Name] {
				return
			}
			for _, st := range r.streams {
				if engine.StripIface(e.Recv) == st.term {
					if used[st] == nil {
						used[st] = map[string]bool{}
					}
					used[st][e.Name] = true
				}
			}
		})
	}
	if len(r.dict) > 0 {
		// the dictionary is read where it is needed first
		for _, name := range []string{"NextBatch", "initDict", "InitStream", "Skip"} {
			if m := c.W.method(r.T, name); m != nil {
				_, s := c.runMethod(r, rule, name, r.withConfig(rcfg))
				for _, p := range s.Paths {
					deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
						for _, st := range r.dict {
							if e.Kind == "call" && e.Recv != nil && engine.StripIface(e.Recv) == st.term && nextPrims[e.Name] {
								if used[st] == nil {
									used[st] = map[string]bool{}
								}
								used[st][e.Name] = true
							}
						}
					})
				}
			}
		}
	}
	// the constructor matching this configuration for a kind
	for _, st := range r.streams {
		if len(used[st]) == 0 {
			continue
		}
		sc := con + " " + st.kind
		c.ob(rule, sc)
		e, ok := enc[st.kind]
		if !ok {
			if st.kind == "PRESENT" {
				e, ok = presentCodec(c, rule, w, enc)
			}
			if !ok {
				c.fail(rule, sc, rb.path.RetPos, "%s is read from a stream of kind %s, which %s never writes", st.name, st.kind, w.name)
				continue
			}
		}
		for _, prim := range sortedKeys(used[st]) {
			d := readerCodec(c, rule, st, prim, rcfg, r)
			c.expect(d == e, rule, sc, fnPos(fn), "%s is written by the %s encoder and read (%s of %s) by the %s decoder", st.kind, e, prim, st.ctor, d)
		}
	}
	for k := range enc {
		found := false
		for _, st := range r.streams {
			found = found || st.kind == k && len(used[st]) > 0
		}
		c.expect(found, rule, con+" "+k, fnPos(fn), "a stream of kind %s is written but never read", k)
	}
	deliveredValues(c, con, r, paths, w, wcfg, enc)
}

func presentCodec(c *Check, rule string, w *column, enc map[string]string) (string, bool) {
	// columns built without markers on this path: those of the same package with markers
	if w.present == nil || w.present.ctor == "" {
		return "bool", true
	}
	if w.present.ctor == "NewBoolWriter" {
		return "bool", true
	}
	return w.present.ctor, true
}

// constArgs turns the constant arguments of a constructor call into terms of another engine.
func constArgs(en *engine.Engine, fn *ssa.Function, args []*engine.Term) []*engine.Term {
	var r []*engine.Term
	for i, p := range fn.Params {
		t := en.P.Mk("param", p.Name(), p.Type())
		if i < len(args) {
			if v, ok := args[i].BoolVal(); ok {
				t = en.P.Bool(v)
			} else if v, ok := args[i].IntVal(); ok {
				t = en.P.Int(v)
			}
		}
		r = append(r, t)
	}
	return r
}

// writerCodec names the encoding a stream writer's constructor chooses.
func writerCodec(c *Check, rule string, ev *engine.Event) string {
	fn := c.W.fn("orc/stream", ev.Name)
	if fn == nil {
		return "?" + ev.Name
	}
	wt := c.W.Pkgs["orc/stream"].Type("writer").Type()
	en := c.W.newEngine()
	s := c.run(en, rule, fn, constArgs(en, fn, ev.Args), nil)
	r := map[string]bool{}
	for _, p := range s.Paths {
		obj := engine.StripIface(p.Ret[0])
		a, ft := addrIn(en, p, obj, types.NewPointer(wt), fieldIndex(wt, ofType("orc/encoding.Encoder")))
		r[codecOf(en, p, en.Load(p.St, a, ft))] = true
	}
	return strings.Join(sortedKeys(r), "|")
}

var codecNames = map[string]string{"boolRunLength": "bool", "byteRunLength": "byte", "float": "float", "double": "double", "varint64Encoder": "varint",
	"stringContents": "bytes", "intRLV2Encoder": "int", "intRLV2Decoder": "int", "dateV2Encoder": "date", "dateV2Decoder": "date"}

// codecOf names an encoder or decoder object with its signedness.
func codecOf(en *engine.Engine, p *engine.Path, x *engine.Term) string {
	if x.Op != "iface" {
		return "?" + x.String()
	}
	t := x.Typ
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	nt, ok := t.(*types.Named)
	if !ok {
		return "?" + t.String()
	}
	n := codecNames[nt.Obj().Name()]
	if n == "" {
		return "?" + nt.Obj().Name()
	}
	if n == "date" {
		path := fieldIndex(nt, func(v *types.Var) bool {
			return typeIs(v.Type(), "orc/encoding.IntDecoder") || typeIs(v.Type(), "orc/encoding.Encoder")
		})
		if path == nil {
			return "?date"
		}
		a, ft := addrIn(en, p, x.Args[0], types.NewPointer(nt), path)
		return codecOf(en, p, en.Load(p.St, a, ft))
	}
	if path := fieldIndex(nt, nameIs("signed")); path != nil {
		a, ft := addrIn(en, p, x.Args[0], types.NewPointer(nt), path)
		v, ok := en.Load(p.St, a, ft).BoolVal()
		switch {
		case !ok:
			return n + " ?"
		case v:
			return n + " signed"
		}
		return n + " unsigned"
	}
	return n
}

// readerCodec names the decoding done by an operation of a stream reader built by a constructor.
func readerCodec(c *Check, rule string, st *colStream, prim string, cfg map[string]*engine.Term, col *column) string {
	ctor := c.W.fn("orc/stream", st.ctor)
	if ctor == nil {
		return "?" + st.ctor
	}
	// constructor arguments which are fields of the column are known from the column's configuration
	args := make([]*engine.Term, len(st.ctorArgs))
	copy(args, st.ctorArgs)
	allFields(col.T, func(path []int, v *types.Var) {
		a, ft := addrOf(col.en, col.recv, types.NewPointer(col.T), path)
		cell := col.en.P.Mk("load", "0", ft, a)
		for i := range args {
			if args[i] == cell && cfg[fmt.Sprint(path)] != nil {
				args[i] = cfg[fmt.Sprint(path)]
			}
		}
	})
	en := c.W.newEngine()
	s := c.run(en, rule, ctor, constArgs(en, ctor, args), nil)
	out := map[string]bool{}
	for _, p := range s.Paths {
		obj := engine.StripIface(p.Ret[0])
		t := p.Ret[0].Typ
		if p.Ret[0].Op == "iface" {
			t = p.Ret[0].Typ
		} else {
			t = ctor.Signature.Results().At(0).Type()
		}
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok {
			return "?"
		}
		m := c.W.method(nt, prim)
		if m == nil {
			return "?no " + prim
		}
		// what the constructor set
		e2 := c.W.newEngine()
		e2.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && c.W.rel(f.Pkg.Pkg) == "orc/encoding" }
		var args []*engine.Term
		for _, q := range m.Params {
			args = append(args, e2.P.Mk("param", q.Name(), q.Type()))
		}
		decoder := ""
		s2 := c.run(e2, rule, m, args, func(st *engine.State) {
			allFields(nt, func(path []int, v *types.Var) {
				a, ft := addrIn(en, p, obj, types.NewPointer(nt), path)
				x := en.Load(p.St, a, ft)
				if x.Op == "iface" && strings.Contains(strings.ToLower(v.Type().String()), "decoder") {
					decoder = codecOf(en, p, x)
				}
				b, ft2 := addrOf(e2, args[0], types.NewPointer(nt), path)
				cell := e2.P.Mk("load", "0", ft2, b)
				if v, ok := x.BoolVal(); ok {
					e2.Assume(st, cell, v, 0)
				}
			})
		})
		paths := good(e2, m, s2)
		if len(paths) == 0 {
			out["?always fails"] = true
		}
		for _, q := range paths {
			names, plain := map[string]bool{}, false
			deep(q.Events, func(e *engine.Event, _ *engine.Loop) {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "Decode") {
					names[e.Name] = true
				}
				plain = plain || e.Kind == "call" && (e.Callee == "io.ReadFull" || e.Callee == "io.ReadAtLeast" || e.Callee == "io.CopyN")
			})
			if len(names) == 0 {
				if plain {
					out["bytes"] = true // taken as they are
				}
				continue // decoded before
			}
			switch strings.Join(sortedKeys(names), "+") {
			case "DecodeByteRL+DecodeBoolsFromByte", "DecodeBoolsFromByte+DecodeByteRL", "DecodeBools":
				out["bool"] = true
			case "DecodeBoolsFromByte":
				out["bool"] = true
			case "DecodeByteRL":
				if strings.Contains(nt.Obj().Name(), "Bool") {
					out["bool"] = true // a byte at a time, taken apart later
				} else {
					out["byte"] = true
				}
			case "DecodeFloat":
				out["float"] = true
			case "DecodeDouble":
				out["double"] = true
			case "DecodeVarInt64":
				out["varint"] = true
			case "DecodeBytes":
				out["bytes"] = true
			case "DecodeInt":
				if decoder == "int signed" {
					out[decoder] = true
				} else {
					out["?"+decoder+" by DecodeInt"] = true
				}
			case "DecodeUInt":
				if decoder == "int unsigned" {
					out[decoder] = true
				} else {
					out["?"+decoder+" by DecodeUInt"] = true
				}
			case "Decode":
				out[decoder] = true
			default:
				out["?"+strings.Join(sortedKeys(names), "+")] = true
			}
		}
	}
	return strings.Join(sortedKeys(out), "|")
}

// sources finds the streams (and fields of the value) a term depends on.
func sources(t *engine.Term, visit func(ev *engine.Event, x *engine.Term)) {
	seen := map[*engine.Term]bool{}
	var walk func(x *engine.Term)
	walk = func(x *engine.Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch a := x.Any.(type) {
		case *engine.Event:
			visit(a, x)
			walk(a.Recv)
			for _, y := range a.Args {
				walk(y)
			}
		case *engine.Loop:
			for _, ph := range a.Phis {
				if ph.Term == x {
					walk(ph.Init)
					for _, nx := range ph.Next {
						walk(nx)
					}
				}
			}
		}
		visit(nil, x)
		for _, y := range x.Args {
			walk(y)
		}
	}
	walk(t)
}

// deliveredValues: Go type, streams and fields of what is stored into the batch, against what the writer takes.
func deliveredValues(c *Check, con string, r *column, paths []*engine.Path, w *column, wcfg map[string]*engine.Term, enc map[string]string) {
	ruleT := "values are delivered in the type they are written in"
	ruleS := "a delivered value is made of its row's streams"
	// reader
	var rtypes = map[string]bool{}
	fieldStreams := map[string]map[string]bool{} // field of a struct value -> stream kinds
	n := 0
	for _, p := range paths {
		deep(p.Events, func(e *engine.Event, lp *engine.Loop) {
			if e.Kind != "store" || e.Addr.Aux != "V" || e.Val.Typ == nil {
				return
			}
			if !valueField(e.Addr) {
				return
			}
			n++
			c.sites++
			v := e.Val
			if v.Op != "iface" {
				c.fail(ruleT, con, e.Pos, "%s is delivered, of unknown type", v)
				return
			}
			tn := typeName(v.Typ)
			rtypes[tn] = true
			kinds := kindsOf(r, v.Args[0])
			for _, st := range r.perRow {
				if r.usable(st, paths) && !kinds[st.kind] {
					c.fail(ruleS, con, e.Pos, "the value delivered does not depend on %s", st.kind)
				}
			}
			c.expect(!kinds["PRESENT"], ruleS, con, e.Pos, "the value delivered is made of the null marker")
			c.ob(ruleS, con)
			if b, ok := v.Typ.Underlying().(*types.Basic); ok {
				narrow(c, ruleT, con, e, v.Args[0], b)
			}
			inner := v.Args[0]
			if inner.Op == "struct" {
				if stt, ok := v.Typ.Underlying().(*types.Struct); ok {
					for i, a := range inner.Args {
						if i < stt.NumFields() {
							f := stt.Field(i).Name()
							if fieldStreams[f] == nil {
								fieldStreams[f] = map[string]bool{}
							}
							for k := range kindsOf(r, a) {
								fieldStreams[f][k] = true
							}
						}
					}
				}
			}
		})
	}
	if r.childArr != nil || len(r.children) > 0 || n == 0 && len(r.perRow) == 0 {
		return // values of structs, lists and maps are those of their children
	}
	c.expect(n > 0, ruleT, con, 0, "no value is ever delivered")
	// writer
	wtypes := map[string]bool{}
	streamFields := map[string]map[string]bool{}
	fn, s := c.runMethod(w, ruleT, "Write", w.withConfig(wcfg))
	if s == nil {
		return
	}
	val := s.Params[1]
	for _, p := range good(w.en, fn, s) {
		for _, st := range w.streams {
			if st.kind == "PRESENT" {
				continue
			}
			for _, e := range calls(p.Events, func(e *engine.Event) bool {
				return e.Recv != nil && engine.StripIface(e.Recv) == st.term && e.Name == "Write"
			}) {
				dep := false
				sources(e.Args[0], func(ev *engine.Event, x *engine.Term) {
					if x.Op == "assert" {
						wtypes[typeName(x.Typ)] = true
						dep = true
					}
					if x.Op == "fval" && x.Args[0].Op == "assert" {
						if streamFields[st.kind] == nil {
							streamFields[st.kind] = map[string]bool{}
						}
						streamFields[st.kind][x.Aux] = true
					}
					if x.Contains(val) {
						dep = true
					}
				})
				for x := stripValue(e.Args[0]); x.Op == "conv"; x = x.Args[0] {
					from := x
					for from.Op == "conv" {
						from = from.Args[0]
					}
					b, ok := x.Typ.Underlying().(*types.Basic)
					if ok && from.Op != "assert" {
						// calculated from the value: numbers of days need 32 bits, others 64
						c.expect(basicSize(b) == 0 || basicSize(b) >= 4, ruleT, con, e.Pos, "a value is narrowed to %s before it is written", b)
						continue
					}
					f, ok2 := from.Typ.Underlying().(*types.Basic)
					if ok && ok2 {
						c.expect(basicSize(b) >= basicSize(f), ruleT, con, e.Pos, "a value is narrowed to %s before it is written", b)
					}
				}
				if !dep {
					// a constant chosen by the value
					for _, l := range p.Lits {
						sources(l.Cond, func(ev *engine.Event, x *engine.Term) {
							dep = dep || x.Op == "assert" && x != l.Cond
						})
					}
				}
				c.expect(dep, ruleS, con, e.Pos, "%s of %s is written whatever the value", e.Args[0], st.kind)
				if e.Args[0].Op != "iface" && !strings.HasPrefix(e.Args[0].Op, "assert") {
					// handed on as is: the encoder asserts the type
					for t := range encoderTakes(c, ruleT, enc[st.kind]) {
						wtypes[t] = true
					}
				}
			}
		}
	}
	if len(wtypes) == 0 {
		return // dictionary writers keep values back
	}
	same := len(wtypes) >= 1
	for t := range rtypes {
		if !wtypes[t] {
			same = false
		}
	}
	c.expect(same && len(rtypes) == 1, ruleT, con, fnPos(fn), "%v is written, %v delivered", sortedKeys(wtypes), sortedKeys(rtypes))
	// field by field
	for f, ks := range fieldStreams {
		var want []string
		for k, fs := range streamFields {
			if fs[f] {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		got := sortedKeys(ks)
		if len(streamFields) == 0 {
			continue
		}
		c.expect(strings.Join(want, ",") == strings.Join(got, ","), ruleS, con+" "+f, fnPos(fn), "field %s is written to %v and delivered from %v", f, want, got)
	}
}

// usable tells that a stream is read on some path (streams of other configurations are not).
func (col *column) usable(st *colStream, paths []*engine.Path) bool {
	for _, p := range paths {
		if st.mentions(p.Events, nextPrims) {
			return true
		}
	}
	return false
}

func kindsOf(r *column, t *engine.Term) map[string]bool {
	kinds := map[string]bool{}
	sources(t, func(ev *engine.Event, x *engine.Term) {
		if ev == nil || ev.Recv == nil {
			return
		}
		for _, st := range r.streams {
			if engine.StripIface(ev.Recv) == st.term {
				kinds[st.kind] = true
			}
		}
	})
	return kinds
}

// valueField tells the address of the V of an element of a batch.
func valueField(a *engine.Term) bool { return a.Op == "field" && a.Aux == "V" }

// stripValue takes the interface off a value.
func stripValue(t *engine.Term) *engine.Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// encoderTakes lists the dynamic types an encoder accepts.
func encoderTakes(c *Check, rule, codec string) map[string]bool {
	r := map[string]bool{}
	pkg := c.W.Pkgs["orc/encoding"]
	for n, kind := range codecNames {
		if m, ok := pkg.Members[n].(*ssa.Type); !ok || m == nil || kind != strings.Fields(codec + " ?")[0] {
			continue
		}
		fn := c.W.fn("orc/encoding", n+".Encode")
		if fn == nil {
			continue
		}
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		for _, p := range good(en, fn, s) {
			for _, l := range p.Lits {
				if strings.HasPrefix(l.Cond.Op, "is") && l.Cond.Op != "isnil" && l.Val {
					r[goType(l.Cond.Typ, l.Cond.Aux)] = true
				}
			}
			deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
				for _, a := range e.Args {
					sources(a, func(_ *engine.Event, x *engine.Term) {
						if x.Op == "assert" {
							r[typeName(x.Typ)] = true
						}
					})
				}
			})
		}
	}
	return r
}

// typeName names a type, aliases resolved.
func typeName(t types.Type) string {
	n := types.TypeString(types.Unalias(t), nil)
	switch n {
	case "byte":
		return "uint8"
	case "[]byte":
		return "[]uint8"
	case "rune":
		return "int32"
	}
	return n
}

func goType(t types.Type, aux string) string {
	if aux == "byte" {
		return "uint8"
	}
	return aux
}

func basicSize(b *types.Basic) int64 {
	if b.Info()&types.IsNumeric == 0 {
		return 0
	}
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

// narrow reports conversions on the way to a number that lose bits the delivered type has.
func narrow(c *Check, rule, con string, e *engine.Event, t *engine.Term, to *types.Basic) {
	if to.Info()&types.IsNumeric == 0 {
		return
	}
	for t.Op == "conv" {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			c.expect(basicSize(b) >= basicSize(to) && b.Info()&types.IsFloat == to.Info()&types.IsFloat, rule, con, e.Pos, "a value is narrowed to %s on the way to %s", b, to)
		}
		t = t.Args[0]
	}
}

// writtenLengths: wherever contents of variable length are written, the length written along is theirs.
func writtenLengths(c *Check, w *column) {
	rule := "a length written is that of the contents"
	var lengths, contents *colStream
	for _, st := range w.streams {
		switch {
		case st.kind == "LENGTH":
			lengths = st
		case st.ctor == "NewStringContentsWriter":
			contents = st
		}
	}
	if lengths == nil || contents == nil {
		return
	}
	n := 0
	isWrite := func(st *colStream) func(e *engine.Event) bool {
		return func(e *engine.Event) bool {
			return e.Recv != nil && engine.StripIface(e.Recv) == st.term && e.Name == "Write"
		}
	}
	for _, name := range []string{"Write", "Flush"} {
		if c.W.method(w.T, name) == nil {
			continue
		}
		fn, s := c.runMethod(w, rule, name, nil)
		if s == nil {
			continue
		}
		var scope func(p *engine.Path)
		scope = func(p *engine.Path) {
			ls, ds := calls(p.Events, isWrite(lengths)), calls(p.Events, isWrite(contents))
			for i, d := range ds {
				n++
				con := w.name + "." + fn.Name()
				c.ob(rule, con)
				if i >= len(ls) {
					continue // C01
				}
				want := w.en.Len(stripValue(d.Args[0]))
				got := stripConv(stripValue(ls[i].Args[0]))
				c.expect(got == want || knownTrue(w.en, p.St, w.en.Eq(got, want)) || sameLen(w.en, p.St, got, stripValue(d.Args[0])), rule, con, ls[i].Pos, "%s is written as length of %s", ls[i].Args[0], d.Args[0])
			}
			for _, e := range p.Events {
				if e.Kind == "loop" {
					for _, it := range e.Loop.Iters {
						scope(it)
					}
				}
			}
		}
		for _, p := range good(w.en, fn, s) {
			scope(p)
		}
	}
	c.expect(n > 0, rule, w.name, 0, "no contents are written")
}

// sameLen tells that a length is taken of the text the bytes are made of.
func sameLen(en *engine.Engine, st *engine.State, got, bytes *engine.Term) bool {
	for bytes.Op == "conv" {
		if got == en.Len(bytes) {
			return true
		}
		bytes = bytes.Args[0]
	}
	return got == en.Len(bytes)
}

// byteOrders: fixed width and variable width numbers use one byte order and width on both sides.
func byteOrders(c *Check) {
	rule := "values of fixed width are decoded as they are encoded"
	pairs := [][2]string{{"float.Encode", "DecodeFloat"}, {"double.Encode", "DecodeDouble"}, {"varint64Encoder.Encode", "DecodeVarInt64"}, {"stringContents.Encode", "DecodeBytes"}}
	norm := func(callee string) string {
		switch {
		case strings.Contains(callee, "igEndian)") || strings.Contains(callee, "ittleEndian)"):
			i := strings.LastIndex(callee, ".")
			return callee[:i+1] + strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(callee[i+1:], "Put"), "Append"), "")
		case strings.HasSuffix(callee, "binary.PutVarint"), strings.HasSuffix(callee, "binary.ReadVarint"), strings.HasSuffix(callee, "binary.AppendVarint"):
			return "varint"
		case strings.HasSuffix(callee, "binary.PutUvarint"), strings.HasSuffix(callee, "binary.ReadUvarint"):
			return "uvarint"
		case strings.Contains(callee, "math.Float"):
			return ""
		}
		return ""
	}
	for _, pr := range pairs {
		var sets [2]map[string]bool
		for i, n := range pr {
			fn := c.W.fn("orc/encoding", n)
			c.expect(fn != nil, rule, pr[0], 0, "%s not found", n)
			if fn == nil {
				return
			}
			en := c.W.newEngine()
			s := c.run(en, rule, fn, nil, nil)
			set := map[string]bool{}
			for _, p := range good(en, fn, s) {
				deep(p.Events, func(e *engine.Event, _ *engine.Loop) {
					if e.Kind == "call" {
						if x := norm(e.Callee); x != "" {
							set[x] = true
						}
					}
				})
			}
			sets[i] = set
		}
		a, b := sortedKeys(sets[0]), sortedKeys(sets[1])
		c.expect(strings.Join(a, ",") == strings.Join(b, ","), rule, pr[0]+" "+pr[1], 0, "encoded with %v, decoded with %v", a, b)
	}
}
