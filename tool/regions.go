package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regions tells for every function of the module which memory it stores where, as a summary over its
// parameters: flow insensitive points-to between regions, where all memory which a parameter leads to
// is one region, a global another, and everything allocated a region of its own, named by the calls
// leading to it.
type regions struct {
	w     *World
	cg    *callGraph
	sum   map[*ssa.Function]*effects
	ids   map[ssa.Instruction]string
	instr map[string]ssa.Instruction
	made  map[string]ssa.Instruction // the place of the allocation by region
	dirty map[*ssa.Function]bool
	users map[*ssa.Function]map[*ssa.Function]bool
	asked *ssa.Function
}

// ref is an address: a region and a field at its top, "" is any.
type ref struct{ reg, field string }

type refset map[ref]bool

// edge says that a region holds another.
type edge struct{ dst, src ref }

type edgeAt struct {
	pos token.Pos
	fn  *ssa.Function
}

// change is a store into the memory of a parameter.
type change struct {
	reg   ref
	owner string // named struct type
	field string
	elem  string // element type of a slice or map
}

type pcall struct {
	fn   ref
	args []refset
}

type effects struct {
	fn      *ssa.Function
	val     map[ssa.Value]refset
	content map[ref]refset
	ret     []refset
	edges   map[edge]edgeAt
	many    map[string]edgeAt // regions stored in a loop which does not make them
	changes map[change]edgeAt
	calls   map[ssa.Instruction]pcall
	loops   []map[*ssa.BasicBlock]bool
	n       int
	out     map[string]bool // regions known outside, when n was outAt
	outAt   int
}

func (w *World) regions(roots []*ssa.Function) *regions {
	g := &regions{w: w, cg: w.callGraph(), sum: map[*ssa.Function]*effects{}, ids: map[ssa.Instruction]string{}, instr: map[string]ssa.Instruction{}, made: map[string]ssa.Instruction{},
		dirty: map[*ssa.Function]bool{}, users: map[*ssa.Function]map[*ssa.Function]bool{}}
	for _, f := range roots {
		g.of(f)
	}
	// callees first
	order := map[*ssa.Function]int{}
	done := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if _, ok := order[f]; ok {
			return
		}
		order[f] = 0
		for _, s := range g.cg.succ[f] {
			visit(s)
		}
		done++
		order[f] = done
		if g.analysed(f) {
			g.of(f)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	for steps := 0; len(g.dirty) > 0 && steps < 20000; steps++ {
		var next *ssa.Function
		for f := range g.dirty {
			if next == nil || order[f] < order[next] || order[f] == order[next] && f.String() < next.String() {
				next = f
			}
		}
		delete(g.dirty, next)
		g.analyse(g.sum[next])
	}
	return g
}

// of is the summary of a function as far as it is known; the asking function is looked at again when it grows.
func (g *regions) of(f *ssa.Function) *effects {
	s := g.sum[f]
	if s == nil {
		s = &effects{fn: f, val: map[ssa.Value]refset{}, content: map[ref]refset{}, edges: map[edge]edgeAt{}, many: map[string]edgeAt{}, changes: map[change]edgeAt{}, calls: map[ssa.Instruction]pcall{}}
		s.loops = naturalLoops(f)
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.ret = append(s.ret, refset{})
		}
		g.sum[f] = s
		g.dirty[f] = true
	}
	if g.asked != nil {
		if g.users[f] == nil {
			g.users[f] = map[*ssa.Function]bool{}
		}
		g.users[f][g.asked] = true
	}
	return s
}

func naturalLoops(f *ssa.Function) []map[*ssa.BasicBlock]bool {
	var r []map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
			r = append(r, body)
		}
	}
	return r
}

var immutables = map[string]bool{"time.Time": true, "time.Location": true, "error": true}

// pointerful tells whether values of a type lead to memory which can be changed.
func pointerful(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil && o.Name() == "error" || o.Pkg() != nil && immutables[o.Pkg().Path()+"."+o.Name()] {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && immutables[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
			return false
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerful(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerful(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerful(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (g *regions) id(in ssa.Instruction) string {
	if g.ids[in] == "" {
		g.ids[in] = fmt.Sprint(len(g.ids) + 1)
		g.instr[g.ids[in]] = in
	}
	return g.ids[in]
}

// alloc is the region made by an instruction.
func (g *regions) alloc(in ssa.Instruction) string {
	r := "a" + g.id(in)
	g.made[r] = in
	return r
}

// under renames a region allocated in a call.
func (g *regions) under(in ssa.Instruction, reg string) string {
	id := g.id(in)
	parts := strings.Split(reg[1:], "/")
	if len(parts) > 1 && parts[0] == id {
		return reg
	}
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	r := "a" + id + "/" + strings.Join(parts, "/")
	g.made[r] = g.made[reg]
	return r
}

// first is the instruction of the function under analysis which brings a region about.
func (g *regions) first(reg string) string { return strings.Split(reg[1:], "/")[0] }

func isAlloc(reg string) bool { return strings.HasPrefix(reg, "a") }

func (s *effects) add(m refset, x refset) bool {
	n := len(m)
	for r := range x {
		m[r] = true
	}
	s.n += len(m) - n
	return len(m) > n
}

func (s *effects) refsOf(v ssa.Value) refset {
	m := s.val[v]
	if m == nil {
		m = refset{}
		s.val[v] = m
	}
	return m
}

func (s *effects) cell(r ref) refset {
	if !isAlloc(r.reg) {
		r.field = ""
	}
	m := s.content[r]
	if m == nil {
		m = refset{}
		s.content[r] = m
	}
	return m
}

// load is what memory at some addresses may hold; "*" is what a closed region leads to.
func (s *effects) load(at refset) refset {
	out := refset{}
	for a := range at {
		if !isAlloc(a.reg) {
			out[ref{a.reg, deeper(a.field)}] = true
		}
		for c, m := range s.content {
			if c.reg == a.reg && (a.field == "" || c.field == "" || c.field == a.field || !isAlloc(a.reg)) {
				for r := range m {
					out[r] = true
				}
			}
		}
	}
	return out
}

// deeper is one load further into a closed region.
func deeper(field string) string {
	if field == "" {
		return "1"
	}
	return "*"
}

// beneath adds everything which can be reached from some addresses.
func (s *effects) beneath(at refset) refset {
	out := refset{}
	work := at
	for len(work) > 0 {
		next := refset{}
		for r := range work {
			if !out[r] {
				out[r] = true
				for x := range s.load(refset{r: true}) {
					if !out[x] {
						next[x] = true
					}
				}
			}
		}
		work = next
	}
	return out
}

// loaded is load, without what cannot have the type.
func (g *regions) loaded(s *effects, at refset, t types.Type) refset {
	out := s.load(at)
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return out
	}
	for r := range out {
		if isAlloc(r.reg) {
			var mt types.Type
			if v, ok := g.made[r.reg].(ssa.Value); ok {
				mt = v.Type()
			}
			if mt == nil {
				continue
			}
			if m, ok := mt.Underlying().(*types.Slice); ok && !types.Identical(m.Elem(), sl.Elem()) {
				delete(out, r)
			}
		} else if r.field == "" && strings.HasPrefix(r.reg, "p") {
			var k int
			fmt.Sscanf(r.reg, "p%d", &k)
			if k < len(s.fn.Params) {
				if pt, ok := s.fn.Params[k].Type().Underlying().(*types.Pointer); ok {
					if st, ok := pt.Elem().Underlying().(*types.Struct); ok && !hasArray(st) {
						delete(out, r)
					}
				}
			}
		}
	}
	return out
}

func hasArray(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Array:
			return true
		case *types.Struct:
			if hasArray(u) {
				return true
			}
		}
	}
	return false
}

func (s *effects) inLoops(in ssa.Instruction) (r []int) {
	for i, l := range s.loops {
		if l[in.Block()] {
			r = append(r, i)
		}
	}
	return r
}

// store records that memory holds references.
func (g *regions) store(s *effects, at ssa.Instruction, dst, src refset, pos token.Pos, fn *ssa.Function) {
	for d := range dst {
		s.add(s.cell(d), src)
		for x := range src {
			if isAlloc(x.reg) && g.again(s, at, x.reg) {
				if _, ok := s.many[x.reg]; !ok {
					s.many[x.reg] = edgeAt{pos, fn}
					s.n++
				}
			}
			if isAlloc(d.reg) {
				continue
			}
			e := edge{d, x}
			if _, ok := s.edges[e]; !ok {
				s.edges[e] = edgeAt{pos, fn}
				s.n++
			}
		}
	}
}

// again tells whether an instruction is in a loop which does not make a region anew.
func (g *regions) again(s *effects, at ssa.Instruction, reg string) bool {
	if len(s.loops) == 0 {
		return false
	}
	if !g.plain(reg) {
		return false
	}
	in := g.instr[g.first(reg)]
	for _, l := range s.inLoops(at) {
		if in == nil || !s.loops[l][in.Block()] {
			return true
		}
		// made in every turn, but of what an earlier one made
		for b := range s.loops[l] {
			for _, x := range b.Instrs {
				phi, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				if pointerful(phi.Type()) && s.headOf(l, b) {
					for r := range s.val[phi] {
						if r.reg == reg {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// headOf tells whether a block is the head of a loop.
func (s *effects) headOf(l int, b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if !s.loops[l][p] {
			return true
		}
	}
	return false
}

// plain tells whether memory made holds plain values.
func (g *regions) plain(reg string) bool {
	var t types.Type
	switch x := g.made[reg].(type) {
	case *ssa.MakeSlice:
		t = x.Type()
	case *ssa.Convert:
		t = x.Type()
	case *ssa.Alloc:
		t = x.Type()
	case *ssa.Call:
		t = x.Type()
	}
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return !pointerful(u.Elem())
	case *types.Pointer:
		return !pointerful(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (g *regions) change(s *effects, dst refset, owner, field, elem string, pos token.Pos, fn *ssa.Function) {
	for d := range dst {
		if isAlloc(d.reg) {
			continue
		}
		c := change{d, owner, field, elem}
		if _, ok := s.changes[c]; !ok {
			s.changes[c] = edgeAt{pos, fn}
			s.n++
		}
	}
}

// placeOf names the field an address is in, through elements.
func placeOf(addr ssa.Value) (owner, field, elem string) {
	for i := 0; i < 20; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			return types.TypeString(st, nil), st.Underlying().(*types.Struct).Field(x.Field).Name(), elem
		case *ssa.Field:
			return types.TypeString(x.X.Type(), nil), x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), elem
		case *ssa.IndexAddr:
			elem = types.TypeString(x.Type().Underlying().(*types.Pointer).Elem(), nil)
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.MakeInterface:
			addr = x.X
		case *ssa.ChangeType:
			addr = x.X
		default:
			if elem == "" {
				if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
					elem = types.TypeString(p.Elem(), nil)
				}
			}
			return "", "", elem
		}
	}
	return "", "", elem
}

func (g *regions) analyse(s *effects) {
	before := s.n
	f := s.fn
	g.asked = f
	defer func() { g.asked = nil }()
	for i, p := range f.Params {
		if pointerful(p.Type()) {
			s.add(s.refsOf(p), refset{{fmt.Sprintf("p%d", i), ""}: true})
		}
	}
	for i, p := range f.FreeVars {
		s.add(s.refsOf(p), refset{{fmt.Sprintf("p%d", len(f.Params)+i), ""}: true})
	}
	for {
		n := s.n
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g.step(s, in)
			}
		}
		if s.n == n {
			break
		}
	}
	if s.n > before {
		for u := range g.users[f] {
			g.dirty[u] = true
		}
	}
}

// read is what a value leads to.
func (g *regions) read(s *effects, v ssa.Value) refset {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return refset{{"g", ""}: true}
	case *ssa.Function:
		return refset{{"f" + x.String(), ""}: true}
	}
	if !pointerful(v.Type()) {
		if _, ok := v.(*ssa.Alloc); !ok {
			return nil
		}
	}
	return s.refsOf(v)
}

func (g *regions) step(s *effects, in ssa.Instruction) {
	set := func(v ssa.Value, x refset) {
		if pointerful(v.Type()) {
			s.add(s.refsOf(v), x)
		}
	}
	get := func(v ssa.Value) refset { return g.read(s, v) }
	own := func(v ssa.Value, in ssa.Instruction) ref {
		r := ref{g.alloc(in), ""}
		s.add(s.refsOf(v), refset{r: true})
		return r
	}
	fn := s.fn
	switch x := in.(type) {
	case *ssa.Alloc:
		own(x, in)
	case *ssa.MakeSlice:
		own(x, in)
	case *ssa.MakeMap:
		own(x, in)
	case *ssa.MakeChan:
		own(x, in)
	case *ssa.MakeClosure:
		r := own(x, in)
		for i, b := range x.Bindings {
			s.add(s.cell(ref{r.reg, fmt.Sprint(i)}), get(b))
		}
	case *ssa.FieldAddr:
		out := refset{}
		for r := range get(x.X) {
			if isAlloc(r.reg) && r.field == "" {
				r.field = fmt.Sprint(x.Field)
			}
			out[r] = true
		}
		set(x, out)
	case *ssa.Field:
		set(x, get(x.X))
	case *ssa.IndexAddr:
		set(x, get(x.X))
	case *ssa.Index:
		set(x, get(x.X))
	case *ssa.Lookup:
		set(x, s.load(get(x.X)))
	case *ssa.Slice:
		set(x, get(x.X))
	case *ssa.ChangeType:
		set(x, get(x.X))
	case *ssa.ChangeInterface:
		set(x, get(x.X))
	case *ssa.MakeInterface:
		set(x, get(x.X))
	case *ssa.TypeAssert:
		set(x, get(x.X))
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok && x.X.Type().Underlying().(*types.Basic).Info()&types.IsString != 0 {
			own(x, in)
			break
		}
		set(x, get(x.X))
	case *ssa.MultiConvert:
		set(x, get(x.X))
	case *ssa.SliceToArrayPointer:
		set(x, get(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			set(x, get(e))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(ssa.CallInstruction); ok {
			s.add(s.refsOf(x), s.results(c, x.Index))
			break
		}
		set(x, get(x.Tuple))
	case *ssa.Range:
		s.add(s.refsOf(x), get(x.X))
	case *ssa.Next:
		s.add(s.refsOf(x), s.load(s.refsOf(x.Iter)))
	case *ssa.Select:
		for _, st := range x.States {
			if st.Send != nil {
				g.store(s, in, get(st.Chan), get(st.Send), st.Pos, fn)
			}
			s.add(s.refsOf(x), s.load(get(st.Chan)))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL, token.ARROW:
			set(x, g.loaded(s, get(x.X), x.Type()))
		}
	case *ssa.Send:
		g.store(s, in, get(x.Chan), get(x.X), x.Pos(), fn)
	case *ssa.Store:
		o, fd, el := placeOf(x.Addr)
		g.change(s, get(x.Addr), o, fd, el, x.Pos(), fn)
		g.store(s, in, get(x.Addr), get(x.Val), x.Pos(), fn)
	case *ssa.MapUpdate:
		o, fd, _ := placeOf(x.Map)
		g.change(s, get(x.Map), o, fd, types.TypeString(x.Value.Type(), nil), x.Pos(), fn)
		g.store(s, in, get(x.Map), get(x.Value), x.Pos(), fn)
		g.store(s, in, get(x.Map), get(x.Key), x.Pos(), fn)
	case *ssa.Return:
		for i, r := range x.Results {
			s.add(s.ret[i], get(r))
		}
	case ssa.CallInstruction:
		g.call(s, x)
	}
}

func (s *effects) results(c ssa.CallInstruction, k int) refset {
	v, ok := c.(*ssa.Call)
	if !ok {
		return nil
	}
	out := refset{}
	pre := fmt.Sprintf("%d:", k)
	for r := range s.refsOf(v) {
		if strings.HasPrefix(r.field, "#") {
			if strings.HasPrefix(r.field[1:], pre) {
				out[ref{r.reg, r.field[1+len(pre):]}] = true
			}
		}
	}
	return out
}

// result stores what a call returns; several results are kept apart.
func (s *effects) result(c ssa.CallInstruction, k, n int, x refset) {
	v, ok := c.(*ssa.Call)
	if !ok {
		return
	}
	if n == 1 {
		if pointerful(v.Type()) {
			s.add(s.refsOf(v), x)
		}
		return
	}
	t := v.Type().(*types.Tuple).At(k).Type()
	if !pointerful(t) {
		return
	}
	out := refset{}
	for r := range x {
		out[ref{r.reg, fmt.Sprintf("#%d:%s", k, r.field)}] = true
	}
	s.add(s.refsOf(v), out)
}

func (g *regions) call(s *effects, c ssa.CallInstruction) {
	cc := c.Common()
	var args []refset
	if cc.IsInvoke() {
		args = append(args, g.read(s, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, g.read(s, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		g.builtin(s, c, b.Name(), args)
		return
	}
	var targets []*ssa.Function
	outside := false
	if cc.IsInvoke() {
		targets = g.cg.callees(c)
		if n, ok := cc.Value.Type().(*types.Named); !ok || n.Obj().Pkg() == nil || g.w.rel(n.Obj().Pkg()) == "" {
			outside = true
		}
	} else if f := cc.StaticCallee(); f != nil {
		if g.analysed(f) {
			targets = []*ssa.Function{f}
		} else {
			outside = true
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				args = append(args, g.read(s, b))
			}
		}
	} else { // a function value
		for r := range g.read(s, cc.Value) {
			g.dynamic(s, c, r, args)
		}
		return
	}
	for _, t := range targets {
		g.apply(s, c, t, args)
	}
	if outside {
		g.external(s, c, args)
	}
}

func (g *regions) analysed(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if f.Pkg != nil {
		r := g.w.rel(f.Pkg.Pkg)
		return r != "" && !strings.HasPrefix(r, "pb")
	}
	if o := f.Origin(); o != nil {
		return true
	}
	return f.Synthetic != ""
}

func (g *regions) dynamic(s *effects, c ssa.Instruction, fn ref, args []refset) {
	switch {
	case isAlloc(fn.reg):
		if mc, ok := g.made[fn.reg].(*ssa.MakeClosure); ok {
			as := append([]refset{}, args...)
			for i := range mc.Bindings {
				as = append(as, s.load(refset{{fn.reg, fmt.Sprint(i)}: true}))
			}
			if ci, ok := c.(ssa.CallInstruction); ok {
				g.apply(s, ci, mc.Fn.(*ssa.Function), as)
			}
			return
		}
	case strings.HasPrefix(fn.reg, "f"):
		for f := range g.sum {
			if f.String() == fn.reg[1:] {
				if ci, ok := c.(ssa.CallInstruction); ok {
					g.apply(s, ci, f, args)
				}
				return
			}
		}
		for _, f := range g.w.Funcs {
			if f.String() == fn.reg[1:] {
				if ci, ok := c.(ssa.CallInstruction); ok {
					g.apply(s, ci, f, args)
				}
				return
			}
		}
	case strings.HasPrefix(fn.reg, "p"):
		old := s.calls[c]
		if old.args == nil {
			old = pcall{fn, make([]refset, len(args))}
			s.n++
		}
		for i, a := range args {
			if i >= len(old.args) {
				break
			}
			if old.args[i] == nil {
				old.args[i] = refset{}
			}
			s.add(old.args[i], a)
		}
		s.calls[c] = old
		if ci, ok := c.(ssa.CallInstruction); ok {
			g.unknownResult(s, ci)
		}
		return
	}
	g.unknown(s, c, args)
}

func (g *regions) unknownResult(s *effects, c ssa.CallInstruction) {
	n := c.Common().Signature().Results().Len()
	for k := 0; k < n; k++ {
		s.result(c, k, n, refset{{"x", ""}: true})
	}
}

func (g *regions) unknown(s *effects, c ssa.Instruction, args []refset) {
	for _, a := range args {
		g.store(s, c, refset{{"x", ""}: true}, a, c.Pos(), s.fn)
		g.change(s, a, "", "", "", c.Pos(), s.fn)
	}
	if ci, ok := c.(ssa.CallInstruction); ok {
		g.unknownResult(s, ci)
	}
}

// apply takes over what a callee does.
func (g *regions) apply(s *effects, c ssa.CallInstruction, f *ssa.Function, args []refset) {
	t := g.of(f)
	mapped := map[ref]refset{}
	var tr func(r ref) refset
	tr = func(r ref) refset {
		if m, ok := mapped[r]; ok {
			return m
		}
		var m refset
		switch r.reg[0] {
		case 'p':
			var k int
			fmt.Sscanf(r.reg, "p%d", &k)
			if k < len(args) {
				m = args[k]
				switch r.field {
				case "1":
					m = s.load(m)
				case "*":
					m = s.beneath(s.load(m))
				}
			}
		case 'a':
			m = refset{{g.under(c, r.reg), r.field}: true}
		default:
			m = refset{r: true}
		}
		mapped[r] = m
		return m
	}
	all := func(x refset) refset {
		out := refset{}
		for r := range x {
			for y := range tr(r) {
				out[y] = true
			}
		}
		return out
	}
	for cell, m := range t.content {
		if isAlloc(cell.reg) {
			if !t.escapes(cell.reg) {
				continue
			}
			s.add(s.cell(ref{g.under(c, cell.reg), cell.field}), all(m))
		}
	}
	for e, at := range t.edges {
		g.store(s, c, tr(e.dst), tr(e.src), at.pos, at.fn)
	}
	for reg, at := range t.many {
		if t.escapes(reg) {
			for r := range tr(ref{reg, ""}) {
				if _, ok := s.many[r.reg]; !ok {
					s.many[r.reg] = at
					s.n++
				}
			}
		}
	}
	for ch, at := range t.changes {
		g.change(s, tr(ch.reg), ch.owner, ch.field, ch.elem, at.pos, at.fn)
	}
	for _, pc := range t.calls {
		var as []refset
		for _, a := range pc.args {
			as = append(as, all(a))
		}
		for r := range tr(pc.fn) {
			g.dynamic2(s, c, r, as)
		}
	}
	n := len(t.ret)
	for k, r := range t.ret {
		s.result(c, k, n, all(r))
	}
}

// dynamic2 is a call a callee makes of a function given to it.
func (g *regions) dynamic2(s *effects, c ssa.CallInstruction, fn ref, args []refset) {
	var f *ssa.Function
	as := append([]refset{}, args...)
	if isAlloc(fn.reg) {
		if mc, ok := g.made[fn.reg].(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
			for i := range mc.Bindings {
				as = append(as, s.load(refset{{fn.reg, fmt.Sprint(i)}: true}))
			}
		}
	} else if strings.HasPrefix(fn.reg, "f") {
		for _, x := range g.w.Funcs {
			if x.String() == fn.reg[1:] {
				f = x
			}
		}
	} else if strings.HasPrefix(fn.reg, "p") {
		g.dynamic(s, c, fn, args)
		return
	}
	if f == nil {
		for _, a := range args {
			g.store(s, c, refset{{"x", ""}: true}, a, c.Pos(), s.fn)
			g.change(s, a, "", "", "", c.Pos(), s.fn)
		}
		return
	}
	// the results go to the callee, where they are unknown
	t := g.of(f)
	tr := func(r ref) refset {
		switch r.reg[0] {
		case 'p':
			var k int
			fmt.Sscanf(r.reg, "p%d", &k)
			if k < len(as) {
				switch r.field {
				case "1":
					return s.load(as[k])
				case "*":
					return s.beneath(s.load(as[k]))
				}
				return as[k]
			}
			return nil
		case 'a':
			return refset{{g.under(c, r.reg), r.field}: true}
		}
		return refset{r: true}
	}
	for e, at := range t.edges {
		g.store(s, c, tr(e.dst), tr(e.src), at.pos, at.fn)
	}
	for ch, at := range t.changes {
		g.change(s, tr(ch.reg), ch.owner, ch.field, ch.elem, at.pos, at.fn)
	}
}

// escapes tells whether a region is known outside of the function.
func (s *effects) escapes(reg string) bool {
	if s.out != nil && s.outAt == s.n {
		return s.out[reg]
	}
	seen := map[string]bool{}
	byReg := map[string][]refset{}
	for c, m := range s.content {
		byReg[c.reg] = append(byReg[c.reg], m)
	}
	var work []string
	push := func(m refset) {
		for r := range m {
			if isAlloc(r.reg) && !seen[r.reg] {
				seen[r.reg] = true
				work = append(work, r.reg)
			}
		}
	}
	for _, r := range s.ret {
		push(r)
	}
	for c, m := range s.content {
		if !isAlloc(c.reg) {
			push(m)
		}
	}
	for _, pc := range s.calls {
		for _, a := range pc.args {
			push(a)
		}
	}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		for _, m := range byReg[r] {
			push(m)
		}
	}
	s.out, s.outAt = seen, s.n
	return seen[reg]
}

func (g *regions) builtin(s *effects, c ssa.CallInstruction, name string, args []refset) {
	v, _ := c.(*ssa.Call)
	cc := c.Common()
	switch name {
	case "append":
		own := ref{g.alloc(c), ""}
		out := refset{own: true}
		for r := range args[0] {
			out[r] = true
		}
		if len(args) > 1 {
			o, fd, el := placeOf(cc.Args[0])
			if el == "" {
				if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					el = types.TypeString(sl.Elem(), nil)
				}
			}
			g.change(s, args[0], o, fd, el, c.Pos(), s.fn)
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
				g.store(s, c, out, s.load(args[1]), c.Pos(), s.fn)
			}
		}
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
			s.add(s.cell(own), s.load(args[0]))
		}
		if v != nil {
			s.add(s.refsOf(v), out)
		}
	case "copy":
		o, fd, el := placeOf(cc.Args[0])
		g.change(s, args[0], o, fd, el, c.Pos(), s.fn)
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
			g.store(s, c, args[0], s.load(args[1]), c.Pos(), s.fn)
		}
	case "delete", "clear":
		o, fd, el := placeOf(cc.Args[0])
		g.change(s, args[0], o, fd, el, c.Pos(), s.fn)
	case "min", "max", "len", "cap", "print", "println", "panic", "close", "recover", "real", "imag", "complex":
	default:
		g.unknown(s, c, args)
	}
}
