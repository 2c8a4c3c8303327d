package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine summarises functions.
type Engine struct {
	Prog *ssa.Program
	P    *Pool
	// Opaque tells the calls which become events although their body is known.
	Opaque func(fn *ssa.Function) bool
	// Ignore tells calls without any effect a rule could observe (logging).
	Ignore func(name string) bool
	// Reads tells calls which leave the arguments (but not the receiver) alone.
	Reads func(name string, args []*Term) bool
	// Stable tells opaque functions which change nothing, and give the same for the same as long as nothing else changes it.
	Stable func(f *ssa.Function) bool
	// Pure tells calls which leave the objects handed to them alone.
	Pure func(callee string) bool
	// NonNil tells memory cells which are never nil.
	NonNil func(t *Term) bool
	// InRepo tells the packages whose functions are inlined.
	InRepo func(p *types.Package) bool
	// TrackStores makes every store to memory which is not local an event.
	TrackStores bool
	// NoUnroll makes every loop a summary.
	NoUnroll bool
	// Recv gives concrete types for interface cells, to resolve invokes.
	Resolve func(recv *Term, m *types.Func) *ssa.Function

	Steps    int
	MaxSteps int
	Problems []string // what the engine could not follow
	loops    map[*ssa.Function]*loopInfo
	inlined  map[*ssa.Function]bool
	nev      int
}

func New(prog *ssa.Program) *Engine {
	return &Engine{Prog: prog, P: NewPool(), loops: map[*ssa.Function]*loopInfo{}, inlined: map[*ssa.Function]bool{}, MaxSteps: 3000000}
}

// Inlined returns the functions followed so far.
func (en *Engine) Inlined() map[*ssa.Function]bool { return en.inlined }

type loopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (en *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := en.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := li.header[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					li.header[s] = set
				}
				var stack []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	en.loops[fn] = li
	return li
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	tup    map[ssa.Value][]*Term
	defers []deferred
	depth  int
	stack  []*ssa.Function
	// loop being summarised: reaching stop by a back edge or leaving the set ends the path
	loopHead  *ssa.BasicBlock
	loopSet   map[*ssa.BasicBlock]bool
	unrolling map[*ssa.BasicBlock]int
	iters     map[*ssa.BasicBlock]bool // headers whose generic iteration is being run
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.tup = make(map[ssa.Value][]*Term, len(f.tup))
	for k, v := range f.tup {
		n.tup[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.unrolling = make(map[*ssa.BasicBlock]int, len(f.unrolling))
	for k, v := range f.unrolling {
		n.unrolling[k] = v
	}
	return &n
}

type outKind int

const (
	oRet outKind = iota
	oPanic
	oBack // back edge to the loop header being summarised
	oExit // left the loop being summarised
)

type outcome struct {
	kind outKind
	st   *State
	fr   *frame
	ret  []*Term
	pred *ssa.BasicBlock
	to   *ssa.BasicBlock
	pos  token.Pos
}

type budgetErr struct{}

func (en *Engine) problem(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, p := range en.Problems {
		if p == s {
			return
		}
	}
	en.Problems = append(en.Problems, s)
}

// Summary is the result of summarising one function.
type Summary struct {
	Fn       *ssa.Function
	Params   []*Term
	Paths    []*Path
	Problems []string
	Complete bool
}

// Run summarises fn from fresh parameters (or the given ones).
func (en *Engine) Run(fn *ssa.Function, args []*Term, assume func(s *State)) (sum *Summary) {
	sum = &Summary{Fn: fn, Complete: true}
	en.Problems = nil
	en.Steps = 0
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, en.P.Mk("param", p.Name(), p.Type()))
		}
	}
	sum.Params = args
	st := newState()
	if assume != nil {
		assume(st)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(budgetErr); ok {
				sum.Complete = false
				en.problem("%s: too many paths", fn)
				sum.Problems = en.Problems
				return
			}
			panic(r)
		}
	}()
	outs := en.call(fn, args, nil, st, nil)
	for _, o := range outs {
		p := &Path{Lits: o.st.order, Events: o.st.events(0), Ret: o.ret, Panic: o.kind == oPanic, St: o.st, Writes: o.st.mem, RetPos: o.pos}
		sum.Paths = append(sum.Paths, p)
	}
	sum.Problems = en.Problems
	return sum
}

func (en *Engine) call(fn *ssa.Function, args []*Term, free []*Term, st *State, stack []*ssa.Function) []outcome {
	en.inlined[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, unrolling: map[*ssa.BasicBlock]int{},
		stack: append(stack[:len(stack):len(stack)], fn), iters: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	if len(fn.Blocks) == 0 {
		return []outcome{{kind: oRet, st: st}}
	}
	return en.block(fr, fn.Blocks[0], nil, st)
}

// block enters b from pred.
func (en *Engine) block(fr *frame, b, pred *ssa.BasicBlock, st *State) []outcome {
	en.Steps++
	if en.Steps > en.MaxSteps {
		panic(budgetErr{})
	}
	if fr.loopSet != nil {
		if b == fr.loopHead {
			return []outcome{{kind: oBack, st: st, fr: fr, pred: pred, to: b}}
		}
		if !fr.loopSet[b] {
			return []outcome{{kind: oExit, st: st, fr: fr, pred: pred, to: b}}
		}
	}
	if set, ok := en.loopsOf(fr.fn).header[b]; ok {
		return en.loop(fr, b, set, pred, st)
	}
	en.phis(fr, b, pred)
	return en.instrs(fr, b, 0, st)
}

func (en *Engine) phis(fr *frame, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
			break
		}
	}
	vals := map[*ssa.Phi]*Term{}
	tups := map[*ssa.Phi][]*Term{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = en.val(fr, ph.Edges[idx])
		if t, ok := fr.tup[ph.Edges[idx]]; ok {
			tups[ph] = t
		}
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	for ph, v := range tups {
		fr.tup[ph] = v
	}
}

// headDecided runs the header on concrete phis and tells whether its branch is decided.
func (en *Engine) headDecided(fr *frame, h, pred *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, st *State) bool {
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if in, ok := last.Cond.(ssa.Instruction); !ok || !set[in.Block()] {
		// the same each time round, going round does not end
		c := en.val(fr, last.Cond)
		if v, k := c.BoolVal(); !k || set[h.Succs[0]] == v {
			return false
		}
	}
	for _, in := range h.Instrs { // header must be free of calls
		switch x := in.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Store, *ssa.Defer, *ssa.Go, *ssa.Next, *ssa.MapUpdate:
			return false
		}
	}
	f2, s2 := fr.clone(), st.clone()
	en.phis(f2, h, pred)
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.If); ok {
			break
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if call, ok := in.(*ssa.Call); ok {
			outs := en.callInstr(f2, call, s2)
			if len(outs) != 1 || outs[0].kind != oRet {
				return false
			}
			en.bind(f2, call, outs[0].ret)
			s2 = outs[0].st
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			en.value(f2, v, s2)
		}
	}
	c := en.val(f2, last.Cond)
	_, k := en.Decide(s2, c)
	if !k {
		return false
	}
	// only constants count: a guard decided by assumptions would not end
	return c.IsConst() || onlyConst(c)
}

func onlyConst(t *Term) bool {
	if t.IsConst() {
		return true
	}
	if t.Op == "!" {
		return onlyConst(t.Args[0])
	}
	return false
}

// maxUnroll is how often a loop with known bounds is followed step by step.
const maxUnroll = 80

func (en *Engine) loop(fr *frame, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, pred *ssa.BasicBlock, st *State) []outcome {
	if fr.unrolling[h] < maxUnroll && !en.NoUnroll && en.headDecided(fr, h, pred, set, st) {
		fr.unrolling[h]++
		en.phis(fr, h, pred)
		return en.instrs(fr, h, 0, st)
	}
	if set[pred] && fr.unrolling[h] > 0 {
		// undecided in the middle of unrolling: go on with the summary from here
	}
	fr.unrolling[h] = 0

	idx := -1
	for i, p := range h.Preds {
		if p == pred {
			idx = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	inits := make([]*Term, len(phis))
	for i, ph := range phis {
		inits[i] = en.val(fr, ph.Edges[idx])
	}
	invariant := make([]bool, len(phis))
	havoc := map[*Term]bool{} // memory cells written in the loop
	bases := map[*Term]bool{} // bases whose epoch moves in the loop
	var lp *Loop
	var outs []outcome
	for round := 0; ; round++ {
		lp = &Loop{ID: fmt.Sprintf("%s.%d", fr.fn.Name(), h.Index), Fn: fr.fn.String()}
		for _, in := range h.Instrs {
			if in.Pos().IsValid() {
				lp.Pos = in.Pos()
				break
			}
		}
		mark := en.P.n
		lp.Mark = mark
		f2, s2 := fr.clone(), st.clone()
		f2.loopHead, f2.loopSet = h, set
		for i, ph := range phis {
			if invariant[i] {
				f2.env[ph] = inits[i]
				continue
			}
			name := ph.Comment
			if name == "" {
				name = ph.Name()
			}
			t := en.P.Fresh("iter", name, ph.Type())
			t.Any = lp
			lp.Phis = append(lp.Phis, &LoopPhi{Name: name, Term: t, Init: inits[i]})
			f2.env[ph] = t
		}
		memIter := map[*Term]*Term{}
		for a := range havoc {
			init, ok := s2.mem[a]
			if !ok {
				init = nil
			}
			t := en.P.Fresh("iter", strings.TrimPrefix(a.String(), "&"), nil)
			if init != nil {
				t.Typ = init.Typ
			} else if a.Typ != nil {
				if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
					t.Typ = pt.Elem()
				}
			}
			if t.Typ == nil {
				t.Typ = a.Typ
			}
			t.Any = lp
			if init == nil {
				init = en.Load(s2, a, t.Typ)
			}
			lp.Phis = append(lp.Phis, &LoopPhi{Name: "mem:" + strings.TrimPrefix(a.String(), "&"), Term: t, Init: init})
			memIter[a] = t
			s2.mem[a] = t
		}
		for b := range bases {
			if b.Op == "epf" || b.Op == "epc" {
				en.dropElems(s2, b)
			} else {
				en.dropUnder(s2, b)
			}
			s2.epoch[b]++
			en.nev++
			s2.epoch[b] += en.nev * 1000 // not the same contents as before
		}
		for a, t := range memIter {
			s2.mem[a] = t
		}
		ev := &Event{Kind: "loop", Loop: lp, Pos: lp.Pos, Fn: fr.fn.String()}
		s2.push(ev)
		en.newVer(s2)
		from := s2.evLen()
		litFrom := len(s2.order)
		entryMem := map[*Term]*Term{}
		for k, v := range s2.mem {
			entryMem[k] = v
		}
		entryEp := map[*Term]int{}
		for k, v := range s2.epoch {
			entryEp[k] = v
		}
		outs = en.instrs(f2, h, 0, s2)
		grew := false
		for _, o := range outs {
			if o.kind != oBack {
				continue
			}
			for a, v := range o.st.mem {
				if entryMem[a] != v && !havoc[a] {
					if newer(a, mark) {
						continue
					}
					havoc[a] = true
					grew = true
				}
			}
			for b, e := range o.st.epoch {
				if entryEp[b] != e && !bases[b] {
					if newer(b, mark) {
						continue
					}
					bases[b] = true
					grew = true
				}
			}
		}
		// phis which never change
		if !grew && round == 0 {
			for i, ph := range phis {
				same := true
				any := false
				for _, o := range outs {
					if o.kind != oBack {
						continue
					}
					any = true
					bi := predIndex(h, o.pred)
					v := en.val(o.fr, ph.Edges[bi])
					if v != f2phi(lp, ph, o.fr) && v != inits[i] {
						same = false
					}
				}
				if same && any {
					invariant[i] = true
					grew = true
				}
			}
		} else if grew && round > 8 {
			en.problem("%s: loop %s does not stabilise", fr.fn, lp.ID)
			grew = false
		}
		if grew {
			continue
		}
		// summarise iterations
		for _, o := range outs {
			if o.kind != oBack {
				continue
			}
			it := &Path{Lits: o.st.order[litFrom:], Events: o.st.events(from), St: o.st, Writes: o.st.mem}
			lp.Iters = append(lp.Iters, it)
			k := 0
			bi := predIndex(h, o.pred)
			for i, ph := range phis {
				if invariant[i] {
					continue
				}
				lp.Phis[k].Next = append(lp.Phis[k].Next, en.val(o.fr, ph.Edges[bi]))
				k++
			}
			for ; k < len(lp.Phis); k++ {
				lpp := lp.Phis[k]
				for a, t := range memIter {
					if t == lpp.Term {
						lpp.Next = append(lpp.Next, o.st.mem[a])
					}
				}
			}
		}
		break
	}
	var res []outcome
	for _, o := range outs {
		switch o.kind {
		case oBack:
		case oExit:
			o.fr.loopHead, o.fr.loopSet = fr.loopHead, fr.loopSet
			res = append(res, en.block(o.fr, o.to, o.pred, o.st)...)
		default:
			res = append(res, o)
		}
	}
	return res
}

func predIndex(h, pred *ssa.BasicBlock) int {
	for i, p := range h.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

func f2phi(lp *Loop, ph *ssa.Phi, fr *frame) *Term { return fr.env[ph] }

// newer tells terms made after mark occur in t.
func newer(t *Term, mark int) bool {
	if t.ID > mark && (t.Op == "iter" || t.Op == "alloc" || t.Op == "make" || t.Op == "res" || t.Op == "unknown" || t.Op == "next") {
		return true
	}
	for _, a := range t.Args {
		if newer(a, mark) {
			return true
		}
	}
	return false
}

// Root returns the object an address belongs to.
func Root(a *Term) *Term {
	for a.Op == "field" || a.Op == "elem" || a.Op == "sl" {
		a = a.Args[0]
	}
	return a
}

func (en *Engine) instrs(fr *frame, b *ssa.BasicBlock, i int, st *State) []outcome {
	for ; i < len(b.Instrs); i++ {
		en.Steps++
		if en.Steps > en.MaxSteps {
			panic(budgetErr{})
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return en.block(fr, b.Succs[0], b, st)
		case *ssa.If:
			c := en.val(fr, in.Cond)
			if v, ok := en.Decide(st, c); ok {
				if v {
					return en.block(fr, b.Succs[0], b, st)
				}
				return en.block(fr, b.Succs[1], b, st)
			}
			var res []outcome
			pos := in.Cond.Pos()
			s2, f2 := st.clone(), fr.clone()
			if en.Assume(s2, c, true, pos) {
				res = append(res, en.block(f2, b.Succs[0], b, s2)...)
			}
			if en.Assume(st, c, false, pos) {
				res = append(res, en.block(fr, b.Succs[1], b, st)...)
			}
			return res
		case *ssa.Return:
			var ret []*Term
			for _, r := range in.Results {
				ret = append(ret, en.val(fr, r))
			}
			return []outcome{{kind: oRet, st: st, fr: fr, ret: ret, pos: in.Pos()}}
		case *ssa.Panic:
			return []outcome{{kind: oPanic, st: st, fr: fr, pos: in.Pos()}}
		case *ssa.Store:
			en.Store(st, en.val(fr, in.Addr), en.val(fr, in.Val), in.Pos(), fr.fn)
		case *ssa.MapUpdate:
			m := en.val(fr, in.Map)
			st.push(&Event{Kind: "call", Callee: "mapupdate", Name: "mapupdate", Recv: m, Args: []*Term{en.val(fr, in.Key), en.val(fr, in.Value)}, Pos: in.Pos(), Fn: fr.fn.String()})
			st.epoch[m]++
		case *ssa.Send:
			st.push(&Event{Kind: "call", Callee: "send", Name: "send", Pos: in.Pos(), Fn: fr.fn.String()})
		case *ssa.Go:
			st.push(&Event{Kind: "call", Callee: "go", Name: "go", Pos: in.Pos(), Fn: fr.fn.String()})
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			d.fn = en.calleeTerm(fr, &in.Call)
			for _, a := range in.Call.Args {
				d.args = append(d.args, en.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			return en.runDefers(fr, b, i+1, st)
		case *ssa.Call:
			outs := en.callInstr(fr, in, st)
			if len(outs) == 1 && outs[0].kind == oRet {
				en.bind(fr, in, outs[0].ret)
				st = outs[0].st
				continue
			}
			var res []outcome
			for k, o := range outs {
				if o.kind == oPanic {
					res = append(res, outcome{kind: oPanic, st: o.st, fr: fr, pos: o.pos})
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				en.bind(f2, in, o.ret)
				res = append(res, en.instrs(f2, b, i+1, o.st)...)
			}
			return res
		default:
			if v, ok := in.(ssa.Value); ok {
				en.value(fr, v, st)
			} else {
				en.problem("%s: instruction %T", fr.fn, in)
			}
		}
	}
	return nil
}

func (en *Engine) bind(fr *frame, in ssa.Value, ret []*Term) {
	if tup, ok := in.Type().(*types.Tuple); ok {
		if tup.Len() == 1 {
			fr.env[in] = ret[0]
		}
		fr.tup[in] = ret
		return
	}
	if len(ret) > 0 {
		fr.env[in] = ret[0]
	}
}

func (en *Engine) runDefers(fr *frame, b *ssa.BasicBlock, next int, st *State) []outcome {
	if len(fr.defers) == 0 {
		return en.instrs(fr, b, next, st)
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := en.dispatch(fr, d.call, d.fn, d.args, d.pos, st, nil)
	var res []outcome
	for k, o := range outs {
		if o.kind == oPanic {
			res = append(res, outcome{kind: oPanic, st: o.st, fr: fr})
			continue
		}
		f2 := fr
		if k < len(outs)-1 {
			f2 = fr.clone()
		}
		res = append(res, en.runDefers(f2, b, next, o.st)...)
	}
	return res
}

// val returns the term of an SSA value.
func (en *Engine) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return en.Zero(x.Type())
		}
		return en.P.Const(x.Value, x.Type())
	case *ssa.Global:
		t := en.P.Mk("global", x.String(), x.Type())
		t.Any = x
		return t
	case *ssa.Function:
		t := en.P.Mk("func", x.String(), x.Type())
		t.Any = x
		return t
	case *ssa.Builtin:
		return en.P.Mk("builtin", x.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	en.problem("%s: no value for %s", fr.fn, v.Name())
	t := en.P.Fresh("unknown", v.Name(), v.Type())
	fr.env[v] = t
	return t
}

// Zero returns the zero value of a type.
func (en *Engine) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return en.P.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return en.P.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return en.P.Const(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return en.P.Const(constant.MakeFloat64(0), t)
		}
	case *types.Struct:
		if en.atomicStruct(t) {
			return en.P.Mk("zero", t.String(), t)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, en.Zero(u.Field(i).Type()))
		}
		return en.P.Mk("struct", t.String(), t, as...)
	case *types.Array:
		return en.P.Mk("zero", t.String(), t)
	}
	return en.P.Mk("nil", "", nil)
}

// atomicStruct tells struct types of other modules, kept whole.
func (en *Engine) atomicStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && !en.InRepo(p) || p != nil && strings.HasSuffix(p.Path(), "/pb/pb")
}

// Field returns the address of a field.
func (en *Engine) FieldAddr(ptr *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return en.P.Mk("field", f.Name(), types.NewPointer(f.Type()), ptr)
}

// ElemAddr returns the address of an element.
func (en *Engine) ElemAddr(base, idx *Term, elem types.Type) *Term {
	for base.Op == "sl" {
		lo := base.Args[1]
		if lo.Op != "nil" {
			idx = en.P.Add(idx, lo, 1, types.Typ[types.Int])
		}
		base = base.Args[0]
	}
	return en.P.Mk("elem", "", types.NewPointer(elem), base, idx)
}

func elemOf(a *Term) *Term {
	for x := a; ; x = x.Args[0] {
		switch x.Op {
		case "elem":
			return x
		case "field":
			continue
		}
		return nil
	}
}

func (en *Engine) epochKey(a *Term) *Term {
	if e := elemOf(a); e != nil {
		if _, ok := e.Args[1].IntVal(); ok {
			return en.P.Mk("epc", fieldPath(a), nil, e.Args[0])
		}
		return en.P.Mk("epf", fieldPath(a), nil, e.Args[0])
	}
	if a.Op == "field" {
		return Root(a)
	}
	return a
}

// Load reads a cell.
func (en *Engine) Load(s *State, a *Term, typ types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if u, ok := typ.Underlying().(*types.Struct); ok && !en.atomicStruct(typ) {
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, en.Load(s, en.FieldAddr(a, u, i), u.Field(i).Type()))
		}
		return en.P.Mk("struct", typ.String(), typ, as...)
	}
	// element of a known sequence
	if a.Op == "elem" {
		if v := en.seqElem(a.Args[0], a.Args[1]); v != nil {
			return v
		}
		if sv, ok := a.Args[0].StringVal(); ok {
			if i, ok := a.Args[1].IntVal(); ok && i >= 0 && i < int64(len(sv)) {
				return en.P.Const(constant.MakeInt64(int64(sv[i])), types.Typ[types.Byte])
			}
		}
	}
	// field of a value which was stored as a whole
	if a.Op == "field" {
		if v, ok := s.mem[a.Args[0]]; ok {
			if v.Op == "struct" {
				if st, ok := v.Typ.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == a.Aux {
							return v.Args[i]
						}
					}
				}
			}
			return en.P.Mk("fval", a.Aux, typ, v)
		}
	}
	r := Root(a)
	ek := en.epochKey(a)
	ep := s.epoch[ek]
	if (r.Op == "alloc" || r.Op == "make") && ep == 0 && s.epoch[r] == 0 {
		if wholeStored := en.wholeStored(s, a); wholeStored == nil {
			return en.Zero(typ)
		}
	}
	if r != ek {
		ep += s.epoch[r]
	}
	return en.P.Mk("load", fmt.Sprint(ep), typ, a)
}

func (en *Engine) wholeStored(s *State, a *Term) *Term {
	for x := a; x.Op == "field" || x.Op == "elem"; x = x.Args[0] {
		if v, ok := s.mem[x.Args[0]]; ok {
			return v
		}
	}
	return nil
}

func (en *Engine) seqElem(seq, idx *Term) *Term {
	if seq.Op != "seq" {
		return nil
	}
	k, ok := idx.IntVal()
	if !ok {
		return nil
	}
	for _, p := range seq.Args {
		if p.Op != "e" {
			return nil
		}
		if k == 0 {
			return p.Args[0]
		}
		k--
	}
	return nil
}

// Store writes a cell.
func (en *Engine) Store(s *State, a, v *Term, pos token.Pos, fn *ssa.Function) {
	if v.Op == "struct" && v.Typ != nil {
		if u, ok := v.Typ.Underlying().(*types.Struct); ok && !en.atomicStruct(v.Typ) {
			for i := 0; i < u.NumFields() && i < len(v.Args); i++ {
				en.Store(s, en.FieldAddr(a, u, i), v.Args[i], pos, fn)
			}
			return
		}
	}
	en.clobber(s, a)
	s.mem[a] = v
	r := Root(a)
	if r.Op != "alloc" && r.Op != "make" {
		en.newVer(s)
	}
	if en.TrackStores {
		if r.Op != "alloc" && r.Op != "make" {
			s.push(&Event{Kind: "store", Addr: a, Val: v, Pos: pos, Fn: fn.String()})
		}
	}
}

// clobber forgets the cells a store to a may change.
func (en *Engine) clobber(s *State, a *Term) {
	e := elemOf(a)
	if e == nil {
		for k := range s.mem {
			if k != a && under(k, a) {
				delete(s.mem, k)
			}
		}
		return
	}
	base, idx := e.Args[0], e.Args[1]
	iv, iconst := idx.IntVal()
	for k := range s.mem {
		ke := elemOf(k)
		if ke == nil || ke.Args[0] != base || ke == e {
			if ke == e && k != a && under(k, a) {
				delete(s.mem, k)
			}
			continue
		}
		if kv, ok := ke.Args[1].IntVal(); ok && iconst && kv != iv {
			continue
		}
		// a constant distance apart
		if d := en.P.LinOf(ke.Args[1]).add(en.P.LinOf(idx), -1); len(d.Coef) == 0 && d.K != 0 {
			continue
		}
		if fieldPath(k) != fieldPath(a) {
			continue
		}
		delete(s.mem, k)
	}
	fp := fieldPath(a)
	s.epoch[en.P.Mk("epf", fp, nil, base)]++
	if !iconst {
		s.epoch[en.P.Mk("epc", fp, nil, base)]++
	}
}

func fieldPath(a *Term) string {
	if a.Op == "field" {
		return fieldPath(a.Args[0]) + "." + a.Aux
	}
	return ""
}

func under(k, a *Term) bool {
	for k.Op == "field" || k.Op == "elem" {
		k = k.Args[0]
		if k == a {
			return true
		}
	}
	return false
}

func (en *Engine) dropUnder(s *State, b *Term) {
	for k := range s.mem {
		if k == b || under(k, b) {
			delete(s.mem, k)
		}
	}
}

// dropElems forgets the elements an epoch of a slice is about.
func (en *Engine) dropElems(s *State, b *Term) {
	for k := range s.mem {
		if e := elemOf(k); e != nil && e.Args[0] == b.Args[0] && fieldPath(k) == b.Aux {
			delete(s.mem, k)
		}
	}
}

// havocObj forgets what is known of an object handed to a call.
func (en *Engine) havocObj(s *State, t *Term) {
	t = stripIface(t)
	for t.Op == "sl" {
		t = t.Args[0]
	}
	switch t.Op {
	case "alloc", "make", "field", "elem":
		en.dropUnder(s, t)
		en.nev++
		s.epoch[t] += en.nev
	case "closure":
		for _, b := range t.Args {
			en.havocObj(s, b)
		}
	}
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// StripIface removes interface conversions.
func StripIface(t *Term) *Term { return stripIface(t) }
