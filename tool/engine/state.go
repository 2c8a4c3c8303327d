package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Event is something a rule may observe on a path.
type Event struct {
	Kind   string // "call", "store", "loop", "write"
	Callee string // qualified name of callee ("pkg.Func", "(pkg.T).M")
	Name   string // bare name
	Recv   *Term  // receiver, for methods
	Args   []*Term
	Res    []*Term
	Addr   *Term // store
	Val    *Term // store
	Loop   *Loop
	Pos    token.Pos
	Fn     string
	Iface  bool
}

func (e *Event) String() string {
	switch e.Kind {
	case "loop":
		return e.Loop.String()
	case "store":
		return fmt.Sprintf("%s := %s", strings.TrimPrefix(e.Addr.String(), "&"), e.Val)
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	r := ""
	if e.Recv != nil {
		r = e.Recv.String() + "."
	}
	return fmt.Sprintf("%s%s(%s)", r, e.Name, strings.Join(as, ", "))
}

// Loop is the summary of one loop on one path: the paths of a generic iteration.
type Loop struct {
	ID    string
	Phis  []*LoopPhi
	Iters []*Path // iterations which go on
	Pos   token.Pos
	Fn    string
	Mark  int // terms of iterations have higher numbers
}

// LoopPhi is a value carried around the loop.
type LoopPhi struct {
	Name string
	Term *Term // its value in a generic iteration
	Init *Term
	Next []*Term // per Iters
}

func (l *Loop) String() string {
	var b strings.Builder
	b.WriteString("loop{")
	for i, ph := range l.Phis {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%s=%s", ph.Term, ph.Init)
	}
	for i, it := range l.Iters {
		fmt.Fprintf(&b, " |%d: %s", i, it)
	}
	b.WriteString("}")
	return b.String()
}

type evList struct {
	prev *evList
	e    *Event
	n    int
}

type interval struct {
	lo, hi int64
	ne     []int64
}

// State is the abstract state at one point of one path.
type State struct {
	mem   map[*Term]*Term
	epoch map[*Term]int
	lits  map[*Term]bool      // boolean atoms
	ivs   map[*Term]*interval // bounds of linear parts
	order []*Lit
	ev    *evList
	ver   int // changes with the memory, see Engine.Stable
}

// Lit is a branch decision.
type Lit struct {
	Cond *Term
	Val  bool
	Pos  token.Pos
}

func (l *Lit) String() string {
	if l.Val {
		return l.Cond.String()
	}
	return "!" + l.Cond.String()
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, epoch: map[*Term]int{}, lits: map[*Term]bool{}, ivs: map[*Term]*interval{}}
}

// Fork copies a state to try assumptions on.
func (s *State) Fork() *State { return s.clone() }

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), epoch: make(map[*Term]int, len(s.epoch)),
		lits: make(map[*Term]bool, len(s.lits)), ivs: make(map[*Term]*interval, len(s.ivs)), ev: s.ev, ver: s.ver}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.ivs {
		n.ivs[k] = v
	}
	n.order = s.order[:len(s.order):len(s.order)]
	return n
}

func (s *State) push(e *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &evList{s.ev, e, n}
}

func (s *State) evLen() int {
	if s.ev == nil {
		return 0
	}
	return s.ev.n
}

func (s *State) events(from int) []*Event {
	var r []*Event
	for l := s.ev; l != nil && l.n > from; l = l.prev {
		r = append(r, l.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Path is one summarised path.
type Path struct {
	Lits   []*Lit
	Events []*Event
	Ret    []*Term
	Panic  bool
	St     *State
	Writes map[*Term]*Term // final memory cells written on the path
	RetPos token.Pos
}

func (p *Path) String() string {
	var b strings.Builder
	for i, l := range p.Lits {
		if i > 0 {
			b.WriteString(" & ")
		}
		b.WriteString(l.String())
	}
	b.WriteString(" => ")
	for _, e := range p.Events {
		b.WriteString(e.String())
		b.WriteString("; ")
	}
	if p.Panic {
		b.WriteString("PANIC")
	} else if p.Ret != nil {
		fmt.Fprintf(&b, "RET %v", p.Ret)
	}
	return b.String()
}

// ---- literals ----

// not returns the negated condition.
func (en *Engine) not(t *Term) *Term {
	if v, ok := t.BoolVal(); ok {
		return en.P.Bool(!v)
	}
	if t.Op == "!" {
		return t.Args[0]
	}
	return en.P.Mk("!", "", types.Typ[types.Bool], t)
}

// Decide returns the truth of a condition in s if it is known.
func (en *Engine) Decide(s *State, t *Term) (val, known bool) {
	if v, ok := t.BoolVal(); ok {
		return v, true
	}
	switch t.Op {
	case "!":
		v, k := en.Decide(s, t.Args[0])
		return !v, k
	case "isnil":
		x := t.Args[0]
		switch x.Op {
		case "nil":
			return true, true
		case "alloc", "field", "elem", "newerr", "closure", "func", "global", "seq", "struct", "sl", "make":
			return false, true
		case "wrap":
			return en.Decide(s, en.P.Mk("isnil", "", types.Typ[types.Bool], x.Args[0]))
		case "iface":
			return false, true
		case "load":
			if en.NonNil != nil && en.NonNil(x) {
				return false, true
			}
		}
	case "le0", "eq0":
		return en.decideLin(s, t)
	}
	v, ok := s.lits[t]
	return v, ok
}

func (en *Engine) bounds(s *State, k *Term, sign int64) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if iv, ok := s.ivs[k]; ok {
		lo, hi = iv.lo, iv.hi
	}
	// a sum of nonnegative terms with positive coefficients is nonnegative
	l := en.P.LinOf(k)
	allPos, allNeg := true, true
	var tlo int64
	sumLo, okLo := int64(0), true
	sumHi, okHi := int64(0), true
	for t, c := range l.Coef {
		a, b := en.atomBounds(s, t)
		if c > 0 {
			if a == math.MinInt64 {
				okLo = false
			} else if m, ok := mulOk(a, c); ok {
				sumLo += m
			} else {
				okLo = false
			}
			if b == math.MaxInt64 {
				okHi = false
			} else if m, ok := mulOk(b, c); ok {
				sumHi += m
			} else {
				okHi = false
			}
		} else {
			if b == math.MaxInt64 {
				okLo = false
			} else if m, ok := mulOk(b, c); ok {
				sumLo += m
			} else {
				okLo = false
			}
			if a == math.MinInt64 {
				okHi = false
			} else if m, ok := mulOk(a, c); ok {
				sumHi += m
			} else {
				okHi = false
			}
		}
	}
	_, _, _ = allPos, allNeg, tlo
	if okLo && sumLo > lo {
		lo = sumLo
	}
	if okHi && sumHi < hi {
		hi = sumHi
	}
	return
}

func mulOk(a, c int64) (int64, bool) {
	if a > 1<<40 || a < -(1<<40) || c > 1<<20 || c < -(1<<20) {
		return 0, false
	}
	return a * c, true
}

// atomBounds returns what is known about one term without relations.
func (en *Engine) atomBounds(s *State, t *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if v, ok := t.IntVal(); ok {
		return v, v
	}
	if t.Op == "lin" {
		return en.TermBounds(s, t)
	}
	if isUnsigned(t.Typ) || t.Op == "len" || t.Op == "cap" {
		lo = 0
	}
	if b, ok := typBasic(t.Typ); ok {
		switch b.Kind() {
		case types.Uint8:
			hi = 255
		case types.Uint16:
			hi = 65535
		case types.Uint32:
			hi = math.MaxUint32
		case types.Int8:
			lo, hi = -128, 127
		case types.Int16:
			lo, hi = -32768, 32767
		case types.Int32:
			lo, hi = math.MinInt32, math.MaxInt32
		}
	}
	if t.Op == "bin" && t.Aux == "&" {
		for _, a := range t.Args {
			if v, ok := a.IntVal(); ok && v >= 0 {
				lo = 0
				if v < hi {
					hi = v
				}
			}
		}
	}
	if t.Op == "bin" && t.Aux == "%" {
		if v, ok := t.Args[1].IntVal(); ok && v > 0 {
			if v-1 < hi {
				hi = v - 1
			}
			if lo < 0 {
				if l0, _ := en.TermBounds(s, t.Args[0]); l0 >= 0 {
					lo = 0
				} else {
					lo = -(v - 1)
				}
			}
		}
	}
	if t.Op == "bin" && t.Aux == ">>" {
		if v, ok := t.Args[1].IntVal(); ok && v >= 0 && v < 63 {
			l0, h0 := en.TermBounds(s, t.Args[0])
			if l0 >= 0 {
				lo = l0 >> uint(v)
				if h0 != math.MaxInt64 && h0>>uint(v) < hi {
					hi = h0 >> uint(v)
				}
			}
		}
	}
	if t.Op == "conv" {
		l0, h0 := en.TermBounds(s, t.Args[0])
		if l0 >= lo && h0 <= hi { // value fits: conversion keeps it
			lo, hi = l0, h0
		}
	}
	if iv, ok := s.ivs[t]; ok {
		if iv.lo > lo {
			lo = iv.lo
		}
		if iv.hi < hi {
			hi = iv.hi
		}
	}
	return
}

func typBasic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// TermBounds returns bounds of an integer term in s.
func (en *Engine) TermBounds(s *State, t *Term) (lo, hi int64) {
	if v, ok := t.IntVal(); ok {
		return v, v
	}
	if t.Op != "lin" {
		return en.atomBounds(s, t)
	}
	l := en.P.LinOf(t)
	k, sign := en.P.key(l)
	lo, hi = en.bounds(s, k, 1)
	if sign < 0 {
		lo, hi = neg(hi), neg(lo)
	}
	return satAdd(lo, l.K), satAdd(hi, l.K)
}

func neg(x int64) int64 {
	if x == math.MinInt64 {
		return math.MaxInt64
	}
	if x == math.MaxInt64 {
		return math.MinInt64
	}
	return -x
}

func satAdd(a, b int64) int64 {
	if a == math.MinInt64 || a == math.MaxInt64 {
		return a
	}
	return a + b
}

// linear atoms: le0 / eq0 of a term whose linear part is canonical.
func (en *Engine) decideLin(s *State, t *Term) (val, known bool) {
	l := en.P.LinOf(t.Args[0])
	k, sign := en.P.key(l)
	if k == nil {
		if t.Op == "le0" {
			return l.K <= 0, true
		}
		return l.K == 0, true
	}
	lo, hi := en.bounds(s, k, sign)
	if t.Op == "le0" {
		// sign*k + K <= 0
		if sign > 0 { // k <= -K
			if hi <= -l.K {
				return true, true
			}
			if lo > -l.K {
				return false, true
			}
		} else { // k >= K
			if lo >= l.K {
				return true, true
			}
			if hi < l.K {
				return false, true
			}
		}
		return false, false
	}
	v := -l.K * sign
	if lo == v && hi == v {
		return true, true
	}
	if v < lo || v > hi {
		return false, true
	}
	if iv, ok := s.ivs[k]; ok {
		for _, n := range iv.ne {
			if n == v {
				return false, true
			}
		}
	}
	return false, false
}

// Assume adds a literal; it returns false if that contradicts s.
func (en *Engine) Assume(s *State, t *Term, val bool, pos token.Pos) bool {
	for t.Op == "!" {
		t, val = t.Args[0], !val
	}
	if v, k := en.Decide(s, t); k {
		return v == val
	}
	s.order = append(s.order, &Lit{t, val, pos})
	switch t.Op {
	case "isnil":
		if t.Args[0].Op == "wrap" {
			x := en.P.Mk("isnil", "", types.Typ[types.Bool], t.Args[0].Args[0])
			s.lits[x] = val
		}
		s.lits[t] = val
	case "le0", "eq0":
		l := en.P.LinOf(t.Args[0])
		k, sign := en.P.key(l)
		iv := &interval{math.MinInt64, math.MaxInt64, nil}
		if o, ok := s.ivs[k]; ok {
			*iv = *o
			iv.ne = o.ne[:len(o.ne):len(o.ne)]
		}
		switch {
		case t.Op == "le0" && val && sign > 0:
			iv.hi = min64(iv.hi, -l.K)
		case t.Op == "le0" && val:
			iv.lo = max64(iv.lo, l.K)
		case t.Op == "le0" && sign > 0:
			iv.lo = max64(iv.lo, -l.K+1)
		case t.Op == "le0":
			iv.hi = min64(iv.hi, l.K-1)
		case val:
			v := -l.K * sign
			iv.lo, iv.hi = max64(iv.lo, v), min64(iv.hi, v)
		default:
			iv.ne = append(iv.ne, -l.K*sign)
		}
		tlo, thi := iv.lo, iv.hi
		blo, bhi := en.bounds(s, k, 1)
		if blo > tlo {
			tlo = blo
		}
		if bhi < thi {
			thi = bhi
		}
		// disequalities at the border tighten the interval
		for again := true; again; {
			again = false
			for _, n := range iv.ne {
				if n == tlo {
					tlo++
					again = true
				}
				if n == thi {
					thi--
					again = true
				}
			}
		}
		if tlo > thi {
			return false
		}
		iv.lo, iv.hi = tlo, thi
		s.ivs[k] = iv
	default:
		s.lits[t] = val
	}
	return true
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// SortedLits is for deterministic output.
func SortedLits(ls []*Lit) []string {
	var r []string
	for _, l := range ls {
		r = append(r, l.String())
	}
	sort.Strings(r)
	return r
}

// Preset sets the contents of a cell before a function is followed.
func (en *Engine) Preset(s *State, addr, v *Term) { s.mem[addr] = v }
