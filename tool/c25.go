package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C25"] = property{"ranking analysis of every loop over go/ssa path summaries: for each loop a lexicographic order of measures, taken from the conditions under which it goes on and from input consumed, of which one falls on every iteration and none rises before; functions calling themselves descend to parts of their argument or to smaller numbers", rulesC25}
}

const (
	ruleEnds    = "a loop comes to an end"
	ruleDescend = "a function calling itself descends"
)

func rulesC25(c *Check) {
	w := c.W
	g := w.callGraph()
	var roots []*ssa.Function
	for _, fn := range w.Funcs {
		if p := w.rel(fn.Pkg.Pkg); (p == "orc" || p == "orc/api") && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
		}
	}
	used := g.reach(roots)
	n := 0
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(w.rel(fn.Pkg.Pkg), "orc") || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if _, ok := used[fn]; !ok {
			continue
		}
		n++
		if hasLoop(fn) {
			endsOf(c, fn)
		}
		descends(c, fn)
	}
	c.expect(n > 150, ruleEnds, "functions", token.NoPos, "only %d functions are used", n)
	c.atLeast(ruleEnds, 40)
}

// hasLoop tells that a function or one inside it has a loop.
func hasLoop(fn *ssa.Function) bool {
	for _, f := range fn.AnonFuncs {
		if hasLoop(f) {
			return true
		}
	}
	return loopsOf(fn)
}

// loopsOf tells that a function has a loop.
func loopsOf(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// calledBy are the functions called by a function by name.
func calledBy(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && !seen[g] {
					seen[g] = true
					r = append(r, g)
				}
			}
		}
	}
	return r
}

// endsOf finds reasons for which the loops of a function come to an end. It is enough to find them with
// one way of following the calls.
func endsOf(c *Check, fn *ssa.Function) {
	ways := []func(en *engine.Engine){
		func(en *engine.Engine) {
			en.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil && (f.Pkg != fn.Pkg || hasLoop(f)) }
		},
		func(en *engine.Engine) {
			en.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil && f.Pkg != fn.Pkg }
		},
		func(en *engine.Engine) {
			en.NoUnroll = true
			en.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil }
		},
	}
	// following one function with a loop of its own at a time
	for _, g := range calledBy(fn) {
		if g := g; g.Pkg == fn.Pkg && g != fn && hasLoop(g) {
			ways = append(ways, func(en *engine.Engine) {
				en.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil && (f.Pkg != fn.Pkg || f != g && hasLoop(f)) }
			})
		}
	}
	bad := map[token.Pos]string{}
	good := map[token.Pos]bool{}
	followed := false
	for _, way := range ways {
		en := c.W.newEngine()
		way(en)
		s := en.Run(fn, nil, nil)
		if !s.Complete || len(s.Problems) > 0 {
			continue
		}
		followed = true
		c.paths += len(s.Paths)
		c.funcs[fn.String()] = true
		for f := range en.Inlined() {
			c.funcs[f.String()] = true
		}
		now := map[token.Pos]string{}
		seen := map[token.Pos]bool{}
		done := map[*engine.Loop]bool{}
		var visit func(evs []*engine.Event, around []*engine.Loop)
		visit = func(evs []*engine.Event, around []*engine.Loop) {
			for _, e := range evs {
				if e.Kind != "loop" || done[e.Loop] {
					continue
				}
				done[e.Loop] = true
				in := append(around[:len(around):len(around)], e.Loop)
				for _, it := range e.Loop.Iters {
					visit(it.Events, in)
				}
				if e.Loop.Fn != fn.String() && !strings.HasPrefix(e.Loop.Fn, fn.String()+"$") {
					continue
				}
				seen[e.Loop.Pos] = true
				if now[e.Loop.Pos] == "" {
					r := &ranking{w: c.W, en: en, lp: e.Loop, in: in}
					if why := r.missing(); why != "" {
						now[e.Loop.Pos] = why
					}
				}
			}
		}
		for _, p := range s.Paths {
			visit(p.Events, nil)
		}
		again := false
		for pos := range seen {
			if now[pos] == "" {
				good[pos] = true
			} else if bad[pos] == "" {
				bad[pos] = now[pos]
			}
		}
		for pos := range bad {
			again = again || !good[pos]
		}
		if !again {
			break
		}
	}
	con := short(fn)
	if !c.expect(followed, ruleEnds, con, fn.Pos(), "%s cannot be followed", con) {
		return
	}
	var all []token.Pos
	for pos := range good {
		all = append(all, pos)
	}
	for pos := range bad {
		if !good[pos] {
			all = append(all, pos)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, pos := range all {
		c.ob(ruleEnds, con)
		if !good[pos] {
			c.fail(ruleEnds, con, pos, "a loop of %s may not come to an end: nothing is known to run out when %s", con, bad[pos])
		}
	}
}

// ranking looks for what runs out in a loop.
type ranking struct {
	w  *World
	en *engine.Engine
	lp *engine.Loop
	in []*engine.Loop // the loop and those around it
	st []*engine.State
}

// missing finds for all iterations of a loop measures which fall, lexicographically, and returns when there is none.
func (r *ranking) missing() string {
	en, lp := r.en, r.lp
	left := map[int]bool{}
	r.st = make([]*engine.State, len(lp.Iters))
	for i, it := range lp.Iters {
		if r.st[i] = r.facts(it); r.st[i] != nil {
			left[i] = true
		}
	}
	for len(left) > 0 {
		falls := map[int]bool{}
		for _, m := range r.measures(left) {
			ok, down := true, map[int]bool{}
			for i := range left {
				switch r.change(i, m) {
				case up:
					ok = false
				case fallen:
					down[i] = true
				}
				if !ok {
					break
				}
			}
			if ok && len(down) > 0 {
				falls = down
				break
			}
		}
		if len(falls) == 0 {
			for i := range left {
				if consumes(en, lp.Iters[i]) || ranges(lp.Iters[i]) || r.works(i, left) {
					falls[i] = true
				}
			}
		}
		if len(falls) == 0 {
			for i := range lp.Iters {
				if left[i] {
					return lits(lp.Iters[i])
				}
			}
		}
		for i := range falls {
			delete(left, i)
		}
	}
	return ""
}

// facts adds to the state of an iteration what holds for variables of loops because of where they start and how they change.
func (r *ranking) facts(it *engine.Path) *engine.State {
	en := r.en
	st := it.St.Fork()
	var loops []*engine.Loop
	var collect func(evs []*engine.Event)
	collect = func(evs []*engine.Event) {
		for _, e := range evs {
			if e.Kind == "loop" {
				loops = append(loops, e.Loop)
				for _, i := range e.Loop.Iters {
					collect(i.Events)
				}
			}
		}
	}
	loops = append(loops, r.in...)
	collect(it.Events)
	// a writer which does not fail has written everything
	for _, e := range it.Events {
		if e.Kind == "call" && (e.Name == "Write" || e.Name == "WriteString") && len(e.Args) == 1 && len(e.Res) == 2 {
			if v, known := en.Decide(st, isNil(en, e.Res[1])); known && v && !en.Assume(st, en.Eq(e.Res[0], en.Len(e.Args[0])), true, r.lp.Pos) {
				return nil
			}
		}
	}
	for _, l := range loops {
		for _, ph := range l.Phis {
			if b, ok := basicOf(ph.Term.Typ); !ok || b.Info()&types.IsInteger == 0 || ph.Init == nil {
				continue
			}
			rises, sinks := true, true
			for i, n := range ph.Next {
				if n == nil {
					rises, sinks = false, false
					break
				}
				lo, hi := en.TermBounds(l.Iters[i].St, en.P.Add(linear(en, l.Iters[i], n), ph.Term, -1, nil))
				rises, sinks = rises && lo >= 0, sinks && hi <= 0
			}
			if rises && !en.Assume(st, en.Le(ph.Init, ph.Term), true, r.lp.Pos) {
				return nil
			}
			if sinks && !en.Assume(st, en.Le(ph.Term, ph.Init), true, r.lp.Pos) {
				return nil
			}
		}
	}
	return st
}

// measures are numbers which are not negative in all the given iterations.
func (r *ranking) measures(left map[int]bool) []*engine.Term {
	en := r.en
	var all []*engine.Term
	seen := map[*engine.Term]int{}
	always := map[*engine.Term]bool{}
	for i := range r.lp.Iters {
		if !left[i] {
			continue
		}
		mine := map[*engine.Term]bool{}
		add := func(m *engine.Term) {
			if !mine[m] {
				mine[m] = true
				seen[m]++
				if seen[m] == 1 {
					all = append(all, m)
				}
			}
		}
		for _, l := range r.lp.Iters[i].Lits {
			sizes(l.Cond, always)
			if len(l.Cond.Args) != 1 || l.Cond.Op != "le0" && l.Cond.Op != "eq0" {
				continue
			}
			x := l.Cond.Args[0]
			neg := en.P.Add(en.P.Int(0), x, -1, nil)
			switch {
			case l.Cond.Op == "le0" && l.Val:
				add(neg)
			case l.Cond.Op == "le0":
				add(x)
			case !l.Val:
				if lo, _ := en.TermBounds(r.st[i], x); lo >= 0 {
					add(x)
				} else if _, hi := en.TermBounds(r.st[i], x); hi <= 0 {
					add(neg)
				}
			}
		}
	}
	var out []*engine.Term
	for m := range always {
		if seen[m] < len(left) {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	for _, m := range all {
		if seen[m] == len(left) {
			out = append(out, m)
		}
	}
	return out
}

// sizes collects the lengths in a term, which are never negative.
func sizes(t *engine.Term, to map[*engine.Term]bool) {
	if t.Op == "len" {
		to[t] = true
	}
	for _, a := range t.Args {
		sizes(a, to)
	}
}

const (
	up = iota
	level
	fallen
)

// works tells that an iteration takes an item off a list of things to do, adding no more than parts of it.
func (r *ranking) works(i int, left map[int]bool) bool {
	for _, ph := range r.lp.Phis {
		if ph.Term.Typ == nil {
			continue
		}
		if _, ok := ph.Term.Typ.Underlying().(*types.Slice); !ok || i >= len(ph.Next) {
			continue
		}
		ok := true
		for j := range left {
			if ph.Next[j] != ph.Term {
				ok = ok && r.fewer(j, ph.Next[j], ph.Term, 0)
			}
		}
		if ok && ph.Next[i] != ph.Term {
			return true
		}
	}
	return false
}

// fewer tells that a list is another without its first or its last item, and with parts of that item.
func (r *ranking) fewer(i int, t, todo *engine.Term, depth int) bool {
	en := r.en
	first, last := en.P.Int(0), en.P.Add(en.Len(todo), en.P.Int(1), -1, nil)
	for _, at := range []*engine.Term{first, last} {
		taken := func(x *engine.Term) bool {
			found := x.Find(func(y *engine.Term) bool {
				return len(y.Args) == 2 && y.Args[0] == todo && y.Args[1] == at && y != x && y.Op != "sl"
			})
			if found == nil {
				return false
			}
			n, ok := partsOf(x, found, 0)
			return ok && n > 0
		}
		var rest func(t, self *engine.Term, depth int) bool
		rest = func(t, self *engine.Term, depth int) bool {
			if t == self {
				return true
			}
			if l, is := t.Any.(*engine.Loop); is && t.Op == "iter" && depth < 4 {
				ph := phiOf(l, t)
				if ph == nil {
					return false
				}
				for _, nx := range ph.Next {
					if nx == nil || !rest(nx, t, depth+1) {
						return false
					}
				}
				return rest(ph.Init, self, depth+1)
			}
			switch {
			case t.Op == "sl" && len(t.Args) == 3 && t.Args[0] == todo:
				lo, hi := t.Args[1], t.Args[2]
				whole := func(x, end *engine.Term) bool { return x == end || x.Op == "nil" }
				if at == first {
					return lo == en.P.Int(1) && whole(hi, en.Len(todo))
				}
				return whole(lo, first) && hi == last
			case t.Op == "seq" && len(t.Args) > 0:
				for k, a := range t.Args {
					if len(a.Args) != 1 || k == 0 && (a.Op != "s" || !rest(a.Args[0], self, depth+1)) || k > 0 && !taken(a.Args[0]) {
						return false
					}
				}
				return true
			}
			return false
		}
		if rest(t, nil, 0) {
			return true
		}
	}
	return false
}

// change tells how a measure changes in an iteration.
func (r *ranking) change(i int, m *engine.Term) int {
	en, it, st := r.en, r.lp.Iters[i], r.st[i]
	next := map[*engine.Term]*engine.Term{}
	for _, ph := range r.lp.Phis {
		if i < len(ph.Next) && ph.Next[i] != nil {
			next[ph.Term] = linear(en, it, ph.Next[i])
		}
	}
	after := later(en, it.St, m, next)
	if after == m {
		return level
	}
	lo, _ := en.TermBounds(st, m)
	_, end := en.TermBounds(st, after)
	if end < lo {
		return fallen
	}
	// shifted or divided down
	if after.Op == "bin" && len(after.Args) == 2 && after.Args[0] == m && lo > 0 {
		by, _ := en.TermBounds(st, after.Args[1])
		if after.Aux == ">>" && by >= 1 || after.Aux == "/" && by >= 2 {
			return fallen
		}
	}
	d := en.P.Add(after, m, -1, nil)
	st = st.Fork()
	for x := range en.P.LinOf(d).Coef {
		if notNegative(en, st, x) {
			en.Assume(st, en.Le(en.P.Int(0), x), true, r.lp.Pos)
		}
	}
	if _, hi := en.TermBounds(st, d); hi < 0 {
		return fallen
	} else if hi == 0 {
		return level
	}
	return up
}

// notNegative tells that an expression of bit operations cannot be negative.
func notNegative(en *engine.Engine, st *engine.State, t *engine.Term) bool {
	if lo, _ := en.TermBounds(st, t); lo >= 0 {
		return true
	}
	if len(t.Args) != 2 {
		return false
	}
	if t.Op != "bin" {
		return false
	}
	switch t.Aux {
	case "|", ">>", "<<", "^":
		return notNegative(en, st, t.Args[0]) && notNegative(en, st, t.Args[1])
	case "&":
		return notNegative(en, st, t.Args[0]) || notNegative(en, st, t.Args[1])
	}
	return false
}

// linear is a sum in a type in which it cannot overflow, given what is known.
func linear(en *engine.Engine, p *engine.Path, t *engine.Term) *engine.Term {
	if t.Op != "bin" || t.Aux != "+" || len(t.Args) != 2 {
		return t
	}
	x, k := t.Args[0], t.Args[1]
	if x.IsConst() {
		x, k = k, x
	}
	n, ok := k.IntVal()
	if !ok || n != 1 || x.Typ == nil {
		return t
	}
	width, _ := widthOf(x.Typ)
	for _, l := range p.Lits {
		if l.Cond.Op != "le0" || len(l.Cond.Args) != 1 {
			continue
		}
		// less than another of its type
		d := l.Cond.Args[0]
		if !l.Val { // d >= 1
			d = en.P.Add(en.P.Int(1), d, -1, nil)
		}
		lin := en.P.LinOf(d)
		if lin.Coef[x] != 1 || lin.K < 1 || len(lin.Coef) > 2 {
			continue
		}
		for o, k := range lin.Coef {
			if o == x {
				continue
			}
			if o.Typ != nil {
				if b, ok := basicOf(o.Typ); ok && k == -1 && b.Info()&types.IsInteger != 0 {
					if ow, _ := widthOf(o.Typ); ow <= width {
						return en.P.Add(x, en.P.Int(1), 1, nil)
					}
				}
			}
		}
	}
	return t
}

// ranges tells that an iteration takes an element of a map or text.
func ranges(p *engine.Path) bool {
	for _, l := range p.Lits {
		if l.Val && l.Cond.Op == "next:ok" || l.Val && strings.HasPrefix(l.Cond.String(), "next:ok") {
			return true
		}
	}
	return false
}

// consumes tells that something is taken from an input, or handed out by a stream, on a path.
func consumes(en *engine.Engine, p *engine.Path) bool {
	for _, e := range p.Events {
		if e.Kind != "call" || len(e.Res) == 0 {
			continue
		}
		out := e.Res[len(e.Res)-1]
		if out.Typ == nil || !types.Identical(out.Typ, errType) {
			continue
		}
		if v, known := en.Decide(p.St, isNil(en, out)); !known || !v {
			continue
		}
		switch {
		case e.Name == "ReadByte" || e.Name == "ReadVarint" || e.Name == "ReadUvarint":
			return true
		case e.Name == "ReadFull" && len(e.Args) == 2:
			if lo, _ := en.TermBounds(p.St, en.Len(e.Args[1])); lo > 0 {
				return true
			}
		case strings.HasPrefix(e.Name, "Next") && len(e.Args) == 0 && e.Recv != nil:
			return true // a value of a stream
		case strings.HasPrefix(e.Name, "Next") && e.Recv != nil && rowsLeft(en, p):
			return true // rows, as long as there are some
		}
	}
	return false
}

// rowsLeft tells that an iteration goes on only if there are more rows than those handed out so far, and room for them.
func rowsLeft(en *engine.Engine, p *engine.Path) bool {
	rows, space := false, false
	for _, l := range p.Lits {
		if len(l.Cond.Args) != 1 || l.Cond.Op != "le0" && l.Cond.Op != "eq0" {
			continue
		}
		lin := en.P.LinOf(l.Cond.Args[0])
		for _, sign := range []int64{1, -1} {
			if l.Cond.Op == "le0" && l.Val == (sign > 0) {
				continue
			}
			handed, limit, room := false, false, false
			var held, most []*engine.Term
			for x, k := range lin.Coef {
				switch {
				case x.Find(func(t *engine.Term) bool { return t.Op == "cap" || t.Op == "res" && strings.HasPrefix(t.Aux, "Cap") }) != nil:
					room, most = true, append(most, x)
				case x.Op == "len" || x.Op == "res" && strings.HasPrefix(x.Aux, "Len"):
					handed, held = handed || k*sign == -1, append(held, x)
				case x.Op == "load" || x.Op == "iter":
					limit = limit || k*sign == 1
				}
			}
			rows = rows || handed && limit && !room && (l.Cond.Op == "le0" || !l.Val)
			for _, h := range held {
				for _, m := range most {
					v, known := en.Decide(p.St, en.Le(en.P.Add(h, en.P.Int(1), 1, nil), m))
					space = space || known && v
				}
			}
		}
	}
	return rows && space
}

// descends checks that a function calling itself does so for a part of what it was called for, or for a smaller number.
func descends(c *Check, fn *ssa.Function) {
	sites := 0
	var inside func(f *ssa.Function)
	inside = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					sites++
				}
			}
		}
		for _, a := range f.AnonFuncs {
			inside(a)
		}
	}
	inside(fn)
	if sites == 0 {
		return
	}
	con := short(fn)
	var en *engine.Engine
	var s *engine.Summary
	for _, none := range []bool{false, true} {
		en = c.W.newEngine()
		en.NoUnroll = true
		en.Opaque = func(f *ssa.Function) bool {
			return f.Parent() == nil && (none || f == fn || f.Pkg != fn.Pkg || hasLoop(f))
		}
		if s = en.Run(fn, nil, nil); s.Complete && len(s.Problems) == 0 {
			break
		}
	}
	if !c.expect(s.Complete && len(s.Problems) == 0, ruleDescend, con, fn.Pos(), "%s cannot be followed", con) {
		return
	}
	c.funcs[fn.String()] = true
	c.paths += len(s.Paths)
	found := map[token.Pos]bool{}
	bad := map[token.Pos]bool{}
	var visit func(p *engine.Path)
	visit = func(p *engine.Path) {
		for _, e := range p.Events {
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					visit(it)
				}
			}
			if e.Kind != "call" || e.Callee != fn.String() {
				continue
			}
			if !found[e.Pos] {
				found[e.Pos] = true
				c.ob(ruleDescend, con)
			}
			args := e.Args
			if fn.Signature.Recv() != nil && e.Recv != nil {
				args = append([]*engine.Term{e.Recv}, args...)
			}
			ok := false
			for i, a := range args {
				if i < len(fn.Params) {
					ok = ok || below(en, p, a, en.P.Mk("param", fn.Params[i].Name(), fn.Params[i].Type()))
				}
			}
			if !ok && !bad[e.Pos] {
				bad[e.Pos] = true
				c.fail(ruleDescend, con, e.Pos, "%s calls itself with nothing smaller: %s [%s]", con, e, lits(p))
			}
		}
	}
	for _, p := range s.Paths {
		visit(p)
	}
}

// below tells that a value is a part of another, or a smaller number which is not negative.
func below(en *engine.Engine, p *engine.Path, a, of *engine.Term) bool {
	if a == of {
		return false
	}
	if b, ok := basicOf(of.Typ); ok {
		if b.Info()&types.IsInteger == 0 {
			return false
		}
		lo, _ := en.TermBounds(p.St, a)
		_, hi := en.TermBounds(p.St, en.P.Add(a, of, -1, nil))
		return lo >= 0 && hi < 0
	}
	parts, ok := partsOf(a, of, 0)
	return ok && parts > 0
}

// partsOf tells that a value is within another, and how many steps into it.
func partsOf(a, of *engine.Term, depth int) (parts int, ok bool) {
	for a != of {
		if l, is := a.Any.(*engine.Loop); is && a.Op == "iter" && depth < 4 {
			ph := phiOf(l, a)
			if ph == nil {
				return 0, false
			}
			for _, nx := range ph.Next {
				_, in := partsOf(nx, a, depth+1)
				if _, whole := partsOf(nx, of, depth+1); !in && !whole {
					return 0, false
				}
			}
			n, ok := partsOf(ph.Init, of, depth+1)
			return parts + n, ok
		}
		if len(a.Args) == 0 {
			return 0, false
		}
		switch a.Op {
		case "load", "fval", "elem":
			parts++
		}
		a = a.Args[0]
	}
	return parts, true
}
