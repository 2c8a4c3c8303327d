package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C08"] = property{"error flow, function by function: on every path of every function (loops by a generic iteration, deferred calls and function literals included, calls kept as effects) the error result of each call is known to be nil where the function reports success; results nobody looks at, short writes and unchecked read counts are reported", rulesC08}
}

// neverFails lists calls documented not to fail, one reason each.
func neverFails(callee string) bool {
	switch {
	case strings.HasPrefix(callee, "(*bytes.Buffer).Write"): // err is always nil
		return true
	case strings.HasPrefix(callee, "(hash.Hash"):
		return true
	case strings.HasPrefix(callee, "(*strings.Builder).Write"): // likewise
		return true
	case strings.HasPrefix(callee, "fmt.Print"):
		return true
	}
	return false
}

func rulesC08(c *Check) {
	for _, fn := range c.W.Funcs {
		rel := c.W.rel(fn.Pkg.Pkg)
		if !strings.HasPrefix(rel, "orc") || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if fn.Name() == "String" && fn.Signature.Recv() != nil {
			continue // text for people
		}
		if !callsFailing(fn) {
			continue
		}
		errorsOf(c, fn)
	}
	c.atLeast("a failure is reported", 300)
	droppedErrors(c)
	readCounts(c)
}

func errorsOf(c *Check, fn *ssa.Function) {
	rule := "a failure is reported"
	en := c.W.newEngine()
	en.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil }
	s := c.run(en, rule, fn, nil, nil)
	ret := returnsError(fn)
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		var out *engine.Term
		state := no
		if ret {
			out = p.Ret[len(p.Ret)-1]
			state = failed(en, p)
		}
		deepPaths(p, func(q *engine.Path, lp *engine.Loop, k int) {
			for _, l := range loops(q.Events) {
				for _, ph := range l.Phis {
					if ph.Term.Typ == nil || !types.Identical(ph.Term.Typ, errType) || state == yes {
						continue
					}
					if v, known := en.Decide(q.St, isNil(en, ph.Term)); known && v {
						continue
					}
					made := false
					for i, nx := range ph.Next {
						if v, known := en.Decide(l.Iters[i].St, isNil(en, nx)); known && v {
							continue
						}
						made = made || nx.Find(func(t *engine.Term) bool { _, ok := t.Any.(*engine.Event); return ok }) != nil
					}
					if !made || out != nil && out.Contains(ph.Term) && lp == nil {
						continue
					}
					c.fail(rule, short(fn)+" after a loop", l.Pos, "the error carried out of a loop is not reported (%s)", lits(q))
				}
			}
		})
		deepPaths(p, func(q *engine.Path, lp *engine.Loop, k int) {
			for _, e := range q.Events {
				if e.Kind != "call" || neverFails(e.Callee) {
					continue
				}
				for _, r := range e.Res {
					if r.Typ == nil || !types.Identical(r.Typ, errType) {
						continue
					}
					con := short(fn) + " " + e.Name
					c.ob(rule, con)
					c.sites++
					if state == yes {
						continue
					}
					if v, known := en.Decide(q.St, isNil(en, r)); known && v {
						continue
					}
					if out != nil && out.Contains(r) && (lp == nil) {
						continue
					}
					if lp != nil {
						carried := false
						for _, ph := range lp.Phis {
							if k < len(ph.Next) && ph.Next[k] != nil && ph.Next[k].Contains(r) && kept(en, lp, ph) {
								carried = true
							}
						}
						if carried {
							continue
						}
					}
					if readClose(fn, e) || plainEnd(en, q, e, r) {
						continue
					}
					what := "success is reported"
					if lp != nil {
						what = "the loop goes on"
					} else if !ret {
						what = "the function returns"
					}
					c.fail(rule, con, e.Pos, "%s without regard to the error of %s (%s)", what, e.Name, lits(q))
				}
			}
		})
	}
}

// deepPaths visits a path and the iterations of its loops; k is the number of the iteration in lp.
func deepPaths(p *engine.Path, f func(q *engine.Path, lp *engine.Loop, k int)) {
	deepPaths1(p, nil, 0, f)
}

func deepPaths1(p *engine.Path, lp *engine.Loop, k int, f func(q *engine.Path, lp *engine.Loop, k int)) {
	f(p, lp, k)
	for _, e := range p.Events {
		if e.Kind == "loop" {
			for i, it := range e.Loop.Iters {
				deepPaths1(it, e.Loop, i, f)
			}
		}
	}
}

// kept tells that an error carried around a loop is not overwritten by a later iteration.
func kept(en *engine.Engine, lp *engine.Loop, ph *engine.LoopPhi) bool {
	for i, it := range lp.Iters {
		if ph.Next[i].Contains(ph.Term) {
			continue
		}
		if v, k := en.Decide(it.St, isNil(en, ph.Term)); !k || !v {
			return false
		}
	}
	return true
}

// readClose: closing what was only read has nothing to report, and no way to where the function has no result.
func readClose(fn *ssa.Function, e *engine.Event) bool {
	return e.Name == "Close" && fn.Signature.Results().Len() == 0
}

// plainEnd: io.Reader.Read tells the end of data by io.EOF along with the last of it; an inflater's
// Close repeats what its Read returned.
func plainEnd(en *engine.Engine, q *engine.Path, e *engine.Event, r *engine.Term) bool {
	if e.Name == "Close" && e.Recv != nil {
		if ev, ok := engine.StripIface(e.Recv).Any.(*engine.Event); ok && strings.HasSuffix(ev.Callee, "compress/flate.NewReader") {
			return true
		}
	}
	if e.Name != "Read" {
		return false
	}
	for _, l := range q.Lits {
		if !l.Val || l.Cond.Op != "eq" || len(l.Cond.Args) != 2 {
			continue
		}
		for i, a := range l.Cond.Args {
			b := l.Cond.Args[1-i]
			if a == r && b.Op == "load" && b.Args[0].Op == "global" && b.Args[0].Aux == "io.EOF" {
				return true
			}
		}
	}
	return false
}

// callsFailing tells that a function, or a literal in it, calls something with an error result.
func callsFailing(fn *ssa.Function) bool {
	for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				rs := ci.Common().Signature().Results()
				for i := 0; i < rs.Len(); i++ {
					if types.Identical(rs.At(i).Type(), errType) {
						return true
					}
				}
			}
		}
		if f != fn && callsFailing(f) {
			return true
		}
	}
	return false
}

// droppedErrors finds errors made but not used, which no path carries anywhere.
func droppedErrors(c *Check) {
	rule := "an error made is used"
	for _, fn := range c.W.Funcs {
		if !strings.HasPrefix(c.W.rel(fn.Pkg.Pkg), "orc") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				f := call.Call.StaticCallee()
				if f.Pkg == nil || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), errType) {
					continue
				}
				switch f.Pkg.Pkg.Path() {
				case "github.com/pkg/errors", "errors", "fmt":
				default:
					continue
				}
				c.ob(rule, short(fn))
				if call.Referrers() == nil || len(*call.Referrers()) == 0 {
					c.fail(rule, short(fn), call.Pos(), "an error is made here and dropped")
				}
			}
		}
	}
	c.atLeast(rule, 50)
}

// readCounts: io.Reader.Read may return less than asked for; its count must be looked at.
func readCounts(c *Check) {
	rule := "a read's count is looked at"
	for _, fn := range c.W.Funcs {
		if !strings.HasPrefix(c.W.rel(fn.Pkg.Pkg), "orc") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := ""
				if call.Call.IsInvoke() {
					name = call.Call.Method.Name()
				} else if f := call.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil {
					name = f.Name()
				}
				if name != "Read" {
					continue
				}
				tup, ok := call.Type().(*types.Tuple)
				if !ok || tup.Len() != 2 || !types.Identical(tup.At(1).Type(), errType) {
					continue
				}
				used := false
				for _, r := range *call.Referrers() {
					switch x := r.(type) {
					case *ssa.Extract:
						used = used || x.Index == 0 && len(*x.Referrers()) > 0
					default:
						used = true
					}
				}
				c.expect(used, rule, short(fn), call.Pos(), "the number of bytes read is not looked at: less than asked for may have been read")
			}
		}
	}
}
