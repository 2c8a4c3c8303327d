package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

var errType = types.Universe.Lookup("error").Type()

// tri is a three-valued truth.
type tri int

const (
	no tri = iota
	yes
	maybe
)

// failed tells whether a path reports an error (or panics).
func failed(en *engine.Engine, p *engine.Path) tri {
	if p.Panic {
		return yes
	}
	e := errOf(p)
	if e == nil {
		return no
	}
	v, k := en.Decide(p.St, isNil(en, e))
	switch {
	case !k && sentinel(e):
		return yes
	case !k:
		return maybe
	case v:
		return no
	}
	return yes
}

// sentinel tells that an error is one of the library's fixed ones, io.EOF for instance.
func sentinel(e *engine.Term) bool {
	for e.Op == "wrap" {
		e = e.Args[0]
	}
	return e.Op == "load" && e.Args[0].Op == "global" && strings.HasPrefix(e.Args[0].Aux, "io.")
}

func errOf(p *engine.Path) *engine.Term {
	if len(p.Ret) == 0 {
		return nil
	}
	fn := p.Ret[len(p.Ret)-1]
	if fn.Typ != nil && !types.Identical(fn.Typ, errType) && fn.Op != "nil" && fn.Op != "wrap" && fn.Op != "newerr" && fn.Op != "iface" && fn.Op != "load" {
		return nil
	}
	return fn
}

func isNil(en *engine.Engine, t *engine.Term) *engine.Term {
	return en.P.Mk("isnil", "", types.Typ[types.Bool], t)
}

func returnsError(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), errType)
}

// good returns the paths which may report success.
func good(en *engine.Engine, fn *ssa.Function, s *engine.Summary) []*engine.Path {
	var r []*engine.Path
	for _, p := range s.Paths {
		if p.Panic {
			continue
		}
		if returnsError(fn) && failed(en, p) == yes {
			continue
		}
		r = append(r, p)
	}
	return r
}

// calls returns the calls of a path outside of its loops satisfying f.
func calls(evs []*engine.Event, f func(*engine.Event) bool) []*engine.Event {
	var r []*engine.Event
	for _, e := range evs {
		if e.Kind == "call" && (f == nil || f(e)) {
			r = append(r, e)
		}
	}
	return r
}

func loops(evs []*engine.Event) []*engine.Loop {
	var r []*engine.Loop
	for _, e := range evs {
		if e.Kind == "loop" {
			r = append(r, e.Loop)
		}
	}
	return r
}

// deep visits the events of a path and of the iterations of its loops.
func deep(evs []*engine.Event, f func(e *engine.Event, in *engine.Loop)) { deep1(evs, nil, f) }

func deep1(evs []*engine.Event, in *engine.Loop, f func(e *engine.Event, in *engine.Loop)) {
	for _, e := range evs {
		f(e, in)
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				deep1(it.Events, e.Loop, f)
			}
		}
	}
}

func stripConv(t *engine.Term) *engine.Term {
	for t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// fullLoop tells whether lp visits 0,1,..,n-1 in order and leaves on path exit only after the last;
// it returns the index of an iteration.
func fullLoop(en *engine.Engine, lp *engine.Loop, exit *engine.Path, n *engine.Term) *engine.Term {
	for _, ph := range lp.Phis {
		c0, ok := ph.Init.IntVal()
		if !ok || len(ph.Next) == 0 {
			continue
		}
		step := true
		for _, nx := range ph.Next {
			if nx != en.P.Add(ph.Term, en.P.Int(1), 1, ph.Term.Typ) {
				step = false
			}
		}
		if !step {
			continue
		}
		idx := en.P.Add(ph.Term, en.P.Int(c0), -1, ph.Term.Typ)
		if guarded(en, lp, exit, en.Le(n, idx)) {
			return idx
		}
	}
	return nil
}

// guarded tells that stop is false in every iteration and true on leaving.
func guarded(en *engine.Engine, lp *engine.Loop, exit *engine.Path, stop *engine.Term) bool {
	for _, it := range lp.Iters {
		if v, k := en.Decide(it.St, stop); !k || v {
			return false
		}
	}
	v, k := en.Decide(exit.St, stop)
	return k && v
}

// times tells whether lp makes exactly n iterations, in whatever order it counts.
func times(en *engine.Engine, lp *engine.Loop, exit *engine.Path, n *engine.Term) bool {
	if fullLoop(en, lp, exit, n) != nil {
		return true
	}
	for _, ph := range lp.Phis {
		if stripConv(ph.Init) != stripConv(n) || len(ph.Next) == 0 {
			continue
		}
		step := true
		for _, nx := range ph.Next {
			if nx != en.P.Add(ph.Term, en.P.Int(1), -1, ph.Term.Typ) {
				step = false
			}
		}
		if step && (guarded(en, lp, exit, en.Le(ph.Term, en.P.Int(0))) || guarded(en, lp, exit, en.Eq(ph.Term, en.P.Int(0)))) {
			return true
		}
	}
	return false
}

// fieldIndex finds a possibly promoted field of a struct type by a predicate; breadth first.
func fieldIndex(t types.Type, f func(v *types.Var) bool) []int {
	type item struct {
		t    types.Type
		path []int
	}
	queue := []item{{t, nil}}
	for depth := 0; len(queue) > 0 && depth < 200; depth++ {
		it := queue[0]
		queue = queue[1:]
		tt := it.t
		if p, ok := tt.Underlying().(*types.Pointer); ok {
			tt = p.Elem()
		}
		st, ok := tt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if f(st.Field(i)) {
				return append(append([]int{}, it.path...), i)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				queue = append(queue, item{st.Field(i).Type(), append(append([]int{}, it.path...), i)})
			}
		}
	}
	return nil
}

// allFields lists the fields of a struct, those of embedded structs included.
func allFields(t types.Type, f func(path []int, v *types.Var)) { allFields1(t, nil, f, 0) }

func allFields1(t types.Type, pre []int, f func(path []int, v *types.Var), depth int) {
	if depth > 5 {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		path := append(append([]int{}, pre...), i)
		f(path, st.Field(i))
		if st.Field(i).Embedded() {
			allFields1(st.Field(i).Type(), path, f, depth+1)
		}
	}
}

// addrOf is the address of the field at an index path below a pointer to t.
func addrOf(en *engine.Engine, ptr *engine.Term, t types.Type, path []int) (*engine.Term, types.Type) {
	return addrIn(en, nil, ptr, t, path)
}

// addrIn is addrOf with pointers on the way read in the state of a path.
func addrIn(en *engine.Engine, p *engine.Path, ptr *engine.Term, t types.Type, path []int) (*engine.Term, types.Type) {
	cur := ptr
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	for i, k := range path {
		st := t.Underlying().(*types.Struct)
		cur = en.FieldAddr(cur, st, k)
		t = st.Field(k).Type()
		if i < len(path)-1 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if p != nil {
					cur = en.Load(p.St, cur, t)
				} else {
					cur = en.P.Mk("load", "0", t, cur)
				}
				t = pt.Elem()
			}
		}
	}
	return cur, t
}

// field returns the initial contents of a field found by name (promoted ones included).
func fieldTerm(en *engine.Engine, ptr *engine.Term, t types.Type, f func(v *types.Var) bool) *engine.Term {
	path := fieldIndex(t, f)
	if path == nil {
		return nil
	}
	a, ft := addrOf(en, ptr, t, path)
	return en.P.Mk("load", "0", ft, a)
}

func named(n string) func(v *types.Var) bool { return func(v *types.Var) bool { return v.Name() == n } }

// ofType finds a field by the qualified name of its (pointed to) type.
func ofType(n string) func(v *types.Var) bool {
	return func(v *types.Var) bool { return typeIs(v.Type(), n) }
}

func typeIs(t types.Type, n string) bool {
	s := types.TypeString(t, nil)
	return strings.TrimPrefix(s, "*") == modPath+"/"+n
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// eqConst returns the value a term is known to have on a path.
func eqConst(en *engine.Engine, p *engine.Path, t *engine.Term) (int64, bool) {
	lo, hi := en.TermBounds(p.St, t)
	return lo, lo == hi
}

func fnPos(fn *ssa.Function) token.Pos {
	if fn == nil {
		return token.NoPos
	}
	return fn.Pos()
}

// consts returns the named constants of a type in a package, by value.
func (w *World) consts(pkg, typ string) map[int64]string {
	r := map[int64]string{}
	p := w.Pkgs[pkg]
	if p == nil {
		return r
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok {
			if nt, ok := k.Type().(*types.Named); ok && nt.Obj().Name() == typ {
				var v int64
				if x, err := parseInt(k.Val().ExactString()); err == nil {
					v = x
				}
				r[v] = strings.TrimPrefix(n, typ[:strings.LastIndex(typ, "_")+1])
			}
		}
	}
	return r
}

// base is the object an address or value is reached from, through pointers.
func base(t *engine.Term) *engine.Term {
	for {
		switch t.Op {
		case "field", "elem", "sl", "load", "iface", "conv", "fval":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// knownTrue tells that a condition is known to hold.
func knownTrue(en *engine.Engine, st *engine.State, cond *engine.Term) bool {
	v, k := en.Decide(st, cond)
	return k && v
}

// later is the value of a term at a later state: loads are done again, and given terms replaced.
func later(en *engine.Engine, st *engine.State, t *engine.Term, next map[*engine.Term]*engine.Term) *engine.Term {
	if n, ok := next[t]; ok {
		return n
	}
	switch t.Op {
	case "const", "iter", "param", "res", "alloc":
		return t
	case "lin":
		l := en.P.LinOf(t)
		r := en.P.Int(l.K)
		for x, k := range l.Coef {
			r = en.P.Add(r, later(en, st, x, next), k, nil)
		}
		return r
	case "len":
		return en.Len(later(en, st, t.Args[0], next))
	case "load":
		return en.Load(st, later(en, st, t.Args[0], next), t.Typ)
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*engine.Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = later(en, st, a, next)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return en.P.Mk(t.Op, t.Aux, t.Typ, args...)
}
