// Package engine is a path-sensitive abstract interpreter over Go SSA.
//
// Values are abstracted to hash-consed provenance terms (where a value comes
// from: a parameter, a memory cell, a call result, a constant), branches to
// literals over those terms kept in an interval domain, loops to the set of
// their generic iterations, calls into the library to their body (inlined) and
// calls chosen by the rules to events. No code runs and no solver is involved:
// a branch is pruned only when the interval domain or an earlier literal on
// the same term decides it.
package engine

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is an interned provenance term.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Any  interface{} // function for closures, *Loop for iteration terms, event for results
	c    constant.Value
}

// Pool interns terms.
type Pool struct {
	m     map[string]*Term
	n     int
	fresh int
}

func NewPool() *Pool { return &Pool{m: map[string]*Term{}} }

func (p *Pool) Mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := p.m[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	p.n++
	t := &Term{ID: p.n, Op: op, Aux: aux, Args: args, Typ: typ}
	p.m[k] = t
	return t
}

func (p *Pool) Fresh(op, name string, typ types.Type) *Term {
	p.fresh++
	return p.Mk(op, fmt.Sprintf("%s#%d", name, p.fresh), typ)
}

func (p *Pool) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return p.Mk("nil", "", nil)
	}
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int && isInt(typ) {
			v = i
		}
	}
	t := p.Mk("const", v.ExactString(), typ)
	t.c = v
	return t
}

func (p *Pool) Int(i int64) *Term { return p.Const(constant.MakeInt64(i), types.Typ[types.Int]) }

func (p *Pool) Bool(b bool) *Term { return p.Const(constant.MakeBool(b), types.Typ[types.Bool]) }

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *Term) IsConst() bool { return t.Op == "const" }

func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.c != nil && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}

func (t *Term) BoolVal() (bool, bool) {
	if t.Op == "const" && t.c != nil && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

func (t *Term) StringVal() (string, bool) {
	if t.Op == "const" && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Find returns the first subterm satisfying f.
func (t *Term) Find(f func(*Term) bool) *Term {
	if f(t) {
		return t
	}
	for _, a := range t.Args {
		if r := a.Find(f); r != nil {
			return r
		}
	}
	return nil
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "param":
		return t.Aux
	case "field":
		return "&" + strings.TrimPrefix(t.Args[0].String(), "&") + "." + t.Aux
	case "fval":
		return t.Args[0].String() + "." + t.Aux
	case "elem":
		return "&" + strings.TrimPrefix(t.Args[0].String(), "&") + "[" + t.Args[1].String() + "]"
	case "load":
		s := t.Args[0].String()
		e := ""
		if t.Aux != "0" {
			e = "'" + t.Aux
		}
		if strings.HasPrefix(s, "&") {
			return s[1:] + e
		}
		return "*" + s + e
	case "lin":
		return "(" + t.Aux2() + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	if len(as) == 0 {
		return t.Op + ":" + t.Aux
	}
	if t.Aux == "" {
		return t.Op + "(" + strings.Join(as, ", ") + ")"
	}
	return t.Op + ":" + t.Aux + "(" + strings.Join(as, ", ") + ")"
}

// Aux2 renders a linear term.
func (t *Term) Aux2() string {
	ks := strings.Split(t.Aux, ",")
	var o []string
	for i, a := range t.Args {
		if ks[i] == "1" {
			o = append(o, a.String())
		} else {
			o = append(o, ks[i]+"*"+a.String())
		}
	}
	if k := ks[len(ks)-1]; k != "0" {
		o = append(o, k)
	}
	return strings.Join(o, " + ")
}

// Lin is a linear form sum(Coef[t]*t)+K.
type Lin struct {
	Coef map[*Term]int64
	K    int64
}

func (p *Pool) LinOf(t *Term) Lin {
	if v, ok := t.IntVal(); ok {
		return Lin{map[*Term]int64{}, v}
	}
	if t.Op == "lin" {
		l := Lin{map[*Term]int64{}, 0}
		ks := strings.Split(t.Aux, ",")
		for i, a := range t.Args {
			k, _ := strconv.ParseInt(ks[i], 10, 64)
			l.Coef[a] = k
		}
		l.K, _ = strconv.ParseInt(ks[len(ks)-1], 10, 64)
		return l
	}
	return Lin{map[*Term]int64{t: 1}, 0}
}

func (l Lin) add(m Lin, f int64) Lin {
	r := Lin{map[*Term]int64{}, l.K + f*m.K}
	for t, c := range l.Coef {
		r.Coef[t] = c
	}
	for t, c := range m.Coef {
		r.Coef[t] += f * c
		if r.Coef[t] == 0 {
			delete(r.Coef, t)
		}
	}
	return r
}

func (l Lin) terms() []*Term {
	ts := make([]*Term, 0, len(l.Coef))
	for t := range l.Coef {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func (p *Pool) FromLin(l Lin, typ types.Type) *Term {
	ts := l.terms()
	if len(ts) == 0 {
		return p.Const(constant.MakeInt64(l.K), typ)
	}
	if len(ts) == 1 && l.Coef[ts[0]] == 1 && l.K == 0 {
		return ts[0]
	}
	var ks []string
	for _, t := range ts {
		ks = append(ks, strconv.FormatInt(l.Coef[t], 10))
	}
	ks = append(ks, strconv.FormatInt(l.K, 10))
	return p.Mk("lin", strings.Join(ks, ","), typ, ts...)
}

// Add returns a+f*b in normal form.
func (p *Pool) Add(a, b *Term, f int64, typ types.Type) *Term {
	return p.FromLin(p.LinOf(a).add(p.LinOf(b), f), typ)
}

// Key returns the linear part with a canonical sign, the sign applied and the constant.
func (p *Pool) key(l Lin) (k *Term, sign int64) {
	ts := l.terms()
	if len(ts) == 0 {
		return nil, 1
	}
	sign = 1
	if l.Coef[ts[0]] < 0 {
		sign = -1
	}
	n := Lin{map[*Term]int64{}, 0}
	for t, c := range l.Coef {
		n.Coef[t] = sign * c
	}
	return p.FromLin(n, types.Typ[types.Int]), sign
}
