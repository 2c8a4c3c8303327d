package main

import (
	"go/types"

	"goorcvet/engine"
)

// Where the bits of a value come from: each is 0, 1 or one bit of a term that is not taken apart.

type bit struct {
	k int8 // 0, 1, or 2 for a bit of a term
	t *engine.Term
	i int
}

type bits [64]bit

// bitView takes values apart.
type bitView struct {
	en *engine.Engine
	// env replaces terms by known bits
	env map[*engine.Term]bits
	// below tells a number of bits which hold a term without its sign, 64 if there is no bound
	below func(t *engine.Term) int
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// widthOf is the number of bits of an integer type and whether it is signed.
func widthOf(t types.Type) (int, bool) {
	b, ok := basicOf(t)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func constBits(v int64) (r bits) {
	for i := 0; i < 64; i++ {
		r[i].k = int8(uint64(v) >> uint(i) & 1)
	}
	return
}

func (b bits) value() (int64, bool) {
	var v uint64
	for i := 0; i < 64; i++ {
		if b[i].k == 2 {
			return 0, false
		}
		v |= uint64(b[i].k) << uint(i)
	}
	return int64(v), true
}

func (b bits) shift(n int, arith bool) (r bits) {
	for i := range r {
		j := i - n
		switch {
		case j < 0:
		case j < 64:
			r[i] = b[j]
		case arith:
			r[i] = b[63]
		}
	}
	return
}

// cut narrows to a type and widens back.
func (b bits) cut(w int, signed bool) bits {
	for i := w; i < 64; i++ {
		if signed {
			b[i] = b[w-1]
		} else {
			b[i] = bit{}
		}
	}
	return b
}

// or joins values without common bits.
func (b bits) or(c bits) (r bits, ok bool) {
	for i := range r {
		switch {
		case b[i].k == 0:
			r[i] = c[i]
		case c[i].k == 0 || c[i] == b[i]:
			r[i] = b[i]
		case b[i].k == 1 || c[i].k == 1:
			r[i] = bit{k: 1}
		default:
			return r, false
		}
	}
	return r, true
}

func (b bits) disjoint(c bits) bool {
	for i := range b {
		if b[i].k != 0 && c[i].k != 0 {
			return false
		}
	}
	return true
}

func (b bits) and(c bits) (r bits, ok bool) {
	for i := range r {
		switch {
		case b[i].k == 0 || c[i].k == 0:
		case b[i].k == 1:
			r[i] = c[i]
		case c[i].k == 1 || c[i] == b[i]:
			r[i] = b[i]
		default:
			return r, false
		}
	}
	return r, true
}

func pow2(v int64) (int, bool) {
	for i := 0; i < 63; i++ {
		if v == 1<<uint(i) {
			return i, true
		}
	}
	return 0, false
}

func (v *bitView) whole(t *engine.Term) (r bits) {
	w, signed := widthOf(t.Typ)
	for i := range r {
		r[i] = bit{2, t, i}
	}
	r = r.cut(w, signed)
	if v.below != nil {
		if n := v.below(t); n < 64 {
			r = r.cut(n, false)
		}
	}
	return
}

func (v *bitView) of(t *engine.Term) bits {
	if b, ok := v.env[t]; ok {
		return b
	}
	if n, ok := t.IntVal(); ok {
		return constBits(n)
	}
	switch t.Op {
	case "lin":
		l := v.en.P.LinOf(t)
		r := constBits(l.K)
		ok := l.K >= 0
		for x, c := range l.Coef {
			n, p := pow2(c)
			if !p || !ok {
				ok = false
				break
			}
			b := v.of(x).shift(n, false)
			if !b.disjoint(r) {
				ok = false
				break
			}
			r, ok = r.or(b)
		}
		if ok {
			return r
		}
	case "conv":
		x := v.of(t.Args[0])
		w, s := widthOf(t.Typ)
		return x.cut(w, s)
	case "bin":
		if len(t.Args) != 2 {
			break
		}
		x, y := v.of(t.Args[0]), v.of(t.Args[1])
		w, s := widthOf(t.Typ)
		n, k := y.value()
		switch t.Aux {
		case "|", "^", "+":
			if t.Aux != "|" && !x.disjoint(y) {
				break
			}
			if r, ok := x.or(y); ok {
				return r
			}
		case "&":
			if r, ok := x.and(y); ok {
				return r
			}
		case "&^":
			if k {
				r, _ := x.and(constBits(^n))
				return r
			}
		case "<<":
			if k && n >= 0 {
				if n > 64 {
					n = 64
				}
				return x.shift(int(n), false).cut(w, s)
			}
		case ">>":
			if k && n >= 0 {
				if n > 64 {
					n = 64
				}
				return x.shift(-int(n), s)
			}
		case "*":
			if !k {
				x = y
				n, k = v.of(t.Args[0]).value()
			}
			if m, p := pow2(n); k && p {
				return x.shift(m, false).cut(w, s)
			}
		case "/":
			if m, p := pow2(n); k && p && x[63].k == 0 {
				return x.shift(-m, true)
			}
		case "%":
			if m, p := pow2(n); k && p && x[63].k == 0 {
				return x.cut(m, false)
			}
		}
	}
	return v.whole(t)
}

// truth evaluates a condition which depends on known bits only.
func (v *bitView) truth(c *engine.Term) tri {
	if b, ok := c.BoolVal(); ok {
		if b {
			return yes
		}
		return no
	}
	num := func(t *engine.Term) (int64, bool) {
		l := v.en.P.LinOf(t)
		s := l.K
		for x, k := range l.Coef {
			n, ok := v.of(x).value()
			if !ok {
				return 0, false
			}
			s += k * n
		}
		return s, true
	}
	is := func(b bool) tri {
		if b {
			return yes
		}
		return no
	}
	switch c.Op {
	case "not":
		switch v.truth(c.Args[0]) {
		case yes:
			return no
		case no:
			return yes
		}
	case "le0":
		if n, ok := num(c.Args[0]); ok {
			return is(n <= 0)
		}
	case "eq0":
		if n, ok := num(c.Args[0]); ok {
			return is(n == 0)
		}
		// a bit that is set is enough to tell that a value is not zero
		l := v.en.P.LinOf(c.Args[0])
		if len(l.Coef) == 1 {
			for x, k := range l.Coef {
				if k == 1 || k == -1 {
					b, w := v.of(x), constBits(-k*l.K)
					for i := range b {
						if b[i].k != 2 && b[i].k != w[i].k {
							return no
						}
					}
				}
			}
		}
	case "eq":
		a, b := v.of(c.Args[0]), v.of(c.Args[1])
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
			}
			if a[i].k != 2 && b[i].k != 2 && a[i].k != b[i].k {
				return no
			}
		}
		if same {
			return yes
		}
	}
	return maybe
}
