package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value evaluates a non-call instruction.
func (en *Engine) value(fr *frame, v ssa.Value, st *State) {
	switch in := v.(type) {
	case *ssa.Alloc:
		fr.env[in] = en.P.Fresh("alloc", in.Comment, in.Type())
	case *ssa.MakeSlice:
		t := en.P.Fresh("make", "slice", in.Type())
		m := en.P.Mk("make", t.Aux, in.Type(), en.val(fr, in.Len), en.val(fr, in.Cap))
		fr.env[in] = m
	case *ssa.MakeMap, *ssa.MakeChan:
		fr.env[v] = en.P.Fresh("alloc", "map", v.Type())
	case *ssa.FieldAddr:
		x := en.val(fr, in.X)
		u := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fr.env[in] = en.FieldAddr(x, u, in.Field)
	case *ssa.Field:
		x := en.val(fr, in.X)
		u := in.X.Type().Underlying().(*types.Struct)
		if x.Op == "struct" {
			fr.env[in] = x.Args[in.Field]
		} else {
			fr.env[in] = en.P.Mk("fval", u.Field(in.Field).Name(), in.Type(), x)
		}
	case *ssa.IndexAddr:
		fr.env[in] = en.ElemAddr(en.val(fr, in.X), en.val(fr, in.Index), in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		x := en.val(fr, in.X)
		if sv, ok := x.StringVal(); ok {
			if i, ok := en.val(fr, in.Index).IntVal(); ok && i >= 0 && i < int64(len(sv)) {
				fr.env[in] = en.P.Const(constant.MakeInt64(int64(sv[i])), in.Type())
				return
			}
		}
		fr.env[in] = en.P.Mk("index", "", in.Type(), x, en.val(fr, in.Index))
	case *ssa.Lookup:
		m, k := en.val(fr, in.X), en.val(fr, in.Index)
		if in.CommaOk {
			e := fmt.Sprint(st.epoch[m])
			fr.tup[in] = []*Term{en.P.Mk("lookup", e, nil, m, k), en.P.Mk("has", e, types.Typ[types.Bool], m, k)}
		} else {
			fr.env[in] = en.P.Mk("lookup", fmt.Sprint(st.epoch[m]), in.Type(), m, k)
		}
	case *ssa.Slice:
		en.slice(fr, in, st)
	case *ssa.UnOp:
		x := en.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.env[in] = en.Load(st, x, in.Type())
		case token.NOT:
			fr.env[in] = en.not(x)
		case token.SUB:
			if isInt(in.Type()) && wide(in.Type()) {
				fr.env[in] = en.P.Add(en.P.Int(0), x, -1, in.Type())
				return
			}
			if x.c != nil {
				fr.env[in] = en.P.Const(trunc(constant.UnaryOp(token.SUB, x.c, 0), in.Type()), in.Type())
				return
			}
			fr.env[in] = en.P.Mk("un", "-", in.Type(), x)
		case token.ARROW:
			fr.env[in] = en.P.Fresh("unknown", "recv", in.Type())
		default:
			fr.env[in] = en.P.Mk("un", in.Op.String(), in.Type(), x)
		}
	case *ssa.BinOp:
		fr.env[in] = en.BinOp(st, in.Op, en.val(fr, in.X), en.val(fr, in.Y), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		fr.env[in] = en.val(fr, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = en.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = en.Convert(st, en.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = en.P.Mk("conv", in.Type().String(), in.Type(), en.val(fr, in.X))
	case *ssa.SliceToArrayPointer:
		fr.env[in] = en.val(fr, in.X)
	case *ssa.MakeInterface:
		x := en.val(fr, in.X)
		fr.env[in] = en.P.Mk("iface", in.X.Type().String(), in.X.Type(), x)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, en.val(fr, b))
		}
		f := in.Fn.(*ssa.Function)
		t := en.P.Mk("closure", f.String(), in.Type(), bs...)
		t.Any = f
		fr.env[in] = t
	case *ssa.TypeAssert:
		x := en.val(fr, in.X)
		var r, ok *Term
		tn := in.AssertedType.String()
		_, toIface := in.AssertedType.Underlying().(*types.Interface)
		if x.Op == "iface" && !toIface {
			ok = en.P.Bool(types.Identical(x.Typ, in.AssertedType))
			r = x.Args[0]
			if b, _ := ok.BoolVal(); !b {
				r = en.Zero(in.AssertedType)
			}
		} else {
			ok = en.P.Mk("is", tn, types.Typ[types.Bool], x)
			r = en.P.Mk("assert", tn, in.AssertedType, x)
			if toIface {
				r = x
			}
		}
		if in.CommaOk {
			fr.tup[in] = []*Term{r, ok}
		} else {
			fr.env[in] = r
		}
	case *ssa.Extract:
		if t, ok := fr.tup[in.Tuple]; ok && in.Index < len(t) {
			fr.env[in] = t[in.Index]
			return
		}
		en.problem("%s: extract of unknown tuple %s", fr.fn, in.Tuple.Name())
		fr.env[in] = en.P.Fresh("unknown", in.Name(), in.Type())
	case *ssa.Range:
		fr.env[in] = en.P.Mk("range", fmt.Sprint(st.epoch[en.val(fr, in.X)]), in.Type(), en.val(fr, in.X))
	case *ssa.Next:
		it := en.val(fr, in.Iter)
		tt := in.Type().(*types.Tuple)
		ok := en.P.Fresh("next", "ok", types.Typ[types.Bool])
		var ts []*Term
		ts = append(ts, ok)
		for i := 1; i < 3; i++ {
			n := en.P.Fresh("next", []string{"", "k", "v"}[i], tt.At(i).Type())
			ts = append(ts, en.P.Mk("next", n.Aux, tt.At(i).Type(), it))
		}
		fr.tup[in] = ts
	case *ssa.Select:
		en.problem("%s: select", fr.fn)
		fr.tup[in] = nil
		fr.env[in] = en.P.Fresh("unknown", "select", in.Type())
	default:
		en.problem("%s: value %T", fr.fn, v)
		fr.env[v] = en.P.Fresh("unknown", v.Name(), v.Type())
	}
}

func wide(t types.Type) bool {
	b, ok := typBasic(t)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Uint8, types.Uint16:
		return false
	}
	return true
}

func trunc(c constant.Value, t types.Type) constant.Value {
	b, ok := typBasic(t)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	var bits uint
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Int64, types.Int:
		bits = 64
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		bits, signed = 64, false
	default:
		return c
	}
	one := constant.MakeInt64(1)
	mod := constant.Shift(one, token.SHL, bits)
	mask := constant.BinaryOp(mod, token.SUB, one)
	r := constant.BinaryOp(c, token.AND, mask)
	if signed && constant.Compare(r, token.GEQ, constant.Shift(one, token.SHL, bits-1)) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r
}

func (en *Engine) slice(fr *frame, in *ssa.Slice, st *State) {
	x := en.val(fr, in.X)
	nilT := en.P.Mk("nil", "", nil)
	lo, hi := nilT, nilT
	if in.Low != nil {
		lo = en.val(fr, in.Low)
	}
	if in.High != nil {
		hi = en.val(fr, in.High)
	}
	if v, ok := lo.IntVal(); ok && v == 0 {
		lo = nilT
	}
	if hi.Op == "len" && hi.Args[0] == x {
		hi = nilT
	}
	if at, ok := in.X.Type().Underlying().(*types.Pointer); ok { // array
		if hi.Op == "nil" {
			if arr, ok := at.Elem().Underlying().(*types.Array); ok {
				hi = en.P.Int(arr.Len())
			}
		}
	} else if lo.Op == "nil" && hi.Op == "nil" {
		fr.env[in] = x
		return
	}
	if x.Op == "seq" {
		if v, ok := hi.IntVal(); ok && v == 0 {
			fr.env[in] = en.P.Mk("sl", "", in.Type(), x, nilT, hi)
			return
		}
	}
	// slice of a slice
	if x.Op == "sl" {
		xlo := x.Args[1]
		if xlo.Op == "nil" {
			xlo = en.P.Int(0)
		}
		nlo := xlo
		if lo.Op != "nil" {
			nlo = en.P.Add(xlo, lo, 1, types.Typ[types.Int])
		}
		nhi := x.Args[2]
		if hi.Op != "nil" {
			nhi = en.P.Add(xlo, hi, 1, types.Typ[types.Int])
		}
		if v, ok := nlo.IntVal(); ok && v == 0 {
			nlo = nilT
		}
		fr.env[in] = en.P.Mk("sl", "", in.Type(), x.Args[0], nlo, nhi)
		return
	}
	fr.env[in] = en.P.Mk("sl", "", in.Type(), x, lo, hi)
}

// Len returns the length term of x.
func (en *Engine) Len(x *Term) *Term {
	I := types.Typ[types.Int]
	switch x.Op {
	case "nil":
		return en.P.Int(0)
	case "make":
		if len(x.Args) > 0 {
			return x.Args[0]
		}
	case "seq":
		r := en.P.Int(0)
		for _, p := range x.Args {
			if p.Op == "e" {
				r = en.P.Add(r, en.P.Int(1), 1, I)
			} else {
				r = en.P.Add(r, en.Len(p.Args[0]), 1, I)
			}
		}
		return r
	case "sl":
		hi := x.Args[2]
		if hi.Op == "nil" {
			hi = en.Len(x.Args[0])
		}
		if x.Args[1].Op == "nil" {
			return hi
		}
		return en.P.Add(hi, x.Args[1], -1, I)
	case "const":
		if s, ok := x.StringVal(); ok {
			return en.P.Int(int64(len(s)))
		}
	case "conv":
		// string([]byte) and []byte(string) keep the length
		if len(x.Args) == 1 && bytesLike(x.Typ) && bytesLike(x.Args[0].Typ) {
			return en.Len(x.Args[0])
		}
	}
	if x.Typ != nil {
		t := x.Typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return en.P.Int(a.Len())
		}
	}
	return en.P.Mk("len", "", I, x)
}

// bytesLike tells strings and byte slices, or anything which is not converted element by element.
func bytesLike(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return !ok || b.Kind() != types.Int32
	case *types.Basic:
		return u.Info()&types.IsInteger == 0
	}
	return true
}

func (en *Engine) capOf(x *Term) *Term {
	if x.Op == "make" && len(x.Args) > 1 {
		return x.Args[1]
	}
	if x.Op == "nil" {
		return en.P.Int(0)
	}
	if x.Op == "sl" {
		c := en.capOf(x.Args[0])
		if x.Args[1].Op == "nil" {
			return c
		}
		return en.P.Add(c, x.Args[1], -1, types.Typ[types.Int])
	}
	return en.P.Mk("cap", "", types.Typ[types.Int], x)
}

// BinOp evaluates a binary operator.
func (en *Engine) BinOp(st *State, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	B := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		t := en.eq(st, x, y, xt)
		if op == token.NEQ {
			t = en.not(t)
		}
		return t
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ { // x>y == y<x
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		if isInt(xt) {
			d := en.P.LinOf(x).add(en.P.LinOf(y), -1)
			if op == token.LSS {
				d.K++
			}
			return en.le0(d)
		}
		if x.c != nil && y.c != nil {
			return en.P.Bool(constant.Compare(x.c, op, y.c))
		}
		if op == token.LSS {
			return en.P.Mk("lt", "", B, x, y)
		}
		return en.not(en.P.Mk("lt", "", B, y, x))
	}
	if x.c != nil && y.c != nil && x.c.Kind() == constant.Int && y.c.Kind() == constant.Int {
		var c constant.Value
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.c); ok && n < 200 {
				c = constant.Shift(x.c, op, uint(n))
			}
		case token.QUO:
			if constant.Sign(y.c) != 0 {
				c = constant.BinaryOp(x.c, token.QUO_ASSIGN, y.c)
			}
		case token.REM:
			if constant.Sign(y.c) != 0 {
				c = constant.BinaryOp(x.c, op, y.c)
			}
		default:
			c = constant.BinaryOp(x.c, op, y.c)
		}
		if c != nil {
			return en.P.Const(trunc(c, rt), rt)
		}
	}
	if x.c != nil && y.c != nil && x.c.Kind() == constant.String && op == token.ADD {
		return en.P.Const(constant.BinaryOp(x.c, op, y.c), rt)
	}
	if isInt(rt) && wide(rt) {
		switch op {
		case token.ADD:
			return en.P.Add(x, y, 1, rt)
		case token.SUB:
			return en.P.Add(x, y, -1, rt)
		case token.MUL:
			if v, ok := x.IntVal(); ok {
				return en.P.Add(en.P.Int(0), y, v, rt)
			}
			if v, ok := y.IntVal(); ok {
				return en.P.Add(en.P.Int(0), x, v, rt)
			}
		}
	}
	if isInt(rt) {
		if v, ok := y.IntVal(); ok {
			switch {
			case v == 0 && (op == token.SHL || op == token.SHR || op == token.OR || op == token.XOR || op == token.ADD || op == token.SUB):
				return x
			case v == 0 && (op == token.AND || op == token.MUL):
				return y
			case v == 1 && (op == token.MUL || op == token.QUO):
				return x
			}
		}
		if v, ok := x.IntVal(); ok && v == 0 {
			switch op {
			case token.OR, token.XOR, token.ADD:
				return y
			case token.AND, token.MUL, token.SHL, token.SHR:
				return x
			}
		}
		switch op { // commutative
		case token.AND, token.OR, token.XOR, token.MUL, token.ADD:
			if x.ID > y.ID {
				x, y = y, x
			}
		}
	}
	return en.P.Mk("bin", op.String(), rt, x, y)
}

// le0 is the atom d<=0 with a canonical sign.
func (en *Engine) le0(d Lin) *Term {
	k, sign := en.P.key(d)
	B := types.Typ[types.Bool]
	if k == nil {
		return en.P.Bool(d.K <= 0)
	}
	if sign > 0 {
		return en.P.Mk("le0", "", B, en.P.FromLin(d, types.Typ[types.Int]))
	}
	// d<=0 == !(-d+1<=0)
	n := Lin{map[*Term]int64{}, -d.K + 1}
	for t, c := range d.Coef {
		n.Coef[t] = -c
	}
	return en.not(en.P.Mk("le0", "", B, en.P.FromLin(n, types.Typ[types.Int])))
}

// Le returns the condition x<=y.
func (en *Engine) Le(x, y *Term) *Term { return en.le0(en.P.LinOf(x).add(en.P.LinOf(y), -1)) }

// Eq returns the condition x==y for integers.
func (en *Engine) Eq(x, y *Term) *Term { return en.eq0(en.P.LinOf(x).add(en.P.LinOf(y), -1)) }

func (en *Engine) eq0(d Lin) *Term {
	k, sign := en.P.key(d)
	if k == nil {
		return en.P.Bool(d.K == 0)
	}
	if sign < 0 {
		n := Lin{map[*Term]int64{}, -d.K}
		for t, c := range d.Coef {
			n.Coef[t] = -c
		}
		d = n
	}
	return en.P.Mk("eq0", "", types.Typ[types.Bool], en.P.FromLin(d, types.Typ[types.Int]))
}

func (en *Engine) eq(st *State, x, y *Term, xt types.Type) *Term {
	B := types.Typ[types.Bool]
	if x == y && !isFloat(xt) {
		return en.P.Bool(true)
	}
	if x.Op == "nil" {
		x, y = y, x
	}
	if y.Op == "nil" {
		if x.Op == "nil" {
			return en.P.Bool(true)
		}
		t := en.P.Mk("isnil", "", B, x)
		if v, ok := en.Decide(st, t); ok && t.Args[0].Op != "load" && t.Args[0].Op != "res" {
			return en.P.Bool(v)
		}
		return t
	}
	if isInt(xt) {
		return en.eq0(en.P.LinOf(x).add(en.P.LinOf(y), -1))
	}
	if bt, ok := typBasic(xt); ok && bt.Info()&types.IsBoolean != 0 {
		if v, ok := y.BoolVal(); ok {
			if v {
				return x
			}
			return en.not(x)
		}
		if v, ok := x.BoolVal(); ok {
			if v {
				return y
			}
			return en.not(y)
		}
	}
	if x.c != nil && y.c != nil {
		return en.P.Bool(constant.Compare(x.c, token.EQL, y.c))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return en.P.Mk("eq", "", B, x, y)
}

func isFloat(t types.Type) bool {
	b, ok := typBasic(t)
	return ok && b.Info()&types.IsFloat != 0
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, k := typBasic(t)
	if !k || b.Info()&types.IsInteger == 0 {
		return
	}
	ok = true
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return -1 << 63, 1<<63 - 1, true
}

// Convert evaluates a conversion; conversions which keep every value are transparent.
func (en *Engine) Convert(st *State, x *Term, from, to types.Type) *Term {
	if isInt(from) && isInt(to) {
		if x.c != nil {
			return en.P.Const(trunc(x.c, to), to)
		}
		lo, hi, _ := intRange(to)
		if lo == -1<<63 { // 64 bit kinds are kept apart by nothing a rule needs
			return x
		}
		a, b := en.TermBounds(st, x)
		if a >= lo && b <= hi {
			return x
		}
		return en.P.Mk("conv", basicName(to), to, x)
	}
	if x.c != nil {
		if isFloat(to) && x.c.Kind() == constant.Int {
			return en.P.Const(constant.ToFloat(x.c), to)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return en.P.Mk("conv", basicName(to), to, x)
}

func basicName(t types.Type) string {
	if b, ok := typBasic(t); ok {
		if b.Kind() == types.Uint8 {
			return "uint8"
		}
		return b.Name()
	}
	return t.String()
}

// ---- calls ----

func (en *Engine) calleeTerm(fr *frame, c *ssa.CallCommon) *Term {
	if c.IsInvoke() {
		return en.val(fr, c.Value)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		t := en.P.Mk("func", f.String(), f.Type())
		t.Any = f
		return t
	}
	return en.val(fr, c.Value)
}

func (en *Engine) callInstr(fr *frame, in *ssa.Call, st *State) []outcome {
	var args []*Term
	for _, a := range in.Call.Args {
		args = append(args, en.val(fr, a))
	}
	return en.dispatch(fr, &in.Call, en.calleeTerm(fr, &in.Call), args, in.Pos(), st, in)
}

func resultTypes(c *ssa.CallCommon) []types.Type {
	var r []types.Type
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		r = append(r, res.At(i).Type())
	}
	return r
}

func ret1(st *State, ts ...*Term) []outcome {
	return []outcome{{kind: oRet, st: st, ret: ts}}
}

func (en *Engine) dispatch(fr *frame, c *ssa.CallCommon, callee *Term, args []*Term, pos token.Pos, st *State, in ssa.Value) []outcome {
	if c.IsInvoke() {
		recv := callee
		m := c.Method
		if recv.Op == "iface" {
			if f := en.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name()); f != nil {
				return en.static(fr, c, f, append([]*Term{recv.Args[0]}, args...), nil, pos, st)
			}
		}
		if en.Resolve != nil {
			if f := en.Resolve(recv, m); f != nil {
				return en.static(fr, c, f, append([]*Term{recv}, args...), nil, pos, st)
			}
		}
		if m.Name() == "Error" && len(args) == 0 {
			return ret1(st, en.P.Mk("errstr", "", types.Typ[types.String], recv))
		}
		return en.event(fr, c, ifaceName(m), m.Name(), recv, args, pos, st, true)
	}
	switch callee.Op {
	case "builtin":
		return en.builtin(fr, c, callee.Aux, args, pos, st)
	case "func":
		return en.static(fr, c, callee.Any.(*ssa.Function), args, nil, pos, st)
	case "closure":
		return en.static(fr, c, callee.Any.(*ssa.Function), args, callee.Args, pos, st)
	}
	return en.event(fr, c, "dyn", "dyn", callee, args, pos, st, true)
}

func ifaceName(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return "(" + r.Type().String() + ")." + m.Name()
	}
	return m.Name()
}

// getter models a protobuf getter.
func (en *Engine) getter(f *ssa.Function, recv *Term, st *State) *Term {
	name := strings.TrimPrefix(f.Name(), "Get")
	sig := f.Signature
	if sig.Recv() == nil || sig.Results().Len() != 1 {
		return nil
	}
	pt, ok := sig.Recv().Type().(*types.Pointer)
	if !ok {
		return nil
	}
	u, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != name {
			continue
		}
		ft := u.Field(i).Type()
		v := en.Load(st, en.FieldAddr(recv, u, i), ft)
		rt := sig.Results().At(0).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), rt) {
			if v.Op == "nil" {
				return en.P.Mk("pbdefault", f.String(), rt, en.P.Int(0))
			}
			return en.Load(st, v, rt)
		}
		return v
	}
	return nil
}

func (en *Engine) static(fr *frame, c *ssa.CallCommon, f *ssa.Function, args, free []*Term, pos token.Pos, st *State) []outcome {
	name := f.String()
	var pkg *types.Package
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg
	} else if f.Object() != nil {
		pkg = f.Object().Pkg()
	}
	E := func() types.Type { return types.Universe.Lookup("error").Type() }
	if pkg != nil {
		switch pkg.Path() {
		case "github.com/pkg/errors", "errors":
			switch f.Name() {
			case "New", "Errorf":
				return ret1(st, en.P.Fresh("newerr", f.Name(), E()))
			case "WithStack", "WithMessage", "Wrap", "Wrapf", "WithMessagef":
				if args[0].Op == "nil" {
					return ret1(st, args[0])
				}
				if args[0].Op == "newerr" || args[0].Op == "wrap" {
					return ret1(st, args[0])
				}
				return ret1(st, en.P.Mk("wrap", "", E(), args[0]))
			}
		case "fmt":
			if f.Name() == "Errorf" {
				return ret1(st, en.P.Fresh("newerr", "fmt", E()))
			}
		}
		if strings.HasSuffix(pkg.Path(), "/pb/pb") && strings.HasPrefix(f.Name(), "Get") && len(args) == 1 {
			if t := en.getter(f, args[0], st); t != nil {
				return ret1(st, t)
			}
		}
	}
	if en.Ignore != nil && en.Ignore(name) {
		var rs []*Term
		for _, t := range resultTypes(c) {
			rs = append(rs, en.P.Fresh("unknown", f.Name(), t))
		}
		return ret1(st, rs...)
	}
	inl := len(f.Blocks) > 0 && (pkg == nil || en.InRepo(pkg)) && !strings.HasSuffix(pkgPath(pkg), "/pb/pb")
	if inl && f.Synthetic == "" && en.Opaque != nil && en.Opaque(f) {
		inl = false
	}
	if inl {
		for _, s := range fr.stack {
			if s == f {
				inl = false // recursion
			}
		}
		if len(fr.stack) > 12 {
			inl = false
		}
	}
	if inl {
		outs := en.call(f, args, free, st, fr.stack)
		for i := range outs {
			outs[i].fr = fr
			if len(outs[i].ret) == 0 && outs[i].kind == oRet {
				outs[i].ret = []*Term{}
			}
		}
		return outs
	}
	var recv *Term
	if f.Signature.Recv() != nil && len(args) > 0 {
		recv, args = args[0], args[1:]
	}
	if en.Stable != nil && en.Stable(f) {
		ev := &Event{Kind: "call", Callee: name, Name: f.Name(), Recv: recv, Args: args, Pos: pos, Fn: fr.fn.String()}
		key := fmt.Sprintf("%s@%d", f.Name(), st.ver)
		for _, a := range append([]*Term{recv}, args...) {
			if a != nil {
				key += " " + a.String()
			}
		}
		for i, t := range resultTypes(c) {
			r := en.P.Mk("res", fmt.Sprintf("%s.%d", key, i), t)
			if r.Any == nil {
				r.Any = ev
			}
			ev.Res = append(ev.Res, r)
		}
		st.push(ev)
		return ret1(st, ev.Res...)
	}
	return en.event(fr, c, name, f.Name(), recv, args, pos, st, false)
}

// newVer marks that memory has changed.
func (en *Engine) newVer(s *State) {
	en.nev++
	s.ver = en.nev
}

func pkgPath(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Path()
}

func (en *Engine) event(fr *frame, c *ssa.CallCommon, callee, name string, recv *Term, args []*Term, pos token.Pos, st *State, iface bool) []outcome {
	ev := &Event{Kind: "call", Callee: callee, Name: name, Recv: recv, Args: args, Pos: pos, Fn: fr.fn.String(), Iface: iface}
	rts := resultTypes(c)
	en.P.fresh++
	id := en.P.fresh
	en.newVer(st)
	for i, t := range rts {
		r := en.P.Mk("res", fmt.Sprintf("%s#%d.%d", name, id, i), t)
		r.Any = ev
		ev.Res = append(ev.Res, r)
	}
	st.push(ev)
	if en.Pure != nil && en.Pure(callee) {
		return ret1(st, ev.Res...)
	}
	if en.Reads == nil || !en.Reads(name, args) {
		for _, a := range args {
			en.havocObj(st, a)
		}
	}
	if recv != nil {
		en.havocObj(st, recv)
	}
	return ret1(st, ev.Res...)
}

func (en *Engine) builtin(fr *frame, c *ssa.CallCommon, name string, args []*Term, pos token.Pos, st *State) []outcome {
	switch name {
	case "len":
		return ret1(st, en.Len(args[0]))
	case "cap":
		return ret1(st, en.capOf(args[0]))
	case "append":
		return ret1(st, en.append(st, args[0], args[1], c.Signature().Results().At(0).Type()))
	case "copy":
		ev := &Event{Kind: "call", Callee: "copy", Name: "copy", Args: args, Pos: pos, Fn: fr.fn.String()}
		r := en.P.Fresh("res", "copy", types.Typ[types.Int])
		ev.Res = []*Term{r}
		st.push(ev)
		en.havocObj(st, args[0])
		return ret1(st, r)
	case "delete", "clear", "print", "println", "close":
		st.push(&Event{Kind: "call", Callee: name, Name: name, Args: args, Pos: pos, Fn: fr.fn.String()})
		if len(args) > 0 {
			en.havocObj(st, args[0])
			st.epoch[args[0]]++
		}
		return ret1(st)
	case "recover":
		return ret1(st, en.P.Fresh("unknown", "recover", nil))
	case "min", "max":
		t := en.P.Mk(name, "", args[0].Typ, args...)
		return ret1(st, t)
	case "ssa:wrapnilchk":
		return ret1(st, args[0])
	}
	en.problem("builtin %s", name)
	var rs []*Term
	for _, t := range resultTypes(c) {
		rs = append(rs, en.P.Fresh("unknown", name, t))
	}
	return ret1(st, rs...)
}

func (en *Engine) append(st *State, s, x *Term, typ types.Type) *Term {
	var parts []*Term
	isEmpty := func(t *Term) bool {
		l := en.Len(t)
		v, ok := l.IntVal()
		return ok && v == 0
	}
	add := func(t *Term) {
		switch {
		case isEmpty(t):
		case t.Op == "seq":
			parts = append(parts, t.Args...)
		case t.Op == "sl" && t.Args[0].Op == "alloc" && t.Args[1].Op == "nil":
			// elements of a literal
			n, ok := en.Len(t).IntVal()
			if ok && n <= 64 {
				el := types.Type(nil)
				switch u := typ.Underlying().(type) {
				case *types.Slice:
					el = u.Elem()
				}
				if el != nil {
					for i := int64(0); i < n; i++ {
						parts = append(parts, en.P.Mk("e", "", el, en.Load(st, en.ElemAddr(t, en.P.Int(i), el), el)))
					}
					return
				}
			}
			parts = append(parts, en.P.Mk("s", "", typ, t))
		default:
			parts = append(parts, en.P.Mk("s", "", typ, t))
		}
	}
	add(s)
	add(x)
	if len(parts) == 0 {
		return s
	}
	return en.P.Mk("seq", "", typ, parts...)
}

// Parts returns the parts of a sequence value: elements and spread slices.
func (en *Engine) Parts(t *Term) []*Term {
	if t.Op == "seq" {
		return t.Args
	}
	if t.Op == "nil" {
		return nil
	}
	return []*Term{en.P.Mk("s", "", t.Typ, t)}
}

// SliceElems returns the elements of a slice literal or sequence.
func (en *Engine) SliceElems(st *State, t *Term) ([]*Term, bool) {
	n, ok := en.Len(t).IntVal()
	if !ok || n > 256 {
		return nil, false
	}
	var el types.Type
	if t.Typ != nil {
		if u, ok := t.Typ.Underlying().(*types.Slice); ok {
			el = u.Elem()
		}
	}
	if el == nil {
		return nil, n == 0
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, en.Load(st, en.ElemAddr(t, en.P.Int(i), el), el))
	}
	return r, true
}
