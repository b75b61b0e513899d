package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// wrap turns constant terms back into concrete values.
func (m *Machine) wrap(t *Term, n numInfo) Value {
	if t.op != OConst {
		return t
	}
	switch t.sk {
	case SBool:
		return t.u != 0
	case SBV:
		return norm(t.u, n)
	case SInt:
		return t.rat.Num().Int64()
	case SReal:
		f, _ := t.rat.Float64()
		return f
	}
	return t
}

func isSInt(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.sk == SInt
}

func (m *Machine) toSInt(v Value) *Term {
	switch v := v.(type) {
	case int64:
		return m.ctx.IntC(v)
	case *Term:
		if v.sk == SInt {
			return v
		}
		return m.bvToInt(v)
	}
	panic("toSInt")
}

func (m *Machine) toReal(v Value) *Term {
	switch v := v.(type) {
	case float64:
		return m.ctx.Real(v)
	case *Term:
		if v.sk == SReal {
			return v
		}
	}
	panic(fmt.Sprintf("toReal: %T %v", v, v))
}

func (m *Machine) binop(op token.Token, x, y Value, ins *Ins) Value {
	n := ins.n
	switch op {
	case token.EQL:
		return m.eqv(x, y)
	case token.NEQ:
		return m.notV(m.eqv(x, y))
	}
	switch n.kind {
	case nkInt:
		return m.intOp(op, x, y, n, ins)
	case nkFloat:
		return m.floatOp(op, x, y, n)
	case nkString:
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			if ok1 && ok2 {
				return a < b
			}
			return m.strLess(x, y)
		case token.GTR:
			if ok1 && ok2 {
				return a > b
			}
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	case nkBool:
		switch op {
		case token.AND, token.LAND:
			return m.andV(x, y)
		case token.OR, token.LOR:
			return m.notV(m.andV(m.notV(x), m.notV(y)))
		}
	case nkComplex:
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		}
	}
	unsup("binop %v on %T", op, x)
	return nil
}

func (m *Machine) notV(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return m.boolV(m.ctx.Not(v))
	}
	panic(fmt.Sprintf("not: %T", v))
}

func (m *Machine) intOp(op token.Token, x, y Value, n numInfo, ins *Ins) Value {
	c := m.ctx
	if op == token.SHL || op == token.SHR {
		return m.shift(op, x, y, n, ins)
	}
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return norm(uint64(a+b), n)
		case token.SUB:
			return norm(uint64(a-b), n)
		case token.MUL:
			return norm(uint64(a*b), n)
		case token.QUO, token.REM:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			if !n.signed {
				if op == token.QUO {
					return norm(uint64(a)/uint64(b), n)
				}
				return norm(uint64(a)%uint64(b), n)
			}
			if b == -1 {
				if op == token.QUO {
					return norm(uint64(-a), n)
				}
				return int64(0)
			}
			if op == token.QUO {
				return norm(uint64(a/b), n)
			}
			return norm(uint64(a%b), n)
		case token.AND:
			return norm(uint64(a&b), n)
		case token.OR:
			return norm(uint64(a|b), n)
		case token.XOR:
			return norm(uint64(a^b), n)
		case token.AND_NOT:
			return norm(uint64(a&^b), n)
		case token.LSS:
			if n.signed {
				return a < b
			}
			return uint64(a) < uint64(b)
		case token.LEQ:
			if n.signed {
				return a <= b
			}
			return uint64(a) <= uint64(b)
		case token.GTR:
			if n.signed {
				return a > b
			}
			return uint64(a) > uint64(b)
		case token.GEQ:
			if n.signed {
				return a >= b
			}
			return uint64(a) >= uint64(b)
		}
		unsup("int op %v", op)
	}
	if isSInt(x) || isSInt(y) {
		return m.sintOp(op, m.toSInt(x), m.toSInt(y), n)
	}
	p, q := m.toBV(x, n.w), m.toBV(y, n.w)
	cmp := func(lt bool, p, q *Term) Value {
		switch {
		case n.signed && lt:
			return m.boolV(c.Slt(p, q))
		case n.signed:
			return m.boolV(c.Sle(p, q))
		case lt:
			return m.boolV(c.Ult(p, q))
		}
		return m.boolV(c.Ule(p, q))
	}
	var r *Term
	switch op {
	case token.ADD:
		r = c.BVOp(OAdd, p, q)
	case token.SUB:
		r = c.BVOp(OSub, p, q)
	case token.MUL:
		r = c.BVOp(OMul, p, q)
	case token.QUO, token.REM:
		if m.branch(c.Eq(q, c.BV(0, n.w))) {
			m.rtPanic("integer divide by zero")
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[n.signed][op]
		r = c.BVOp(o, p, q)
	case token.AND:
		r = c.BVOp(OBAnd, p, q)
	case token.OR:
		r = c.BVOp(OBOr, p, q)
	case token.XOR:
		r = c.BVOp(OBXor, p, q)
	case token.AND_NOT:
		r = c.BVOp(OBAnd, p, c.BNot(q))
	case token.LSS:
		return cmp(true, p, q)
	case token.LEQ:
		return cmp(false, p, q)
	case token.GTR:
		return cmp(true, q, p)
	case token.GEQ:
		return cmp(false, q, p)
	default:
		unsup("int op %v", op)
	}
	return m.wrap(r, n)
}

func pow2(k int64) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
}

func isPow2(u uint64) bool { return u != 0 && u&(u-1) == 0 }

// inType checks that a mathematical integer stays within its machine type.
func (m *Machine) inType(t *Term, n numInfo) Value {
	if t.op == OConst {
		return m.wrap(t, n)
	}
	lo, hi := -math.Ldexp(1, int(n.w)-1), math.Ldexp(1, int(n.w)-1)-1
	if !n.signed {
		lo, hi = 0, math.Ldexp(1, int(n.w))-1
	}
	if !t.bnd || t.lo < lo || t.hi > hi {
		c := m.ctx
		// the bounds are not tight enough: decide it
		if n.w <= 32 || t.bnd && t.lo >= -1e15 && t.hi <= 1e15 {
			ok := c.And(c.ALe(c.IntC(int64(lo)), t), c.ALe(t, c.IntC(int64(hi))))
			if m.branch(ok) {
				return t
			}
		}
		unsup("integer term may leave its type (%v..%v)", t.lo, t.hi)
	}
	return t
}

func (m *Machine) floorDiv(a *Term, d *big.Rat) *Term {
	c := m.ctx
	if !d.IsInt() {
		return c.Floor(c.AOp(OAMul, c.Rat(new(big.Rat).Inv(d), SReal), c.ToReal(a)))
	}
	// multiples of d are divided exactly
	l := linInt{k: map[*Term]*big.Int{}, c: new(big.Int)}
	l.add(a, big.NewInt(1))
	var q *Term
	plus := func(s, t *Term) *Term {
		if s == nil {
			return t
		}
		return c.AOp(OAAdd, s, t)
	}
	term := func(k *big.Int, t *Term) *Term { return c.AOp(OAMul, c.Rat(new(big.Rat).SetInt(k), SInt), t) }
	var rest *Term
	some := false
	for _, t := range l.order {
		k := l.k[t]
		x, r := new(big.Int).QuoRem(k, d.Num(), new(big.Int))
		switch {
		case k.Sign() == 0:
		case r.Sign() == 0:
			q = plus(q, term(x, t))
			some = true
		default:
			rest = plus(rest, term(k, t))
		}
	}
	if !some {
		return c.Floor(c.AOp(OAMul, c.Rat(new(big.Rat).Inv(d), SReal), c.ToReal(a)))
	}
	if rest == nil {
		return plus(q, c.Rat(new(big.Rat).SetInt(ratFloor(new(big.Rat).SetFrac(l.c, d.Num()))), SInt))
	}
	rest = plus(rest, c.Rat(new(big.Rat).SetInt(l.c), SInt))
	return plus(q, c.Floor(c.AOp(OAMul, c.Rat(new(big.Rat).Inv(d), SReal), c.ToReal(rest))))
}

// linInt is an integer term as a sum.
type linInt struct {
	k     map[*Term]*big.Int
	order []*Term
	c     *big.Int
}

func (l *linInt) add(t *Term, k *big.Int) {
	switch {
	case t.op == OConst:
		l.c.Add(l.c, new(big.Int).Mul(k, t.rat.Num()))
		return
	case t.op == OAAdd:
		l.add(t.a, k)
		l.add(t.b, k)
		return
	case t.op == OASub:
		l.add(t.a, k)
		l.add(t.b, new(big.Int).Neg(k))
		return
	case t.op == OANeg:
		l.add(t.a, new(big.Int).Neg(k))
		return
	case t.op == OAMul && t.a.op == OConst:
		l.add(t.b, new(big.Int).Mul(k, t.a.rat.Num()))
		return
	}
	if l.k[t] == nil {
		l.k[t] = new(big.Int)
		l.order = append(l.order, t)
	}
	l.k[t].Add(l.k[t], k)
}

func (m *Machine) sintOp(op token.Token, a, b *Term, n numInfo) Value {
	c := m.ctx
	switch op {
	case token.ADD:
		return m.inType(c.AOp(OAAdd, a, b), n)
	case token.SUB:
		return m.inType(c.AOp(OASub, a, b), n)
	case token.MUL:
		return m.inType(c.AOp(OAMul, a, b), n)
	case token.QUO, token.REM:
		if b.op != OConst {
			// fork over the divisor's sign and use real division
			if m.branch(c.Eq(b, c.IntC(0))) {
				m.rtPanic("integer divide by zero")
			}
			unsup("division by a symbolic integer")
		}
		if b.rat.Sign() == 0 {
			m.rtPanic("integer divide by zero")
		}
		d := new(big.Rat).Abs(b.rat)
		q := c.Ite(c.ALe(c.IntC(0), a), m.floorDiv(a, d), c.ANeg(m.floorDiv(c.ANeg(a), d)))
		if op == token.REM {
			return m.inType(c.AOp(OASub, a, c.AOp(OAMul, c.Rat(d, SInt), q)), n)
		}
		if b.rat.Sign() < 0 {
			q = c.ANeg(q)
		}
		return m.inType(q, n)
	case token.AND:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			k := b.rat.Num().Int64()
			if k >= 0 && k&(k+1) == 0 { // low bits
				d := new(big.Rat).SetInt64(k + 1)
				return m.inType(c.AOp(OASub, a, c.AOp(OAMul, c.Rat(d, SInt), m.floorDiv(a, d))), n)
			}
			if k < 0 && isPow2(uint64(-k)) { // clear low bits
				d := new(big.Rat).SetInt64(-k)
				return m.inType(c.AOp(OAMul, c.Rat(d, SInt), m.floorDiv(a, d)), n)
			}
		}
	case token.AND_NOT:
		if b.op == OConst {
			k := b.rat.Num().Int64()
			if k >= 0 && k&(k+1) == 0 {
				d := new(big.Rat).SetInt64(k + 1)
				return m.inType(c.AOp(OAMul, c.Rat(d, SInt), m.floorDiv(a, d)), n)
			}
		}
	case token.LSS:
		return m.boolV(c.ALt(a, b))
	case token.LEQ:
		return m.boolV(c.ALe(a, b))
	case token.GTR:
		return m.boolV(c.ALt(b, a))
	case token.GEQ:
		return m.boolV(c.ALe(b, a))
	}
	unsup("integer term op %v", op)
	return nil
}

func (m *Machine) shift(op token.Token, x, y Value, n numInfo, ins *Ins) Value {
	c := m.ctx
	yn := numOf(ins.in.(*ssa.BinOp).Y.Type())
	if k, ok := y.(int64); ok {
		if yn.signed && k < 0 {
			m.rtPanic("negative shift amount")
		}
		uk := uint64(k)
		if a, ok := x.(int64); ok {
			if op == token.SHL {
				if uk >= 64 {
					return int64(0)
				}
				return norm(uint64(a)<<uk, n)
			}
			if n.signed {
				return norm(uint64(a>>min(uk, 63)), n)
			}
			if uk >= 64 {
				return int64(0)
			}
			return norm(uint64(a)>>uk, n)
		}
		t := x.(*Term)
		if t.sk == SInt {
			if uk > 62 {
				unsup("shift of integer term")
			}
			if op == token.SHL {
				return m.inType(c.AOp(OAMul, c.Rat(pow2(k), SInt), t), n)
			}
			return m.inType(m.floorDiv(t, pow2(k)), n)
		}
		if uk >= uint64(n.w) {
			if op == token.SHL || !n.signed {
				return int64(0)
			}
			uk = uint64(n.w) - 1
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if n.signed {
				o = OAShr
			}
		}
		return m.wrap(c.BVOp(o, t, c.BV(uk, n.w)), n)
	}
	yt := y.(*Term)
	if yt.sk != SBV {
		unsup("shift by an integer term")
	}
	if yn.signed && !nonneg(yt) {
		if m.branch(c.Slt(yt, c.BV(0, yt.w))) {
			m.rtPanic("negative shift amount")
		}
	}
	xt := m.toBV(x, n.w)
	var cnt *Term
	if yt.w > n.w {
		// saturate
		big := c.Ule(c.BV(uint64(n.w), yt.w), yt)
		cnt = c.Ite(big, c.BV(uint64(n.w), n.w), c.Resize(yt, n.w, false))
	} else {
		cnt = c.Resize(yt, n.w, false)
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if n.signed {
			o = OAShr
		}
	}
	return m.wrap(c.BVOp(o, xt, cnt), n)
}

func fin(f float64) bool { return !math.IsInf(f, 0) && !math.IsNaN(f) }

func (m *Machine) floatOp(op token.Token, x, y Value, n numInfo) Value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		default:
			unsup("float op %v", op)
		}
		if n.w == 32 {
			r = float64(float32(r))
		}
		return r
	}
	c := m.ctx
	if ok1 && !fin(a) || ok2 && !fin(b) {
		// a special value and a finite symbolic one
		s, t, left := a, y, true
		if ok2 {
			s, t, left = b, x, false
		}
		tt := t.(*Term)
		one := 1.0
		if op == token.MUL || op == token.QUO && left {
			if m.branch(c.Eq(tt, c.Real(0))) {
				one = 0
			} else if m.branch(c.ALt(tt, c.Real(0))) {
				one = -1
			}
		}
		if left {
			return m.floatOp(op, s, one, n)
		}
		return m.floatOp(op, one, s, n)
	}
	p, q := m.toReal(x), m.toReal(y)
	var r *Term
	switch op {
	case token.ADD:
		r = c.AOp(OAAdd, p, q)
	case token.SUB:
		r = c.AOp(OASub, p, q)
	case token.MUL:
		r = c.AOp(OAMul, p, q)
	case token.QUO:
		if q.op == OConst && q.rat.Sign() == 0 || q.op != OConst && m.branch(c.Eq(q, c.Real(0))) {
			// assume +0
			switch {
			case m.branch(c.Eq(p, c.Real(0))):
				return math.NaN()
			case m.branch(c.ALt(p, c.Real(0))):
				return math.Inf(-1)
			}
			return math.Inf(1)
		}
		r = c.AOp(OADiv, p, q)
	case token.LSS:
		return m.boolV(c.ALt(p, q))
	case token.LEQ:
		return m.boolV(c.ALe(p, q))
	case token.GTR:
		return m.boolV(c.ALt(q, p))
	case token.GEQ:
		return m.boolV(c.ALe(q, p))
	default:
		unsup("float op %v", op)
	}
	return m.wrap(r, n)
}

func (m *Machine) unop(in *ssa.UnOp, x Value, ins *Ins) Value {
	n := ins.n
	switch in.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.notV(x)
	case token.SUB:
		switch v := x.(type) {
		case int64:
			return norm(uint64(-v), n)
		case float64:
			return -v
		case complex128:
			return -v
		case *Term:
			switch v.sk {
			case SBV:
				return m.wrap(m.ctx.BNeg(v), n)
			case SInt:
				return m.inType(m.ctx.ANeg(v), n)
			}
			return m.wrap(m.ctx.ANeg(v), n)
		}
	case token.XOR:
		switch v := x.(type) {
		case int64:
			return norm(^uint64(v), n)
		case *Term:
			if v.sk == SInt {
				return m.inType(m.ctx.AOp(OASub, m.ctx.IntC(-1), v), n)
			}
			return m.wrap(m.ctx.BNot(v), n)
		}
	case token.ARROW:
		unsup("channel receive")
	}
	unsup("unop %v %T", in.Op, x)
	return nil
}

func (m *Machine) convert(x Value, from, to types.Type, ins *Ins) Value {
	fn, tn := numOf(from), numOf(to)
	switch {
	case fn.kind == nkInt && tn.kind == nkInt:
		switch v := x.(type) {
		case int64:
			return norm(uint64(v), tn)
		case *Term:
			if v.sk == SInt {
				return m.inType(v, tn)
			}
			return m.wrap(m.ctx.Resize(v, tn.w, fn.signed), tn)
		}
	case fn.kind == nkInt && tn.kind == nkFloat:
		switch v := x.(type) {
		case int64:
			var f float64
			if fn.signed {
				f = float64(v)
			} else {
				f = float64(uint64(v))
			}
			if tn.w == 32 {
				f = float64(float32(f))
			}
			return f
		case *Term:
			return m.wrap(m.ctx.ToReal(m.toSInt(v)), tn)
		}
	case fn.kind == nkFloat && tn.kind == nkInt:
		switch v := x.(type) {
		case float64:
			if !fin(v) {
				return norm(1<<63, tn)
			}
			if tn.signed || v < 1<<62 {
				return norm(uint64(int64(v)), tn)
			}
			return norm(uint64(v), tn)
		case *Term:
			c := m.ctx
			var t *Term
			switch {
			case v.bnd && v.lo >= 0:
				t = c.Floor(v)
			case v.bnd && v.hi <= 0:
				t = c.ANeg(c.Floor(c.ANeg(v)))
			default:
				t = c.Ite(c.ALe(c.Real(0), v), c.Floor(v), c.ANeg(c.Floor(c.ANeg(v))))
			}
			return m.inType(t, tn)
		}
	case fn.kind == nkFloat && tn.kind == nkFloat:
		switch v := x.(type) {
		case float64:
			if tn.w == 32 {
				return float64(float32(v))
			}
			return v
		case *Term:
			if tn.w == 32 && !(v.exact && v.bnd && math.Log2(math.Max(math.Abs(v.lo), math.Abs(v.hi))+1)+float64(v.grid) <= 23) {
				unsup("float32 rounding")
			}
			return v
		}
	case fn.kind == nkComplex && tn.kind == nkComplex:
		return x
	case fn.kind == nkString && tn.kind == nkString:
		return x
	case fn.kind == nkInt && tn.kind == nkString:
		switch v := x.(type) {
		case int64:
			if !fn.signed && v < 0 {
				return "\uFFFD"
			}
			if v < math.MinInt32 || v > math.MaxInt32 {
				return "\uFFFD"
			}
			return string(rune(v))
		case *Term:
			return m.runeStr(m.ctx.Resize(v, 32, fn.signed))
		}
	case fn.kind == nkString:
		st, ok := to.Underlying().(*types.Slice)
		if !ok {
			break
		}
		en := numOf(st.Elem())
		if en.w == 8 {
			b := strBytes(x)
			s := make(Slice, len(b))
			copy(s, b)
			return s
		}
		s := Slice{}
		for i, n := 0, strLen(x); i < n; {
			r, sz := m.decodeRune(strSlice(x, i, n))
			s = append(s, r)
			i += sz
		}
		return s[:len(s):len(s)]
	case tn.kind == nkString:
		st, ok := from.Underlying().(*types.Slice)
		if !ok {
			break
		}
		en := numOf(st.Elem())
		s := x.(Slice)
		if en.w == 8 {
			b := make([]Value, len(s))
			copy(b, s)
			return mkStr(b)
		}
		var r Value = ""
		for _, c := range s {
			switch c := c.(type) {
			case int64:
				r = strCat(r, string(rune(c)))
			case *Term:
				r = strCat(r, m.runeStr(c))
			}
		}
		return r
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if fn.kind == nkNone && tn.kind == nkNone {
		return x
	}
	unsup("convert %v to %v (%T)", from, to, x)
	return nil
}

// runeStr encodes a symbolic 32-bit rune.
func (m *Machine) runeStr(r *Term) Value {
	c := m.ctx
	if r.op == OConst {
		return string(rune(int32(r.u)))
	}
	k := func(u uint64) *Term { return c.BV(u, 32) }
	byteOf := func(pre uint64, sh uint64, mask uint64) Value {
		t := c.BVOp(OBOr, k(pre), c.BVOp(OBAnd, c.BVOp(OLShr, r, k(sh)), k(mask)))
		return m.wrap(c.Resize(t, 8, false), numInfo{nkInt, 8, false})
	}
	if r.umax < 0x80 || m.branch(c.Ult(r, k(0x80))) {
		return mkStr([]Value{m.wrap(c.Resize(r, 8, false), numInfo{nkInt, 8, false})})
	}
	if m.branch(c.Ult(r, k(0x800))) {
		return mkStr([]Value{byteOf(0xC0, 6, 0x1F), byteOf(0x80, 0, 0x3F)})
	}
	bad := c.Or(c.Ult(k(0x10FFFF), r), c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))))
	if m.branch(bad) {
		return "\uFFFD"
	}
	if m.branch(c.Ult(r, k(0x10000))) {
		return mkStr([]Value{byteOf(0xE0, 12, 0xF), byteOf(0x80, 6, 0x3F), byteOf(0x80, 0, 0x3F)})
	}
	return mkStr([]Value{byteOf(0xF0, 18, 0x7), byteOf(0x80, 12, 0x3F), byteOf(0x80, 6, 0x3F), byteOf(0x80, 0, 0x3F)})
}

// ---- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, size int) int {
	nc := newLen
	if d := 2 * oldCap; newLen <= d {
		if oldCap < 256 {
			nc = d
		} else {
			nc = oldCap
			for nc < newLen {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	if size == 0 {
		return nc
	}
	b := nc * size
	if b <= 32768-8*0 && b <= 32768 {
		for _, s := range sizeClasses {
			if s >= b {
				b = s
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / size
}

func (m *Machine) appendTo(s Slice, add []Value, et types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		if len(add) == 0 {
			return s
		}
		r := s[:n]
		vals := make([]Value, len(add))
		for i := range add {
			vals[i] = copyVal(add[i])
		}
		for i, v := range vals {
			m.store(&r[len(s)+i], v)
		}
		return r
	}
	nc := max(growCap(cap(s), n, int(m.p.sizes.Sizeof(et))), n)
	r := make(Slice, nc)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	fillZero(r[n:], et)
	return r[:n]
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, caller *frame, in *Ins) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(v))
		case Slice:
			return int64(len(v))
		case Array:
			return int64(len(v))
		case *MapV:
			if v == nil {
				return int64(0)
			}
			return int64(v.live)
		case *Value:
			return int64(len((*v).(Array)))
		case *ChanV:
			return int64(0)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return int64(cap(v))
		case Array:
			return int64(len(v))
		case *Value:
			return int64(len((*v).(Array)))
		}
	case "append":
		s, _ := args[0].(Slice)
		var et types.Type = types.Typ[types.Byte]
		if st, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
		switch a := args[1].(type) {
		case Slice:
			return m.appendTo(s, a, et)
		case string, *SymStr:
			return m.appendTo(s, strBytes(a), et)
		case nil:
			return s
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch a := args[1].(type) {
		case Slice:
			src = a
		default:
			src = strBytes(a)
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i, v := range tmp {
			m.store(&d[i], v)
		}
		return int64(n)
	case "delete":
		m.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				for _, e := range append([]*MapEnt{}, v.ents...) {
					if !e.dead {
						m.mapDelete(v, e.k)
					}
				}
			}
			return nil
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				m.store(&v[i], zeroOf(et))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "recover":
		// caller is the deferred function; its caller the panicking frame
		if caller != nil && caller.caller != nil && caller.caller.panicking {
			p := caller.caller
			p.panicking = false
			v := p.panicV
			p.panicV = nil
			if itf, ok := v.(Iface); ok {
				return itf
			}
			return Iface{m.strT, fmt.Sprint(v)}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		n := numOf(t)
		for _, a := range args[1:] {
			var lt Value
			ins := &Ins{n: n}
			if b.Name() == "min" {
				lt = m.binop(token.LSS, a, r, ins)
			} else {
				lt = m.binop(token.LSS, r, a, ins)
			}
			switch lt := lt.(type) {
			case bool:
				if lt {
					r = a
				}
			case *Term:
				v, ok := m.iteN(lt, a, r, n)
				if !ok {
					if m.branch(lt) {
						v = a
					} else {
						v = r
					}
				}
				r = v
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.concInt(args[1]))
		switch p := args[0].(type) {
		case DataPtr:
			b := make([]Value, n)
			copy(b, p.s[:n])
			return mkStr(b)
		case *Value:
			if n == 0 {
				return ""
			}
		}
	case "SliceData":
		return DataPtr{args[0].(Slice)}
	case "StringData":
		return DataPtr{strBytes(args[0])}
	case "Slice":
		if p, ok := args[0].(DataPtr); ok {
			n := int(m.concInt(args[1]))
			return p.s[:n:n]
		}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	unsup("builtin %s %T", b.Name(), args[0])
	return nil
}

// ---- merging at symbolic branches

type mstate struct {
	cond *Term
	ov   map[int32]Value // registers assigned in the region
	prev *Blk
}

type mgroup struct {
	target *Blk // nil: return
	cond   *Term
	ov     map[int32]Value
	phis   []Value
	ret    Value
	hasRet bool
}

const mergeBudget = 160

type mergeAbort struct{}

// symIf handles a branch on a symbolic condition: pure code up to the points
// where control leaves it is evaluated for both outcomes, and outcomes that
// reach the same point are merged before forking.
func (fr *frame) symIf(blk *Blk, c *Term) *Blk {
	m := fr.m
	gs, ok := fr.region(blk, c)
	if !ok {
		fr.prev = blk
		if m.branch(c) {
			return blk.succs[0]
		}
		return blk.succs[1]
	}
	i := 0
	if len(gs) > 1 {
		alts := make([]*Term, len(gs))
		for k, g := range gs {
			alts[k] = g.cond
		}
		i = m.decideN(alts)
	}
	m.stats.Merged++
	g := gs[i]
	for r, v := range g.ov {
		fr.env[r] = v
	}
	if g.target == nil {
		fr.result = g.ret
		return nil
	}
	for k := range g.target.phis {
		fr.env[g.target.phis[k].dst] = g.phis[k]
	}
	fr.prev = nil // phis are done
	return g.target
}

func (fr *frame) region(blk *Blk, c *Term) (gs []*mgroup, ok bool) {
	m := fr.m
	// nothing to gain if neither successor is pure
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(mergeAbort); is {
				gs, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	pend := map[*Blk][]mstate{}
	var front []*mgroup
	add := func(from, to *Blk, cond *Term, ov map[int32]Value) {
		if cond == m.ctx.False {
			return
		}
		if to.rpo <= from.rpo || !to.pure {
			front = fr.addGroup(front, to, mstate{cond, ov, from})
			return
		}
		pend[to] = append(pend[to], mstate{cond, ov, from})
	}
	add(blk, blk.succs[0], c, nil)
	add(blk, blk.succs[1], m.ctx.Not(c), nil)
	budget := mergeBudget
	for len(pend) > 0 {
		var b *Blk
		for k := range pend {
			if b == nil || k.rpo < b.rpo {
				b = k
			}
		}
		sts := pend[b]
		delete(pend, b)
		// a block where everything has come together: stop there
		if len(pend) == 0 && len(front) == 0 && len(sts) > 1 {
			for _, s := range sts {
				front = fr.addGroup(front, b, s)
			}
			break
		}
		if budget--; budget < 0 {
			for _, s := range sts {
				front = fr.addGroup(front, b, s)
			}
			continue
		}
		var grp []*mgroup
		for _, s := range sts {
			grp = fr.addGroup(grp, b, s)
		}
		if len(grp) > 1 {
			front = append(front, grp...)
			continue
		}
		g := grp[0]
		ov := g.ov
		own := false
		set := func(r int32, v Value) {
			if !own {
				n := make(map[int32]Value, len(ov)+4)
				for k, v := range ov {
					n[k] = v
				}
				ov, own = n, true
			}
			ov[r] = v
		}
		for k := range b.phis {
			set(b.phis[k].dst, g.phis[k])
		}
		// evaluate the block on a scratch view of the environment
		res, target := fr.pureBlock(b, ov, set)
		switch target {
		case 0: // if
			t, isT := res.(*Term)
			if !isT {
				t = m.ctx.Bool(res.(bool))
			}
			add(b, b.succs[0], m.ctx.And(g.cond, t), ov)
			add(b, b.succs[1], m.ctx.And(g.cond, m.ctx.Not(t)), ov)
		case 1: // jump
			add(b, b.succs[0], g.cond, ov)
		case 2: // return
			front = fr.addRet(front, mstate{g.cond, ov, b}, res)
		case 3: // not evaluable here: leave
			front = append(front, g)
		}
	}
	if len(front) == 0 {
		return nil, false
	}
	if len(front) == 2 && front[0].target == blk.succs[0] && front[1].target == blk.succs[1] {
		// plain fork
		for _, g := range front {
			if g.target == nil {
				return front, true
			}
		}
	}
	return front, true
}

func (fr *frame) addRet(gs []*mgroup, s mstate, v Value) []*mgroup {
	m := fr.m
	res := fr.fn.f.Signature.Results()
	for _, g := range gs {
		if g.target != nil || !g.hasRet {
			continue
		}
		var nv Value
		ok := true
		switch res.Len() {
		case 0:
		case 1:
			nv, ok = fr.mergeVal(s.cond, v, g.ret, res.At(0).Type())
		default:
			a, b := v.(Tuple), g.ret.(Tuple)
			t := make(Tuple, len(a))
			for i := range a {
				t[i], ok = fr.mergeVal(s.cond, a[i], b[i], res.At(i).Type())
				if !ok {
					break
				}
			}
			nv = t
		}
		if ok {
			g.ret = nv
			g.cond = m.ctx.Or(g.cond, s.cond)
			return gs
		}
	}
	return append(gs, &mgroup{cond: s.cond, ret: v, hasRet: true})
}

// mergeVal merges a (under c) and b (otherwise), unless that would make an
// index-like integer symbolic.
func (fr *frame) mergeVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	if shallowSame(a, b) {
		return a, true
	}
	n := numOf(t)
	if n.kind == nkInt && n.w == 64 {
		if bt, ok := t.(*types.Basic); ok && bt.Kind() != types.Uint64 {
			return nil, false
		}
	}
	switch n.kind {
	case nkInt, nkBool, nkFloat, nkString:
		return fr.m.iteN(c, a, b, n)
	}
	return nil, false
}

func (fr *frame) addGroup(gs []*mgroup, to *Blk, s mstate) []*mgroup {
	m := fr.m
	pi := -1
	for i, p := range to.preds {
		if p == s.prev {
			pi = i
			break
		}
	}
	get := func(o *Opnd) Value {
		if o.k == okReg {
			if v, ok := s.ov[o.i]; ok {
				return v
			}
		}
		return fr.get(o)
	}
	phis := make([]Value, len(to.phis))
	for i := range to.phis {
		phis[i] = get(&to.phis[i].a[pi])
	}
next:
	for _, g := range gs {
		if g.target != to || g.hasRet {
			continue
		}
		np := make([]Value, len(phis))
		for i := range phis {
			v, ok := fr.mergeVal(s.cond, phis[i], g.phis[i], to.phis[i].t)
			if !ok {
				continue next
			}
			np[i] = v
		}
		// registers set on both sides must agree or be merged; those set on
		// one side only do not dominate the target
		nov := map[int32]Value{}
		for r, v := range s.ov {
			w, ok := g.ov[r]
			if !ok {
				continue
			}
			if shallowSame(v, w) {
				nov[r] = v
				continue
			}
			if t := fr.fn.regType[r]; t != nil {
				if _, tup := t.(*types.Tuple); tup {
					continue
				}
				mv, ok := fr.mergeVal(s.cond, v, w, t)
				if !ok {
					continue next
				}
				nov[r] = mv
			} else {
				continue next
			}
		}
		g.phis = np
		g.ov = nov
		g.cond = m.ctx.Or(g.cond, s.cond)
		return gs
	}
	return append(gs, &mgroup{target: to, cond: s.cond, ov: s.ov, phis: phis})
}

// pureBlock evaluates a block without side effects. Kinds: 0 if, 1 jump,
// 2 return, 3 give up.
func (fr *frame) pureBlock(b *Blk, ov map[int32]Value, set func(int32, Value)) (res Value, kind int) {
	m := fr.m
	// swap the overlay into the environment
	saved := make(map[int32]Value, len(ov)+8)
	put := func(r int32, v Value) {
		if _, ok := saved[r]; !ok {
			saved[r] = fr.env[r]
		}
		fr.env[r] = v
	}
	defer func() {
		for r, v := range saved {
			fr.env[r] = v
		}
		if r := recover(); r != nil {
			switch r.(type) {
			case targetPanic, unsupported, specAbort:
				res, kind = nil, 3
			default:
				panic(r)
			}
		}
	}()
	for r, v := range ov {
		put(r, v)
	}
	for k := range b.phis {
		d := b.phis[k].dst
		_ = d
	}
	m.spec++
	defer func() { m.spec-- }()
	for i := range b.ins {
		x := &b.ins[i]
		switch x.in.(type) {
		case *ssa.If:
			return fr.get(&x.a[0]), 0
		case *ssa.Jump:
			return nil, 1
		case *ssa.Return:
			switch len(x.a) {
			case 0:
				return nil, 2
			case 1:
				return fr.get(&x.a[0]), 2
			}
			t := make(Tuple, len(x.a))
			for j := range x.a {
				t[j] = fr.get(&x.a[j])
			}
			return t, 2
		case *ssa.Call:
			fn, args := fr.prep(x)
			var v Value
			if x.fn != nil {
				v = m.call(x.fn, args, nil, fr, x)
			} else {
				v = m.callV(fn, args, fr, x)
			}
			put(x.dst, v)
			set(x.dst, v)
		default:
			v := fr.eval(x)
			put(x.dst, v)
			set(x.dst, v)
		}
	}
	return nil, 3
}

type specAbort struct{}
