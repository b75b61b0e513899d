package main

// Terms: hash-consed expressions over Bool, bit-vectors, mathematical
// integers and reals. They are what the symbolic executor puts in place of
// concrete scalars, and what is printed to the SMT solver.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SReal
	SInt
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	// bit-vectors
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OTrunc
	// arithmetic (Real / Int)
	OAAdd
	OASub
	OAMul
	OADiv
	OANeg
	OALt
	OALe
	OFloor // Real -> Int
	OToReal
	OUF // uninterpreted function: name(args...)
)

type Term struct {
	op   Op
	sk   SortKind
	w    uint8
	id   int32
	a    *Term
	b    *Term
	c    *Term
	u    uint64   // constant (BV, Bool)
	rat  *big.Rat // constant (Real, Int)
	name string   // variable
	args []*Term  // OUF

	vars []uint64 // bit set of variables
	nv   int

	umin, umax uint64 // BV bounds
	// numeric bounds (Real, Int), valid if bnd
	bnd    bool
	lo, hi float64
	// Real: value is a multiple of 2^-grid and exactly representable
	exact bool
	grid  int
	depth int32
}

type tkey struct {
	op      Op
	sk      SortKind
	w       uint8
	a, b, c int32
	u       uint64
	s       string
}

type Ctx struct {
	tab   map[tkey]*Term
	n     int32
	varsN int
	vlist []*Term
	True  *Term
	False *Term
	ufs   map[string]string // declared UFs: name -> signature
	sets  map[int32]*byteSet
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term), ufs: map[string]string{}, sets: map[int32]*byteSet{}}
	c.True = c.mk(tkey{op: OConst, sk: SBool, u: 1}, nil, nil, nil)
	c.False = c.mk(tkey{op: OConst, sk: SBool, u: 0}, nil, nil, nil)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func orset(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i := range b {
		if b[i]&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := make([]uint64, len(a))
	copy(r, a)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) mk(k tkey, a, b, cc *Term) *Term {
	k.a, k.b, k.c = tid(a), tid(b), tid(cc)
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, sk: k.sk, w: k.w, a: a, b: b, c: cc, u: k.u, name: k.s, id: c.n}
	c.n++
	for _, x := range []*Term{a, b, cc} {
		if x != nil {
			t.vars = orset(t.vars, x.vars)
			if x.depth+1 > t.depth {
				t.depth = x.depth + 1
			}
		}
	}
	c.tab[k] = t
	c.bounds(t)
	return t
}

func (c *Ctx) bounds(t *Term) {
	switch t.sk {
	case SBV:
		t.umin, t.umax = 0, wmask(t.w)
		switch t.op {
		case OConst:
			t.umin, t.umax = t.u, t.u
		case OZext:
			t.umin, t.umax = t.a.umin, t.a.umax
		case OTrunc:
			if t.a.umax <= wmask(t.w) {
				t.umin, t.umax = t.a.umin, t.a.umax
			}
		case OSext:
			if t.a.umax < 1<<(t.a.w-1) {
				t.umin, t.umax = t.a.umin, t.a.umax
			}
		case OIte:
			t.umin, t.umax = min(t.b.umin, t.c.umin), max(t.b.umax, t.c.umax)
		case OAdd:
			hi, carry := bits.Add64(t.a.umax, t.b.umax, 0)
			if carry == 0 && hi <= wmask(t.w) {
				t.umin, t.umax = t.a.umin+t.b.umin, hi
			}
		case OSub:
			if t.a.umin >= t.b.umax {
				t.umin, t.umax = t.a.umin-t.b.umax, t.a.umax-t.b.umin
			}
		case OBAnd:
			t.umax = min(t.a.umax, t.b.umax)
		case OBOr:
			m := uint64(1)<<bits.Len64(t.a.umax|t.b.umax) - 1
			t.umax = min(t.umax, m)
			t.umin = max(t.a.umin, t.b.umin)
		case OLShr:
			if t.b.op == OConst && t.b.u < 64 {
				t.umin, t.umax = t.a.umin>>t.b.u, t.a.umax>>t.b.u
			}
		case OShl:
			if t.b.op == OConst && t.b.u < 64 && t.a.umax <= wmask(t.w)>>t.b.u {
				t.umin, t.umax = t.a.umin<<t.b.u, t.a.umax<<t.b.u
			}
		case OURem:
			if t.b.op == OConst && t.b.u > 0 {
				t.umax = min(t.a.umax, t.b.u-1)
			}
		case OUDiv:
			if t.b.op == OConst && t.b.u > 0 {
				t.umin, t.umax = t.a.umin/t.b.u, t.a.umax/t.b.u
			}
		}
	case SReal, SInt:
		switch t.op {
		case OAAdd:
			if t.a.bnd && t.b.bnd {
				t.bnd, t.lo, t.hi = true, t.a.lo+t.b.lo, t.a.hi+t.b.hi
			}
			t.grid = max(t.a.grid, t.b.grid)
			t.exact = t.a.exact && t.b.exact
		case OASub:
			if t.a.bnd && t.b.bnd {
				t.bnd, t.lo, t.hi = true, t.a.lo-t.b.hi, t.a.hi-t.b.lo
			}
			t.grid = max(t.a.grid, t.b.grid)
			t.exact = t.a.exact && t.b.exact
		case OANeg:
			if t.a.bnd {
				t.bnd, t.lo, t.hi = true, -t.a.hi, -t.a.lo
			}
			t.grid, t.exact = t.a.grid, t.a.exact
		case OAMul:
			if t.a.bnd && t.b.bnd {
				p := []float64{t.a.lo * t.b.lo, t.a.lo * t.b.hi, t.a.hi * t.b.lo, t.a.hi * t.b.hi}
				t.bnd, t.lo, t.hi = true, p[0], p[0]
				for _, x := range p {
					t.lo, t.hi = math.Min(t.lo, x), math.Max(t.hi, x)
				}
			}
			t.grid = t.a.grid + t.b.grid
			t.exact = t.a.exact && t.b.exact
		case OIte:
			if t.b.bnd && t.c.bnd {
				t.bnd, t.lo, t.hi = true, math.Min(t.b.lo, t.c.lo), math.Max(t.b.hi, t.c.hi)
			}
			t.grid = max(t.b.grid, t.c.grid)
			t.exact = t.b.exact && t.c.exact
		case OFloor, OToReal:
			if t.a.bnd {
				t.bnd, t.lo, t.hi = true, math.Floor(t.a.lo), math.Ceil(t.a.hi)
			}
			t.grid, t.exact = 0, t.a.exact
		}
		if t.exact && t.op != OConst && t.op != OVar {
			m := math.Max(math.Abs(t.lo), math.Abs(t.hi))
			if !t.bnd || math.Log2(m+1)+float64(t.grid) > 52 {
				t.exact = false
			}
		}
	}
}

func (c *Ctx) newVar(name string, sk SortKind, w uint8) *Term {
	k := tkey{op: OVar, sk: sk, w: w, s: name}
	t := c.mk(k, nil, nil, nil)
	if t.vars != nil {
		return t
	}
	n := c.varsN
	c.varsN++
	t.vars = make([]uint64, n/64+1)
	t.vars[n/64] |= 1 << (n % 64)
	t.nv = n
	c.vlist = append(c.vlist, t)
	return t
}

// VarBV makes a bit-vector variable within [lo, hi].
func (c *Ctx) VarBV(name string, w uint8, lo, hi uint64) *Term {
	t := c.newVar(name, SBV, w)
	t.umin, t.umax = lo, hi
	return t
}

func (c *Ctx) VarReal(name string, lo, hi float64, grid int) *Term {
	t := c.newVar(name, SReal, 0)
	t.bnd, t.lo, t.hi = true, lo, hi
	t.exact, t.grid = true, grid
	return t
}

func (c *Ctx) VarInt(name string, lo, hi int64) *Term {
	t := c.newVar(name, SInt, 0)
	t.bnd, t.lo, t.hi = true, float64(lo), float64(hi)
	t.exact = true
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(u uint64, w uint8) *Term {
	return c.mk(tkey{op: OConst, sk: SBV, w: w, u: u & wmask(w)}, nil, nil, nil)
}

func (c *Ctx) Rat(r *big.Rat, sk SortKind) *Term {
	s := r.RatString()
	k := tkey{op: OConst, sk: sk, s: s}
	k.a, k.b, k.c = -1, -1, -1
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(tkey{op: OConst, sk: sk, s: s}, nil, nil, nil)
	t.rat = r
	f, _ := r.Float64()
	t.bnd, t.lo, t.hi = true, f, f
	// dyadic?
	d := r.Denom()
	if tz := d.TrailingZeroBits(); d.BitLen() == int(tz)+1 && tz <= 40 && math.Abs(f) < 1<<52 {
		t.exact, t.grid = true, int(tz)
	}
	return t
}

func (c *Ctx) Real(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return c.Rat(r, SReal)
}

func (c *Ctx) IntC(i int64) *Term { return c.Rat(new(big.Rat).SetInt64(i), SInt) }

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == ONot:
		return a.a
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	case OALt:
		return c.ALe(a.b, a.a)
	case OALe:
		return c.ALt(a.b, a.a)
	}
	return c.mk(tkey{op: ONot, sk: SBool}, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	switch {
	case a == c.False || b == c.False:
		return c.False
	case a == c.True:
		return b
	case b == c.True || a == b:
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OAnd, sk: SBool}, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	switch {
	case a == c.True || b == c.True:
		return c.True
	case a == c.False:
		return b
	case b == c.False || a == b:
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OOr, sk: SBool}, a, b, nil)
}

func (c *Ctx) OrN(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return c.False
	case 1:
		return ts[0]
	}
	return c.Or(c.OrN(ts[:len(ts)/2]), c.OrN(ts[len(ts)/2:]))
}

func (c *Ctx) AndN(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return c.True
	case 1:
		return ts[0]
	}
	return c.And(c.AndN(ts[:len(ts)/2]), c.AndN(ts[len(ts)/2:]))
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	switch {
	case p == c.True:
		return a
	case p == c.False:
		return b
	case a == b:
		return a
	}
	if a.sk == SBool {
		if a == c.True {
			return c.Or(p, b)
		}
		if a == c.False {
			return c.And(c.Not(p), b)
		}
		if b == c.True {
			return c.Or(c.Not(p), a)
		}
		if b == c.False {
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		p, a, b = p.a, b, a
	}
	return c.mk(tkey{op: OIte, sk: a.sk, w: a.w}, p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sk != b.sk || a.w != b.w {
		panic(fmt.Sprintf("eq: sorts differ: %v/%d %v/%d", a.sk, a.w, b.sk, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.False // hash-consed, same sort, different
	}
	if a.op == OConst {
		a, b = b, a
	}
	switch a.sk {
	case SBool:
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	case SBV:
		if a.umax < b.umin || b.umax < a.umin {
			return c.False
		}
		if b.op == OConst {
			switch a.op {
			case OBAnd:
				// (1<<x) & C == 0
				if sh := a.a; b.u == 0 && a.b.op == OConst && sh.op == OShl && sh.a.op == OConst && sh.a.u == 1 {
					var ts []*Term
					for i := 0; i < int(a.w); i++ {
						if a.b.u>>i&1 != 0 {
							ts = append(ts, c.Not(c.Eq(sh.b, c.BV(uint64(i), a.w))))
						}
					}
					return c.AndN(ts)
				}
			case OZext:
				return c.Eq(a.a, c.BV(b.u, a.a.w))
			case OSext:
				if a.a.umax < 1<<(a.a.w-1) {
					return c.Eq(a.a, c.BV(b.u, a.a.w))
				}
			case OTrunc:
				if a.a.umax <= wmask(a.w) {
					return c.Eq(a.a, c.BV(b.u, a.a.w))
				}
			case OAdd:
				if a.b.op == OConst {
					return c.Eq(a.a, c.BV(b.u-a.b.u, a.w))
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	case SReal, SInt:
		if less(a, b) || less(b, a) {
			return c.False
		}
		if a.op == OToReal && b.op == OToReal {
			return c.Eq(a.a, b.a)
		}
		if a.op == OToReal && b.op == OConst {
			if b.rat.IsInt() {
				return c.Eq(a.a, c.Rat(b.rat, SInt))
			}
			return c.False
		}
	}
	if a.op == OIte && b.op == OConst && (a.b.op == OConst || a.c.op == OConst) {
		return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(tkey{op: OEq, sk: SBool}, a, b, nil)
}

func sx(u uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(u<<s) >> s
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.umax < b.umin {
		return c.True
	}
	if a.umin >= b.umax {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.op == OConst && b.u <= wmask(a.a.w) {
		return c.Ult(a.a, c.BV(b.u, a.a.w))
	}
	if b.op == OZext && a.op == OConst && a.u <= wmask(b.a.w) {
		return c.Ult(c.BV(a.u, b.a.w), b.a)
	}
	return c.mk(tkey{op: OUlt, sk: SBool}, a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a.umax <= b.umin {
		return c.True
	}
	if a.umin > b.umax {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	if a.op == OZext && b.op == OConst && b.u <= wmask(a.a.w) {
		return c.Ule(a.a, c.BV(b.u, a.a.w))
	}
	if b.op == OZext && a.op == OConst && a.u <= wmask(b.a.w) {
		return c.Ule(c.BV(a.u, b.a.w), b.a)
	}
	return c.mk(tkey{op: OUle, sk: SBool}, a, b, nil)
}

func nonneg(t *Term) bool { return t.umax < 1<<(t.w-1) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.u, a.w) < sx(b.u, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if nonneg(a) && b.op == OConst && sx(b.u, b.w) < 0 {
		return c.False
	}
	if nonneg(b) && a.op == OConst && sx(a.u, a.w) < 0 {
		return c.True
	}
	return c.mk(tkey{op: OSlt, sk: SBool}, a, b, nil)
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.u, a.w) <= sx(b.u, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ule(a, b)
	}
	if nonneg(a) && b.op == OConst && sx(b.u, b.w) < 0 {
		return c.False
	}
	if nonneg(b) && a.op == OConst && sx(a.u, a.w) < 0 {
		return c.True
	}
	return c.mk(tkey{op: OSle, sk: SBool}, a, b, nil)
}

func bvfold(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := wmask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1, true
			}
			return m, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

// constTree counts the leaves of an ite of constants, 0 if it is none or has
// more than max.
func constTree(t *Term, max int) int {
	switch {
	case t.op == OConst:
		return 1
	case t.op != OIte || max < 2:
		return 0
	}
	n := constTree(t.b, max-1)
	if n == 0 {
		return 0
	}
	m := constTree(t.c, max-n)
	if m == 0 {
		return 0
	}
	return n + m
}

func (c *Ctx) BVOp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bvop: widths %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		if u, ok := bvfold(op, a.u, b.u, a.w); ok {
			return c.BV(u, a.w)
		}
	}
	switch op {
	case OAdd, OBAnd, OBOr, OBXor, OMul:
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.u == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.BVOp(OAdd, a.a, c.BV(a.b.u+b.u, a.w))
			}
		case OSub:
			if a.umin < b.u { // keep interval-friendly form otherwise
				return c.BVOp(OAdd, a, c.BV(-b.u, a.w))
			}
			if b.u == 0 {
				return a
			}
		case OMul, OUDiv, OSDiv:
			if b.u == 1 {
				return a
			}
			if b.u == 0 && op == OMul {
				return b
			}
		case OBAnd:
			if b.u == 0 {
				return b
			}
			if b.u == wmask(a.w) || (a.umax <= b.u && b.u&(b.u+1) == 0) {
				return a
			}
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if b.u == 0 {
				return a
			}
		}
	}
	if op == OSub && a == b {
		return c.BV(0, a.w)
	}
	// push an operation on constants through an ite of constants
	if b.op == OConst && a.op == OIte && a.b.op == OConst && (a.c.op == OConst || a.c.op == OIte) && a.depth < 64 {
		return c.Ite(a.a, c.BVOp(op, a.b, b), c.BVOp(op, a.c, b))
	}
	if a.w >= 16 && (a.op == OIte || b.op == OIte) {
		if n := constTree(a, 16) * constTree(b, 16); 0 < n && n <= 16 {
			if a.op == OIte {
				return c.Ite(a.a, c.BVOp(op, a.b, b), c.BVOp(op, a.c, b))
			}
			return c.Ite(b.a, c.BVOp(op, a, b.b), c.BVOp(op, a, b.c))
		}
	}
	if op == OUDiv || op == OSDiv || op == OURem || op == OSRem {
		if nonneg(a) && nonneg(b) {
			if op == OSDiv {
				op = OUDiv
			}
			if op == OSRem {
				op = OURem
			}
		}
	}
	if op == OAShr && nonneg(a) {
		op = OLShr
	}
	return c.mk(tkey{op: op, sk: SBV, w: a.w}, a, b, nil)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.BV(^a.u, a.w)
	}
	return c.mk(tkey{op: OBNot, sk: SBV, w: a.w}, a, nil, nil)
}

func (c *Ctx) BNeg(a *Term) *Term {
	if a.op == OConst {
		return c.BV(-a.u, a.w)
	}
	if a.op == OIte && constTree(a, 16) > 0 {
		return c.Ite(a.a, c.BNeg(a.b), c.BNeg(a.c))
	}
	return c.mk(tkey{op: ONeg, sk: SBV, w: a.w}, a, nil, nil)
}

// Resize converts a BV to another width.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		if a.op == OConst {
			return c.BV(a.u, w)
		}
		if (a.op == OZext || a.op == OSext) && a.a.w >= w {
			return c.Resize(a.a, w, false)
		}
		if a.op == OZext {
			return c.Resize(a.a, w, false)
		}
		if a.op == OSext {
			return c.Resize(a.a, w, true)
		}
		if a.op == OIte && a.b.op == OConst {
			return c.Ite(a.a, c.Resize(a.b, w, signed), c.Resize(a.c, w, signed))
		}
		return c.mk(tkey{op: OTrunc, sk: SBV, w: w}, a, nil, nil)
	case a.op == OIte && a.w >= 16 && constTree(a, 16) > 0:
		return c.Ite(a.a, c.Resize(a.b, w, signed), c.Resize(a.c, w, signed))
	case signed && !nonneg(a):
		if a.op == OConst {
			return c.BV(uint64(sx(a.u, a.w)), w)
		}
		return c.mk(tkey{op: OSext, sk: SBV, w: w}, a, nil, nil)
	default:
		if a.op == OConst {
			return c.BV(a.u, w)
		}
		if a.op == OZext {
			a = a.a
		}
		return c.mk(tkey{op: OZext, sk: SBV, w: w}, a, nil, nil)
	}
}

// ---- Real / Int arithmetic

func (c *Ctx) AOp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		r := new(big.Rat)
		switch op {
		case OAAdd:
			return c.Rat(r.Add(a.rat, b.rat), a.sk)
		case OASub:
			return c.Rat(r.Sub(a.rat, b.rat), a.sk)
		case OAMul:
			return c.Rat(r.Mul(a.rat, b.rat), a.sk)
		case OADiv:
			if b.rat.Sign() != 0 && a.sk == SReal {
				return c.Rat(r.Quo(a.rat, b.rat), a.sk)
			}
		}
	}
	switch op {
	case OAAdd:
		if a.op == OConst && a.rat.Sign() == 0 {
			return b
		}
		if b.op == OConst && b.rat.Sign() == 0 {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OASub:
		if a == b {
			return c.Rat(new(big.Rat), a.sk)
		}
		if b.op == OConst && b.rat.Sign() == 0 {
			return a
		}
		// (x+y)-y, (x+y)-x
		if a.op == OAAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	case OAMul:
		if b.op == OConst {
			a, b = b, a
		}
		if a.op == OConst {
			if a.rat.Sign() == 0 {
				return a
			}
			if a.rat.IsInt() && a.rat.Num().IsInt64() && a.rat.Num().Int64() == 1 {
				return b
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OADiv:
		if b.op == OConst && b.rat.Sign() != 0 && a.sk == SReal {
			return c.AOp(OAMul, c.Rat(new(big.Rat).Inv(b.rat), SReal), a)
		}
	}
	return c.mk(tkey{op: op, sk: a.sk}, a, b, nil)
}

func (c *Ctx) ANeg(a *Term) *Term {
	if a.op == OConst {
		return c.Rat(new(big.Rat).Neg(a.rat), a.sk)
	}
	if a.op == OANeg {
		return a.a
	}
	return c.mk(tkey{op: OANeg, sk: a.sk}, a, nil, nil)
}

// less reports whether a < b certainly, from their bounds. The bounds of
// inexact terms are floating-point themselves, hence the margin.
func less(a, b *Term) bool {
	if !a.bnd || !b.bnd {
		return false
	}
	if a.exact && b.exact {
		return a.hi < b.lo
	}
	return a.hi+1e-6*(1+math.Abs(a.hi)+math.Abs(b.lo)) < b.lo
}

func (c *Ctx) ALt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.rat.Cmp(b.rat) < 0)
	}
	if less(a, b) {
		return c.True
	}
	if less(b, a) {
		return c.False
	}
	if a.op == OToReal && b.op == OToReal {
		return c.ALt(a.a, b.a)
	}
	return c.mk(tkey{op: OALt, sk: SBool}, a, b, nil)
}

func (c *Ctx) ALe(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.rat.Cmp(b.rat) <= 0)
	}
	if less(a, b) {
		return c.True
	}
	if less(b, a) {
		return c.False
	}
	if a.op == OToReal && b.op == OToReal {
		return c.ALe(a.a, b.a)
	}
	return c.mk(tkey{op: OALe, sk: SBool}, a, b, nil)
}

// Floor: Real -> Int.
func (c *Ctx) Floor(a *Term) *Term {
	if a.op == OConst {
		return c.Rat(new(big.Rat).SetInt(ratFloor(a.rat)), SInt)
	}
	if a.op == OToReal {
		return a.a
	}
	return c.mk(tkey{op: OFloor, sk: SInt}, a, nil, nil)
}

func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean; denom > 0 => floor
	return q
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.op == OConst {
		return c.Rat(a.rat, SReal)
	}
	return c.mk(tkey{op: OToReal, sk: SReal}, a, nil, nil)
}

// UF applies an uninterpreted real function.
func (c *Ctx) UF(name string, args []*Term, lo, hi float64) *Term {
	var sb strings.Builder
	sig := "("
	sb.WriteString(name)
	var vars []uint64
	depth := int32(0)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		sig += " " + sortName(a)
		vars = orset(vars, a.vars)
		depth = max(depth, a.depth)
	}
	k := tkey{op: OUF, sk: SReal, s: sb.String()}
	k.a, k.b, k.c = -1, -1, -1
	if t, ok := c.tab[k]; ok {
		return t
	}
	// each application owns a pseudo variable so that slicing sees it
	t := c.mk(k, nil, nil, nil)
	t.name = name
	t.args = args
	n := c.varsN
	c.varsN++
	own := make([]uint64, n/64+1)
	own[n/64] |= 1 << (n % 64)
	t.nv = n
	c.vlist = append(c.vlist, t)
	t.vars = orset(vars, own)
	t.depth = depth + 1
	t.bnd, t.lo, t.hi = true, lo, hi
	c.ufs[name] = sig + ") Real"
	return t
}

// ---- printing

func sortName(t *Term) string {
	switch t.sk {
	case SBool:
		return "Bool"
	case SBV:
		return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	case SReal:
		return "Real"
	}
	return "Int"
}

func ratSMT(r *big.Rat, sk SortKind) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	switch {
	case sk == SInt:
		s = a.Num().String()
	case a.IsInt():
		s = a.Num().String() + ".0"
	default:
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAAdd: "+", OASub: "-", OAMul: "*", OADiv: "/", OANeg: "-", OALt: "<", OALe: "<=",
	OFloor: "to_int", OToReal: "to_real",
}

// leaf returns the printed form of t if it needs no definition.
func (t *Term) leaf() (string, bool) {
	switch t.op {
	case OConst:
		switch t.sk {
		case SBool:
			if t.u != 0 {
				return "true", true
			}
			return "false", true
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.u, t.w), true
		default:
			return ratSMT(t.rat, t.sk), true
		}
	case OVar:
		return "v" + strconv.Itoa(int(t.id)), true
	}
	return "", false
}

func (t *Term) head() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
	case OTrunc:
		return fmt.Sprintf("(_ extract %d 0)", t.w-1)
	case OUF:
		return "uf_" + t.name
	}
	return opNames[t.op]
}

func (t *Term) kids() []*Term {
	if t.op == OUF {
		return t.args
	}
	var k []*Term
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			k = append(k, x)
		}
	}
	return k
}

func (t *Term) String() string {
	if s, ok := t.leaf(); ok {
		if t.op == OVar {
			return t.name
		}
		return s
	}
	if t.depth > 12 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteString("(" + t.head())
	for _, k := range t.kids() {
		sb.WriteString(" " + k.String())
	}
	sb.WriteString(")")
	return sb.String()
}

// ---- evaluation under a model

type Model struct {
	bv  map[int32]uint64   // by term id: BV and Bool variables
	num map[int32]*big.Rat // Real, Int variables and UF applications
}

func NewModel() *Model {
	return &Model{bv: map[int32]uint64{}, num: map[int32]*big.Rat{}}
}

func (m *Model) clone() *Model {
	n := &Model{bv: make(map[int32]uint64, len(m.bv)), num: make(map[int32]*big.Rat, len(m.num))}
	for k, v := range m.bv {
		n.bv[k] = v
	}
	for k, v := range m.num {
		n.num[k] = v
	}
	return n
}

type ev struct {
	u uint64
	r *big.Rat
}

type evaluator struct {
	m    *Model
	memo map[int32]ev
}

func (e *evaluator) eval(t *Term) ev {
	switch t.op {
	case OConst:
		return ev{t.u, t.rat}
	case OVar, OUF:
		if t.sk == SReal || t.sk == SInt {
			r := e.m.num[t.id]
			if r == nil {
				// default: the bound nearest to zero
				r = new(big.Rat)
				if t.bnd {
					if t.lo > 0 {
						r.SetFloat64(t.lo)
					} else if t.hi < 0 {
						r.SetFloat64(t.hi)
					}
				}
			}
			return ev{0, r}
		}
		u, ok := e.m.bv[t.id]
		if !ok && t.sk == SBV {
			u = t.umin
		}
		return ev{u: u}
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval1(t *Term) ev {
	switch t.op {
	case ONot:
		return ev{u: 1 - e.eval(t.a).u}
	case OAnd:
		if e.eval(t.a).u == 0 {
			return ev{}
		}
		return e.eval(t.b)
	case OOr:
		if e.eval(t.a).u == 1 {
			return ev{u: 1}
		}
		return e.eval(t.b)
	case OIte:
		if e.eval(t.a).u == 1 {
			return e.eval(t.b)
		}
		return e.eval(t.c)
	case OEq:
		a, b := e.eval(t.a), e.eval(t.b)
		if t.a.sk == SReal || t.a.sk == SInt {
			return ev{u: b2u(a.r.Cmp(b.r) == 0)}
		}
		return ev{u: b2u(a.u == b.u)}
	case OUlt:
		return ev{u: b2u(e.eval(t.a).u < e.eval(t.b).u)}
	case OUle:
		return ev{u: b2u(e.eval(t.a).u <= e.eval(t.b).u)}
	case OSlt:
		return ev{u: b2u(sx(e.eval(t.a).u, t.a.w) < sx(e.eval(t.b).u, t.a.w))}
	case OSle:
		return ev{u: b2u(sx(e.eval(t.a).u, t.a.w) <= sx(e.eval(t.b).u, t.a.w))}
	case OZext:
		return ev{u: e.eval(t.a).u}
	case OSext:
		return ev{u: uint64(sx(e.eval(t.a).u, t.a.w)) & wmask(t.w)}
	case OTrunc:
		return ev{u: e.eval(t.a).u & wmask(t.w)}
	case OBNot:
		return ev{u: ^e.eval(t.a).u & wmask(t.w)}
	case ONeg:
		return ev{u: -e.eval(t.a).u & wmask(t.w)}
	case OALt:
		return ev{u: b2u(e.eval(t.a).r.Cmp(e.eval(t.b).r) < 0)}
	case OALe:
		return ev{u: b2u(e.eval(t.a).r.Cmp(e.eval(t.b).r) <= 0)}
	case OFloor:
		return ev{r: new(big.Rat).SetInt(ratFloor(e.eval(t.a).r))}
	case OToReal:
		return ev{r: e.eval(t.a).r}
	case OANeg:
		return ev{r: new(big.Rat).Neg(e.eval(t.a).r)}
	case OAAdd, OASub, OAMul, OADiv:
		a, b := e.eval(t.a).r, e.eval(t.b).r
		r := new(big.Rat)
		switch t.op {
		case OAAdd:
			r.Add(a, b)
		case OASub:
			r.Sub(a, b)
		case OAMul:
			r.Mul(a, b)
		case OADiv:
			if b.Sign() == 0 {
				return ev{r: r}
			}
			r.Quo(a, b)
		}
		return ev{r: r}
	}
	u, ok := bvfold(t.op, e.eval(t.a).u, e.eval(t.b).u, t.w)
	if !ok {
		panic("eval: " + t.String())
	}
	return ev{u: u}
}
