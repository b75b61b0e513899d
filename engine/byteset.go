package main

import "math/bits"

// A condition on one symbolic byte is a set of byte values; whether such
// conditions can hold together is decided on these sets, without the solver.

type byteSet [4]uint64

func (b *byteSet) and(o *byteSet) byteSet {
	return byteSet{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}

func (b *byteSet) or(o *byteSet) byteSet {
	return byteSet{b[0] | o[0], b[1] | o[1], b[2] | o[2], b[3] | o[3]}
}

func (b *byteSet) not() byteSet { return byteSet{^b[0], ^b[1], ^b[2], ^b[3]} }

func (b *byteSet) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }

func (b *byteSet) has(u uint64) bool { return b[u>>6&3]>>(u&63)&1 == 1 }

// min is the smallest member.
func (b *byteSet) min() uint64 {
	for i, w := range b {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}

// oneByte returns the byte variable that is t's only variable.
func (c *Ctx) oneByte(t *Term) *Term {
	n := -1
	for i, w := range t.vars {
		if w == 0 {
			continue
		}
		if n >= 0 || w&(w-1) != 0 {
			return nil
		}
		n = i*64 + bits.TrailingZeros64(w)
	}
	if n < 0 {
		return nil
	}
	v := c.vlist[n]
	if v.op != OVar || v.sk != SBV || v.w != 8 {
		return nil
	}
	return v
}

// setOf is the set of values of v for which t holds.
func (c *Ctx) setOf(t, v *Term) *byteSet {
	if s, ok := c.sets[t.id]; ok {
		return s
	}
	var r byteSet
	switch t.op {
	case OConst:
		if t.u == 1 {
			r = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
	case ONot:
		r = c.setOf(t.a, v).not()
	case OAnd:
		r = c.setOf(t.a, v).and(c.setOf(t.b, v))
	case OOr:
		r = c.setOf(t.a, v).or(c.setOf(t.b, v))
	default:
		m := NewModel()
		for u := uint64(0); u < 256; u++ {
			m.bv[v.id] = u
			e := evaluator{m: m, memo: map[int32]ev{}}
			if e.eval(t).u == 1 {
				r[u>>6] |= 1 << (u & 63)
			}
		}
	}
	c.sets[t.id] = &r
	return &r
}

// byteCheck decides conds if they are all about one byte.
func (c *Ctx) byteCheck(conds []*Term) (res Result, m *Model, ok bool) {
	if len(conds) == 0 {
		return Unknown, nil, false
	}
	var v *Term
	for i, t := range conds {
		w := c.oneByte(t)
		if w == nil || i > 0 && w != v {
			return Unknown, nil, false
		}
		v = w
	}
	all := byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	for u := uint64(0); u < 256; u++ {
		if u < v.umin || u > v.umax {
			all[u>>6] &^= 1 << (u & 63)
		}
	}
	for _, t := range conds {
		all = all.and(c.setOf(t, v))
	}
	if all.empty() {
		return Unsat, nil, true
	}
	m = NewModel()
	m.bv[v.id] = all.min()
	return Sat, m, true
}
