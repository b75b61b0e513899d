package typeset

import (
	nd "github.com/go-latex/latex/internal/verifnd"
)

// nestings are the kinds of pieces nested in turn; side 1 nests in the second
// argument. Shrinking ones are nested up to the number of sizes only.
var nestings = []struct {
	kinds  []int
	side   int
	shrink bool
}{
	{[]int{kGroup}, 0, false},
	{[]int{kFuncArg}, 0, false},
	{[]int{kDFrac}, 0, false},
	{[]int{kDFrac}, 1, false},
	{[]int{kSqrt}, 1, false},
	{[]int{kRoot}, 1, false},
	{[]int{kOver}, 0, false},
	{[]int{kGroup, kMath}, 0, false},
	{[]int{kOver, kSqrt}, 0, false},
	{[]int{kGroup, kFuncArg, kOver}, 0, false},
	{[]int{kFrac}, 0, true},
	{[]int{kTFrac}, 1, true},
	{[]int{kBinom}, 0, true},
	{[]int{kBinom, kDFrac}, 1, true},
	{[]int{kFrac, kGroup}, 1, true},
}

// one is a list of one letter.
func (mk *maker) one() []*piece {
	mk.src += "{"
	r := []*piece{{kind: kWord, text: "x", pos: len(mk.src)}}
	mk.src += "x}"
	return r
}

// nest is a piece nested d deep around an arbitrary letter.
func (mk *maker) nest(kinds []int, side, d int) *piece {
	p := &piece{kind: kWord, pos: len(mk.src)}
	if d == 0 {
		p.text = string([]byte{nd.ByteIn(lower)})
		mk.src += p.text
		return p
	}
	p.kind = kinds[0]
	kinds = append(append([]int{}, kinds[1:]...), kinds[0])
	in := func() []*piece {
		mk.src += "{"
		r := []*piece{mk.nest(kinds, side, d-1)}
		mk.src += "}"
		return r
	}
	switch p.kind {
	case kGroup:
		p.a = in()
	case kMath:
		mk.src += "$"
		p.a = []*piece{mk.nest(kinds, side, d-1)}
		mk.src += "$"
	case kFuncArg:
		p.text = `\exp`
		mk.src += p.text
		p.a = in()
	case kOver:
		mk.src += `\overline`
		p.a = in()
	case kSqrt:
		mk.src += `\sqrt`
		p.b = in()
	case kRoot:
		mk.src += `\sqrt[`
		p.a = []*piece{{kind: kWord, text: "x", pos: len(mk.src)}}
		mk.src += "x]"
		p.b = in()
	default:
		mk.src += map[int]string{kFrac: `\frac`, kTFrac: `\tfrac`, kDFrac: `\dfrac`, kBinom: `\binom`}[p.kind]
		if side == 0 {
			p.a = in()
			p.b = mk.one()
		} else {
			p.a = mk.one()
			p.b = in()
		}
	}
	return p
}

// repeated are the kinds of pieces repeated.
var repeated = []int{kWord, kDigit, kDot, kBinary, kRel, kDelim, kMacro, kSpace, kFunc, kFuncArg, kGroup, kFrac, kDFrac, kBinom, kSqrt, kOver}

// run is a piece repeated n times between letters, the first and the last of
// which are arbitrary.
func (mk *maker) run(k, n int) []*piece {
	letter := func() *piece {
		p := &piece{kind: kWord, text: string([]byte{nd.ByteIn(lower)}), pos: len(mk.src)}
		mk.src += p.text
		return p
	}
	r := []*piece{letter()}
	for i := 0; i < n; i++ {
		mk.src += " "
		p := &piece{kind: k, pos: len(mk.src)}
		switch k {
		case kFuncArg:
			p.text = `\exp`
			mk.src += p.text
			p.a = mk.one()
		case kGroup:
			p.a = mk.one()
		case kFrac, kDFrac, kBinom:
			mk.src += map[int]string{kFrac: `\frac`, kDFrac: `\dfrac`, kBinom: `\binom`}[k]
			p.a = mk.one()
			p.b = mk.one()
		case kSqrt:
			mk.src += `\sqrt`
			p.b = mk.one()
		case kOver:
			mk.src += `\overline`
			p.a = mk.one()
		default:
			p = mk.piece(k, 0)
		}
		r = append(r, p)
	}
	mk.src += " "
	return append(r, letter())
}

// Long: long and deep expressions.
func Long() {
	mk := &maker{plain: true}
	m := &piece{kind: kMath, pos: 0}
	mk.src = "$"
	if i := nd.Choose(len(nestings) + len(repeated)); i < len(nestings) {
		n := nestings[i]
		depths := []int{4, 9, 17, 33, 65}
		if n.shrink {
			depths = []int{2, 4, 5, 5, 5}
		}
		m.a = []*piece{mk.nest(n.kinds, n.side, depths[nd.Choose(nd.Param("n"))])}
	} else {
		m.a = mk.run(repeated[i-len(nestings)], []int{9, 17, 33, 65, 130}[nd.Choose(nd.Param("n"))])
	}
	mk.src += "$"
	t := set(newBackend(nd.Param("sym") == 1), mk.src, size(), []*piece{m})
	switch nd.Param("what") {
	case 14:
		t.glyphs()
	case 15:
		t.across()
	default:
		t.all()
	}
	nd.Reach("typeset")
}
