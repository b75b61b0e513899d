package typeset

import (
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

// typesetting is a source, its meaning, and what came of it.
type typesetting struct {
	be    *backend
	src   string
	ok    bool
	box   tex.Node
	want  frag
	drawn []op
}

// set typesets an expression and its reference.
func set(be *backend, src string, size float64, ps []*piece) *typesetting {
	t := &typesetting{be: be, src: src}
	nd.Observe(src)
	box, err := mtex.Parse(src, size, 72, be)
	nd.Assert(err == nil, "an expression of the supported subset is rejected")
	nd.Assert(box != nil, "no layout and no error")
	t.box = box
	tree, ok := box.(tex.Tree)
	nd.Assert(ok, "the layout is not a box")
	be.ops = nil
	var sh tex.Ship
	sh.Call(0, 0, tree)
	t.drawn = be.ops
	r := &ref{be: be, src: src, size: size}
	t.want = r.line(r.items(ps, style{"rm", false})...)
	return t
}

// glyphs asserts that each symbol is drawn once, in order and in its style.
func (t *typesetting) glyphs() {
	j := 0
	for _, w := range t.want.draw {
		if w.rect {
			continue
		}
		for j < len(t.drawn) && t.drawn[j].rect {
			j++
		}
		nd.Assert(j < len(t.drawn), "a symbol is not drawn")
		nd.Assert(t.drawn[j].sym == w.sym, "a symbol is missing, added, altered or out of order")
		nd.Assert(t.drawn[j].typ == w.typ, "a symbol is drawn in another style")
		j++
	}
	for ; j < len(t.drawn); j++ {
		nd.Assert(t.drawn[j].rect, "a symbol is drawn more than once")
	}
}

// places asserts the horizontal positions.
func (t *typesetting) across() {
	t.glyphs()
	j := 0
	for _, w := range t.want.draw {
		if w.rect {
			continue
		}
		for t.drawn[j].rect {
			j++
		}
		nd.Assert(within(t.drawn[j].x, w.x, w.tx), "the space before a symbol is not what it should be")
		j++
	}
	nd.Assert(nd.FNear(t.box.Width(), t.want.w), "the space after the last symbol is not what it should be")
}

// all asserts everything.
func (t *typesetting) all() {
	t.across()
	nd.Assert(len(t.drawn) == len(t.want.draw), "the number of bars is not what it should be")
	h := t.want.h
	for i, w := range t.want.draw {
		g := t.drawn[i]
		nd.Assert(g.rect == w.rect, "bars and symbols are drawn in another order")
		if w.rect {
			nd.Assert(nd.And(within(g.x, w.x, w.tx), within(g.x2, w.x2, w.tx)), "a bar is not as wide as what it covers, or not over it")
			nd.Assert(nd.FNear(g.y2-g.y, w.y2-w.y), "the thickness of a bar is not the font's")
			nd.Assert(nd.Or(within(g.y, h+w.y, w.ty), within(g.y, h+w.y+w.bar, w.ty)), "a bar is not where the font puts it")
			continue
		}
		nd.Assert(within(g.y, h+w.y, w.ty), "a symbol is above or below its baseline")
		nd.Assert(nd.FNear(g.size, w.size), "a symbol is drawn in another size")
	}
	nd.Assert(nd.FNear(t.box.Height(), t.want.h), "the height is not what it should be")
	nd.Assert(nd.FNear(t.box.Depth(), t.want.d), "the depth is not what it should be")
}

// size is the font size, in points.
func size() float64 { return []float64{8, 10, 12.5, 7}[nd.Param("size")] }

var kindSets = [][]int{
	{kWord, kDigit, kDot, kBinary, kRel, kDelim, kMacro, kSpace, kFunc, kFuncArg, kGroup, kFrac, kBinom, kSqrt, kRoot, kOver, kMath},
	{kWord, kBinary, kFunc, kFuncArg, kGroup, kFrac, kMath},
	{kWord, kDigit, kDot, kBinary, kRel, kDelim, kMacro, kSpace, kFunc, kGroup},
	{kWord, kBinary, kFrac, kTFrac, kDFrac, kBinom, kSqrt, kRoot, kOver},
	{kWord, kFrac, kDFrac, kBinom, kSqrt, kRoot, kOver},
	{kWord, kDigit, kMacro, kBlank, kFunc, kFuncArg, kFrac, kOver, kMath},
	{kWord, kFuncArg, kGroup, kFrac, kRoot, kMath},
	{kFrac, kRoot, kOver},
	{kWord, kFuncArg, kFrac, kMath},
	{kBinom, kSqrt, kDFrac},
	{kWord, kBinary, kDot, kSpace, kFuncArg, kGroup, kSqrt},
	{kWord, kGroup, kMath},
	{kWord, kFuncArg, kMath},
	{kWord, kRoot, kMath},
}

// expression makes an expression of math between text.
func expression(letters bool) (*maker, []*piece) {
	mk := &maker{letters: letters, kinds: kindSets[nd.Param("kinds")], width: nd.Param("width")}
	var ps []*piece
	text := func() {
		n := nd.Param("text")
		if n == 0 {
			return
		}
		kinds := mk.kinds
		mk.prose = true
		mk.kinds = []int{kWord, kBlank, kMacro, kFuncArg, kFrac}[:n]
		ps = append(ps, mk.list(1, 1, true)...)
		mk.kinds, mk.prose = kinds, false
	}
	text()
	m := &piece{kind: kMath, pos: len(mk.src)}
	mk.src += "$"
	m.a = mk.list(nd.Param("n"), nd.Param("depth"), false)
	mk.src += "$"
	ps = append(ps, m)
	text()
	return mk, ps
}

// Style is C14.
func Style() {
	mk, ps := expression(true)
	t := set(newBackend(false), mk.src, size(), ps)
	t.glyphs()
	nd.Reach("typeset")
}

// Spacing is C15.
func Spacing() {
	mk, ps := expression(false)
	t := set(newBackend(true), mk.src, size(), ps)
	t.across()
	nd.Reach("typeset")
}

// Layout is C16.
func Layout() {
	mk, ps := expression(false)
	t := set(newBackend(true), mk.src, size(), ps)
	t.all()
	nd.Reach("typeset")
}
