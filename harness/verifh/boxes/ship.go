package boxes

import (
	"math"

	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/tex"
)

// want is a drawing that is expected.
type want struct {
	op
	tol   float64 // for the rounding of glue to whole points
	stack bool    // a rule of a vertical list
	w2    float64 // another width a running rule may have
}

type shipper struct {
	g    *gen
	want []want
}

// setting gives the space each glue of a list takes: the slack of the list
// is shared by the glue of the highest order in the needed direction.
func setting(its []item, slack float64) func(typ string) (float64, bool) {
	var st, sh [4]float64
	any := false
	for _, it := range its {
		if it.kind == kGlue {
			any = true
			a, o, b, p := flex(it.glue)
			st[o] += a
			sh[p] += b
		}
	}
	none := func(string) (float64, bool) { return 0, false }
	if !any || slack == 0 {
		return none
	}
	tot := st
	if slack < 0 {
		tot = sh
	}
	o := 3
	for o > 0 && tot[o] == 0 {
		o--
	}
	if tot[o] == 0 {
		return none
	}
	stretching := slack > 0
	return func(typ string) (float64, bool) {
		a, p, b, q := flex(typ)
		if !stretching {
			a, p = b, q
		}
		if p != o {
			return 0, false
		}
		return slack * (a / tot[o]), true
	}
}

// line adds the drawings of the items of a horizontal list.
func (s *shipper) line(l tex.Tree, its []item, x, y, tol float64) {
	h, d := l.Height(), l.Depth()
	nat := 0.0
	for _, it := range its {
		nat += it.node.Width()
	}
	set := setting(its, l.Width()-nat)
	glued := false
	for _, it := range its {
		switch it.kind {
		case kChar:
			s.want = append(s.want, want{op: op{sym: it.sym, x: x, y: y}, tol: tol})
			x += it.w
		case kAccent:
			m := s.g.be.Metrics(it.sym, s.g.st.Font, 72, true)
			s.want = append(s.want, want{op: op{sym: it.sym, x: x - m.XMin, y: y + m.YMin}, tol: tol})
			x += it.w
		case kKern, kHBox:
			x += it.w
		case kGlue:
			if e, ok := set(it.glue); ok {
				x += e
				if !glued {
					glued = true
					tol += 0.5
				}
			}
		case kRule:
			rh, rd := it.h, it.d
			if inf(rh) {
				rh = h
			}
			if inf(rd) {
				rd = d
			}
			if it.w > 0 && rh+rd > 0 {
				s.want = append(s.want, want{op: op{rect: true, x: x, y: y - rh, x2: x + it.w, y2: y + rd}, tol: tol, w2: it.w})
			}
			x += it.w
		case kHList, kAuto:
			s.line(it.node.(tex.Tree), it.kids, x, y+it.shift, tol)
			x += it.node.Width()
		case kVList:
			w := it.node.Width()
			s.stack(it.node.(tex.Tree), it.kids, x, y+it.shift, w, w, tol)
			x += it.node.Width()
		}
	}
}

// stack adds those of a vertical list, with the left edge at x and the
// baseline at y.
func (s *shipper) stack(l tex.Tree, its []item, x, y, w, w2, tol float64) {
	nat := 0.0
	for i, it := range its {
		switch it.kind {
		case kKern:
			nat += it.w
		case kGlue:
		default:
			nat += it.node.Height()
			if i < len(its)-1 {
				nat += it.node.Depth()
			}
		}
	}
	set := setting(its, l.Height()-nat)
	v := y - l.Height()
	glued := false
	for _, it := range its {
		switch it.kind {
		case kKern:
			v += it.w
		case kGlue:
			if e, ok := set(it.glue); ok {
				v += e
				if !glued {
					glued = true
					tol += 0.5
				}
			}
		case kVBox, kHBox:
			v += it.h + it.d
		case kRule:
			rw, rw2 := it.w, it.w
			if inf(rw) {
				rw, rw2 = w, w2
			}
			if rw2 > 0 && it.h+it.d > 0 {
				s.want = append(s.want, want{op: op{rect: true, x: x, y: v, x2: x + rw, y2: v + it.h + it.d}, tol: tol, stack: true, w2: rw2})
			}
			v += it.h + it.d
		case kHList, kAuto:
			v += it.node.Height()
			s.line(it.node.(tex.Tree), it.kids, x+it.shift, v, tol)
			v += it.node.Depth()
		case kVList:
			v += it.node.Height()
			s.stack(it.node.(tex.Tree), it.kids, x+it.shift, v, it.node.Width(), w2, tol)
			v += it.node.Depth()
		}
	}
}

func near(a, b, tol float64) bool {
	if tol == 0 {
		return nd.FEq(a, b)
	}
	return nd.And(nd.FLe(a-b, tol), nd.FLe(b-a, tol))
}

// compare checks what was drawn, moved by (dx, dy).
func (s *shipper) compare(got []op, dx, dy float64) {
	nd.Assert(len(got) == len(s.want), "another number of drawings than the tree has glyphs and rules")
	for i, w := range s.want {
		g := got[i]
		nd.Assert(g.rect == w.rect, "a glyph instead of a rule, or the reverse")
		if !w.rect {
			nd.Assert(g.sym == w.sym, "glyphs drawn in another order")
			nd.Assert(near(g.x, w.x+dx, w.tol), "a glyph is not where the ones before it end")
			nd.Assert(near(g.y, w.y+dy, w.tol), "a glyph is not on its baseline")
			continue
		}
		nd.Assert(near(g.x, w.x+dx, w.tol), "a rule is not where the material before it ends")
		nd.Assert(nd.Or(nd.FEq(g.x2-g.x, w.x2-w.x), nd.FEq(g.x2-g.x, w.w2)), "a rule has another width")
		nd.Assert(nd.FEq(g.y2-g.y, w.y2-w.y), "a rule has another height")
		if !w.stack {
			nd.Assert(near(g.y, w.y+dy, w.tol), "a rule is not on its baseline")
			continue
		}
		nd.Reach("rule in a vertical list")
		nd.AssertKnown("rule-in-vlist", near(g.y, w.y+dy, w.tol), near(g.y, w.y2+dy, w.tol), "a rule is not where the boxes above it end")
	}
}

// box is a list of at most n items, each leaf or a box of depth-1.
func (s *shipper) box(vertical bool, n, depth int) item {
	g := s.g
	var kids []item
	n = 1 + nd.Choose(n)
	glue := false
	for i := 0; i < n; i++ {
		g.vert = vertical
		if depth > 1 {
			c := 4
			if nd.Param("empties") == 1 {
				c = 6
			}
			switch nd.Choose(c) {
			case 4:
				l := tex.HListOf(nil, false)
				l.HPack(nd.Float(0, 16), false)
				kids = append(kids, item{kind: kHList, node: l})
				continue
			case 5:
				l := tex.VListOf(nil)
				l.VPack(nd.Float(0, 16), false, math.Inf(1))
				kids = append(kids, item{kind: kVList, node: l})
				continue
			case 1:
				kids = append(kids, s.box(false, nd.Param("sub"), depth-1))
				continue
			case 2:
				kids = append(kids, s.box(true, nd.Param("sub"), depth-1))
				continue
			case 3:
				kids = append(kids, g.auto())
				continue
			}
		}
		hk := []int{kChar, kRule, kKern, kGlue, kAccent, kVBox, kHBox}
		if vertical {
			hk = []int{kVBox, kRule, kKern, kGlue, kHBox}
		}
		m := nd.Param("kinds")
		if m > len(hk) {
			m = len(hk)
		}
		g.vert = vertical
		k := g.leaf(hk[nd.Choose(m)])
		glue = glue || k.kind == kGlue
		g.glued = g.glued || glue
		kids = append(kids, k)
	}
	if vertical {
		it := g.vlist(kids)
		if glue {
			it.node.(*tex.VList).VPack(nd.Float(-16, 32), true, math.Inf(1))
		}
		return it
	}
	it := g.hlist(kids)
	if glue {
		it.node.(*tex.HList).HPack(nd.Float(-16, 32), true)
	}
	return it
}

// Ship draws a tree, twice at the origin and once elsewhere.
func Ship() {
	g := newGen()
	g.glues = nd.Param("glues")
	s := &shipper{g: g}
	root := s.box(false, nd.Param("n"), nd.Param("depth"))
	t := root.node.(*tex.HList)
	s.line(t, root.kids, 0, t.Height(), 0)
	var ship tex.Ship
	ship.Call(0, 0, t)
	first := g.be.ops
	g.be.ops = nil
	nd.Reach("shipped")
	s.compare(first, 0, 0)
	dx, dy := nd.Float(-100, 100), nd.Float(-100, 100)
	ship.Call(dx, dy, t)
	s.compare(g.be.ops, dx, dy)
	for _, o := range first {
		nd.Observe(o.rect, o.sym, o.x, o.y)
	}
}
