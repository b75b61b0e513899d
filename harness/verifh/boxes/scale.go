package boxes

import (
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/tex"
)

// dims are the dimensions of a node and of all nodes below it.
func dims(n tex.Node, out []float64) []float64 {
	out = append(out, n.Width(), n.Height(), n.Depth())
	if a, ok := n.(interface{ Shift() float64 }); ok {
		out = append(out, a.Shift())
	}
	if t, ok := n.(interface{ Nodes() []tex.Node }); ok {
		for _, c := range t.Nodes() {
			out = dims(c, out)
		}
	}
	return out
}

func close(a, b float64) bool { return within(a, b, 1e-6) }

func within(a, b, tol float64) bool {
	if inf(a) || inf(b) {
		return a == b
	}
	return nd.And(nd.FLe(a-b, tol), nd.FLe(b-a, tol))
}

func scaled(got, was []float64, f float64, msg string) {
	nd.Assert(len(got) == len(was), "shrinking or growing changed the number of nodes")
	for i := range got {
		if inf(was[i]) {
			nd.Assert(inf(got[i]), msg)
			continue
		}
		nd.Assert(close(got[i], was[i]*f), msg)
	}
}

// draw ships a tree.
func (g *gen) draw(t *tex.HList) []op {
	var ship tex.Ship
	g.be.ops = nil
	ship.Call(0, 0, t)
	return g.be.ops
}

// Scale shrinks and grows a tree.
func Scale() {
	g := newGen()
	s := &shipper{g: g}
	root := s.box(false, nd.Param("n"), nd.Param("depth"))
	t := root.node.(*tex.HList)
	var n tex.Node = t
	vert := false
	if len(t.Nodes()) == 1 && nd.Choose(2) == 1 {
		n = t.Nodes()[0]
		vert = true
	}
	was := dims(n, nil)
	var drawn []op
	if !vert {
		drawn = g.draw(t)
		was = dims(n, nil) // shipping gives nested boxes their final width
	}
	// the factor is that of a lone space
	one := tex.NewKern(1)
	// glue is rounded to whole points, at each of the (at most 3) levels
	tol := 1e-6
	if g.glued {
		tol = 3
	}
	k := nd.Param("levels")
	prev := 1.0
	for i := 0; i < k; i++ {
		n.Shrink()
		one.Shrink()
		f := one.Width()
		nd.Assert(f > 0 && f <= prev, "shrinking does not shrink")
		if i == 0 {
			nd.Assert(f < 1, "shrinking does not shrink")
		}
		if i >= 6 {
			nd.Assert(f == prev, "shrinks beyond the number of size levels")
			nd.Reach("smallest")
		}
		prev = f
		scaled(dims(n, nil), was, f, "parts of the subtree shrink differently")
	}
	if !vert {
		small := g.draw(t)
		nd.Assert(len(small) == len(drawn), "other drawings after shrinking")
		for i := range small {
			a, b := small[i], drawn[i]
			nd.Assert(a.rect == b.rect && a.sym == b.sym, "other drawings after shrinking")
			nd.Assert(close(a.size, b.size*prev), "the font size does not shrink with the box")
			nd.Assert(within(a.x, b.x*prev, tol) && within(a.y, b.y*prev, tol), "drawings are not scaled together")
			if a.rect {
				nd.Assert(within(a.x2, b.x2*prev, tol) && within(a.y2, b.y2*prev, tol), "drawings are not scaled together")
			}
		}
	}
	nd.Reach("shrunk")
	if k < 6 {
		for i := 0; i < k; i++ {
			n.Grow()
			one.Grow()
			scaled(dims(n, nil), was, one.Width(), "parts of the subtree grow differently")
		}
		nd.Assert(close(one.Width(), 1), "growing does not undo shrinking")
		if !vert {
			again := g.draw(t)
			nd.Assert(len(again) == len(drawn), "other drawings after growing")
			for i := range again {
				nd.Assert(close(again[i].size, drawn[i].size), "growing does not undo the shrinking of the font")
				nd.Assert(within(again[i].x, drawn[i].x, tol) && within(again[i].y, drawn[i].y, tol), "growing does not undo shrinking")
			}
		}
		// the number of size levels is counted from the original size again
		fresh := tex.NewKern(1)
		for i := 0; i < 7; i++ {
			n.Shrink()
			fresh.Shrink()
		}
		scaled(dims(n, nil), was, fresh.Width(), "what was shrunk and grown again shrinks differently")
		nd.Reach("grown")
	} else {
		// growing has no limit
		before := one.Width()
		n.Grow()
		one.Grow()
		nd.Assert(one.Width() > before, "growing does not grow")
		scaled(dims(n, nil), was, one.Width(), "parts of the subtree grow differently")
	}
	nd.Observe(n.Width(), n.Height(), n.Depth())
}
