package boxes

import (
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/tex"
)

// probe is a box that asks for a given kerning before each successor.
type probe struct {
	*tex.Box
	id   int
	want map[int]float64
}

func (p *probe) Kerning(next tex.Node) float64 {
	id := -1
	switch next := next.(type) {
	case nil:
	case *probe:
		id = next.id
	default:
		id = -2
	}
	k, ok := p.want[id]
	if !ok {
		k = nd.Float(-4, 4)
		p.want[id] = k
	}
	return k
}

// Kern builds lists from a slice.
func Kern() {
	g := newGen()
	n := nd.Choose(nd.Param("n") + 1)
	spare := nd.Choose(3)
	backing := make([]tex.Node, n+spare)
	for i := range backing {
		switch nd.Choose(4) {
		case 0:
			backing[i] = &probe{tex.VBox(nd.Float(0, 8), 0), i, map[int]float64{}}
		case 1:
			sym := g.symbol()
			backing[i] = tex.NewChar(sym, g.st, true)
		case 2:
			backing[i] = tex.NewAccent(g.symbol(), g.st, true)
		case 3:
			backing[i] = tex.NewKern(nd.Float(-4, 4))
		}
	}
	how := nd.Choose(6)
	if how == 3 || how == 5 {
		// characters cannot stand in vertical lists
		for i := range backing {
			backing[i] = tex.NewKern(nd.Float(-4, 4))
		}
	}
	// elements resized before, each by its own factor
	size := make([]float64, len(backing))
	for i := range size {
		size[i] = 1
	}
	if how == 0 && n > 0 {
		which, one := nd.Choose(n+2), tex.NewKern(1)
		up := nd.Choose(2) == 1
		for i := range backing {
			if which != i && which != n+1 || which == n+1 && i >= n {
				continue
			}
			if up {
				backing[i].Grow()
			} else {
				backing[i].Shrink()
			}
			size[i] = 2
			nd.Reach("resized")
		}
		if up {
			one.Grow()
		} else {
			one.Shrink()
		}
		for i := range size {
			if size[i] == 2 {
				size[i] = one.Width()
			}
		}
	}
	orig := append([]tex.Node(nil), backing...)
	in := backing[:n]
	var got []tex.Node
	list := func() []tex.Node { return nil }
	switch how {
	case 0:
		l := tex.HListOf(in, true)
		list = l.Nodes
	case 1:
		l := tex.HListOf(in, false)
		list = l.Nodes
	case 2:
		l := tex.ListOf(in)
		list = l.Nodes
	case 3:
		l := tex.VListOf(in)
		list = l.Nodes
	case 4:
		l := tex.HCentered(in)
		list = l.Nodes
	case 5:
		l := tex.VCentered(in)
		list = l.Nodes
	}
	got = append(got, list()...)
	for i := range orig {
		nd.Assert(backing[i] == orig[i], "building a list changed the slice it was given")
	}
	// later changes to the slice
	for i := range backing {
		backing[i] = nil
	}
	now := list()
	nd.Assert(len(now) == len(got), "a list changes with the slice it was made from")
	for i := range got {
		nd.Assert(now[i] == got[i], "a list changes with the slice it was made from")
	}
	nd.Observe(len(got))
	nd.Reach("built")

	at := 0
	glue := func() {
		nd.Assert(at < len(got), "a centred list has no glue at its ends")
		gl, ok := got[at].(*tex.Glue)
		nd.Assert(ok, "a centred list has no glue at its ends")
		ref := tex.NewGlue("ss")
		nd.Assert(*gl == *ref, "a centred list has other glue than stretch-and-shrink glue at its ends")
		at++
	}
	if how >= 4 {
		glue()
	}
	for i := 0; i < n; i++ {
		nd.Assert(at < len(got), "an element is missing")
		nd.Assert(got[at] == orig[i], "an element is missing or out of order")
		at++
		if how != 0 {
			continue
		}
		var next tex.Node
		after := 1.0
		if i < n-1 {
			next, after = orig[i+1], size[i+1]
		}
		k := orig[i].Kerning(next)
		asks(g, orig[i], next, k, size[i], after)
		if k == 0 {
			if at < len(got) {
				nd.Assert(i < n-1 && got[at] == orig[i+1], "space added where none is asked for")
			}
			continue
		}
		nd.Reach("kerned")
		nd.Assert(at < len(got), "the kerning asked for is missing")
		kn, ok := got[at].(*tex.Kern)
		nd.Assert(ok, "the kerning asked for is missing")
		nd.Assert(nd.FEq(kn.Width(), k), "another amount of kerning than asked for")
		at++
	}
	if how >= 4 {
		glue()
	}
	nd.Assert(at == len(got), "an element is added")
}

// asks checks what a character asks for: its advance beyond its width, and
// the font's kerning with the character or accent that follows.
func asks(g *gen, n, next tex.Node, k, size, after float64) {
	name := func(n tex.Node) string {
		switch n := n.(type) {
		case *tex.Char:
			return n.String()
		case *tex.Accent:
			return n.String()
		}
		return ""
	}
	sym := name(n)
	if sym == "" {
		if _, ok := n.(*probe); !ok {
			nd.Assert(k == 0, "space is asked for after a kern")
		}
		return
	}
	f1, f2 := g.st.Font, g.st.Font
	f1.Size *= size
	f2.Size *= after
	m := g.be.Metrics(sym, f1, 72, true)
	want := m.Advance - n.Width()
	if s := name(next); s != "" {
		want += g.be.Kern(f1, sym, f2, s, 72)
	}
	nd.Assert(within(k, want, 1e-6), "a character asks for another space than its advance and kerning")
}
