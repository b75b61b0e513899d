// Package boxes holds the checks of the TeX box model.
package boxes

import (
	"math"

	"github.com/go-latex/latex/font"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/tex"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"HPack":     HPack,
	"VPack":     VPack,
	"Glue":      Glue,
	"Kern":      Kern,
	"Ship":      Ship,
	"Scale":     Scale,
	"Glyphs":    Glyphs,
	"Plain":     Plain,
	"Delimiter": Delimiter,
}

const refSize = 8

// op is something drawn.
type op struct {
	rect         bool
	sym          string
	size         float64
	x, y, x2, y2 float64
}

// backend has arbitrary metrics and records what is drawn.
type backend struct {
	metrics map[string]font.Metrics
	kerns   map[string]float64
	xheight float64
	line    float64
	ops     []op
}

func newBackend() *backend {
	return &backend{
		metrics: map[string]font.Metrics{}, kerns: map[string]float64{},
		xheight: nd.Float(1, 10), line: nd.Float(0.25, 2),
	}
}

func (be *backend) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {
	be.ops = append(be.ops, op{sym: sym, size: f.Size, x: x, y: y})
}

func (be *backend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.ops = append(be.ops, op{rect: true, x: x1, y: y1, x2: x2, y2: y2})
}

func (be *backend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	k, ok := be.kerns[s1+" "+s2]
	if !ok {
		k = nd.Float(-2, 2)
		be.kerns[s1+" "+s2] = k
	}
	if f1.Size != f2.Size {
		return 0
	}
	return k * f1.Size / refSize
}

func (be *backend) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	m, ok := be.metrics[sym]
	if !ok {
		m.XMin = nd.Float(-4, 4)
		m.Width = nd.Float(0, 16)
		m.XMax = m.XMin + m.Width
		m.YMin = nd.Float(-8, 8)
		m.Height = nd.Float(0, 16)
		m.YMax = m.YMin + m.Height
		m.Iceberg = m.YMax
		m.Advance = nd.Float(0, 20)
		be.metrics[sym] = m
	}
	k := f.Size / refSize
	return font.Metrics{
		Advance: m.Advance * k, Width: m.Width * k, Height: m.Height * k,
		XMin: m.XMin * k, XMax: m.XMax * k, YMin: m.YMin * k, YMax: m.YMax * k,
		Iceberg: m.Iceberg * k,
	}
}

func (be *backend) XHeight(f font.Font, dpi float64) float64 { return be.xheight }

func (be *backend) UnderlineThickness(f font.Font, dpi float64) float64 { return be.line }

func (be *backend) state() tex.State {
	return tex.NewState(be, font.Font{Name: "default", Type: "regular", Size: refSize}, 72)
}

const (
	kChar = iota
	kAccent
	kVBox
	kHBox
	kKern
	kGlue
	kRule
	kHList
	kAuto
	kVList
	kList
	nKinds
)

// item is a node with what is known about it independently of the code
// under test.
type item struct {
	kind  int
	node  tex.Node
	glue  string
	sym   string
	shift float64 // of a list
	w     float64 // of leaves that have dimensions of their own
	h, d  float64
	kids  []item
}

var glues = []string{"empty", "fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "ss"}

// stretch and shrink of the glue of each kind: amount and order.
func flex(typ string) (st float64, sto int, sh float64, sho int) {
	switch typ {
	case "fil":
		return 1, 1, 0, 0
	case "fill":
		return 1, 2, 0, 0
	case "filll":
		return 1, 3, 0, 0
	case "neg_fil":
		return 0, 0, 1, 1
	case "neg_fill":
		return 0, 0, 1, 2
	case "neg_filll":
		return 0, 0, 1, 3
	case "ss":
		return 1, 1, -1, 1
	}
	return 0, 0, 0, 0
}

type gen struct {
	be    *backend
	st    tex.State
	n     int
	glues int // kinds of glue used
	vert  bool
	glued bool
}

func newGen() *gen {
	be := newBackend()
	return &gen{be: be, st: be.state(), glues: len(glues)}
}

func (g *gen) symbol() string {
	g.n++
	return string([]byte{byte('a' + g.n - 1)})
}

// leaf makes a node of a kind with arbitrary dimensions.
func (g *gen) leaf(kind int) item {
	it := item{kind: kind}
	switch kind {
	case kChar:
		it.sym = g.symbol()
		c := tex.NewChar(it.sym, g.st, true)
		m := g.be.Metrics(it.sym, g.st.Font, 72, true)
		it.w, it.h, it.d = m.Width, m.Iceberg, m.Height-m.Iceberg
		it.node = c
	case kAccent:
		it.sym = g.symbol()
		c := tex.NewAccent(it.sym, g.st, true)
		m := g.be.Metrics(it.sym, g.st.Font, 72, true)
		it.w, it.h, it.d = m.XMax-m.XMin, m.YMax-m.YMin, 0
		it.node = c
	case kVBox:
		it.h, it.d = nd.Float(-8, 16), nd.Float(-8, 16)
		it.node = tex.VBox(it.h, it.d)
	case kHBox:
		it.w = nd.Float(-16, 16)
		it.node = tex.HBox(it.w)
	case kKern:
		it.w = nd.Float(-16, 16)
		it.node = tex.NewKern(it.w)
	case kGlue:
		it.glue = glues[nd.Choose(g.glues)]
		it.node = tex.NewGlue(it.glue)
	case kRule:
		it.w, it.h, it.d = nd.Float(0, 16), nd.Float(0, 16), nd.Float(0, 16)
		// only the dimensions across the list may be running ones
		switch {
		case g.vert:
			if nd.Choose(2) == 1 {
				it.w = math.Inf(1)
			}
		default:
			switch nd.Choose(3) {
			case 1:
				it.h, it.d = math.Inf(1), math.Inf(1)
			case 2:
				it.h = math.Inf(1)
			}
		}
		it.node = tex.NewRule(it.w, it.h, it.d, g.st)
	case kList:
		it.node = tex.ListOf([]tex.Node{tex.NewKern(3)})
	}
	return it
}

func (g *gen) rule(w, h, d float64) item {
	return item{kind: kRule, w: w, h: h, d: d, node: tex.NewRule(w, h, d, g.st)}
}

func nodes(its []item) []tex.Node {
	var r []tex.Node
	for _, it := range its {
		r = append(r, it.node)
	}
	return r
}

// hlist packs its items, without kerning.
func (g *gen) hlist(kids []item) item {
	l := tex.HListOf(nodes(kids), false)
	return item{kind: kHList, node: l, kids: kids}
}

// auto is a single character with a shift.
func (g *gen) auto() item {
	sym := g.symbol()
	depth := nd.Float(-8, 8)
	l := tex.AutoHeightChar(sym, nd.Float(0, 16), depth, g.st, 1)
	m := g.be.Metrics(sym, g.st.Font, 72, true)
	c := item{kind: kChar, sym: sym, w: m.Width, h: m.Iceberg, d: m.Height - m.Iceberg, node: l.Nodes()[0]}
	return item{kind: kAuto, node: l, shift: depth - c.d, kids: []item{c}}
}

func (g *gen) vlist(kids []item) item {
	l := tex.VListOf(nodes(kids))
	s := nd.Float(-8, 8)
	l.SetShift(s)
	return item{kind: kVList, node: l, shift: s, kids: kids}
}

// child is any element of a horizontal (or vertical) list; lists in it are
// made of at most sub leaves.
func (g *gen) child(vertical bool, sub int) item {
	k := nd.Choose(nKinds)
	defer func() { g.vert = vertical }()
	g.vert = vertical
	switch k {
	case kChar, kAccent:
		if vertical {
			nd.Assume(false)
		}
	case kHList:
		var kids []item
		g.vert = false
		n := nd.Choose(sub + 1)
		for i := 0; i < n; i++ {
			kids = append(kids, g.leaf([]int{kChar, kRule, kHBox}[nd.Choose(3)]))
		}
		return g.hlist(kids)
	case kAuto:
		return g.auto()
	case kVList:
		var kids []item
		g.vert = true
		n := nd.Choose(sub + 1)
		for i := 0; i < n; i++ {
			kids = append(kids, g.leaf([]int{kVBox, kRule, kKern}[nd.Choose(3)]))
		}
		return g.vlist(kids)
	}
	return g.leaf(k)
}

func isList(k int) bool { return k == kHList || k == kAuto || k == kVList || k == kList }

func inf(x float64) bool { return math.IsInf(x, 0) }

func fmax(a, b float64) float64 { return math.Max(a, b) }

// HPack: dimensions of packed horizontal lists.
func HPack() {
	g := newGen()
	n := nd.Param("n")
	its := make([]item, n)
	for i := range its {
		its[i] = g.child(false, nd.Param("sub"))
	}
	l := tex.HListOf(nodes(its), false)
	checkHPack(l, its, 0, true)
	for r := 0; r < nd.Param("repack"); r++ {
		mutate(its)
		w := nd.Float(-64, 64)
		add := nd.Choose(2) == 1
		l.HPack(w, add)
		checkHPack(l, its, w, add)
	}
	nd.Reach("packed")
	nd.Observe(l.Width(), l.Height(), l.Depth())
}

func checkHPack(l *tex.HList, its []item, w float64, add bool) {
	nat, h, d := 0.0, 0.0, 0.0
	for _, it := range its {
		nat += it.node.Width()
		ch, cd := it.node.Height(), it.node.Depth()
		if !isList(it.kind) && it.kind != kGlue && it.kind != kKern {
			ch, cd = it.h, it.d
		}
		if inf(ch) || inf(cd) {
			continue
		}
		if isList(it.kind) {
			ch, cd = ch-it.shift, cd+it.shift
		}
		h, d = fmax(h, ch), fmax(d, cd)
	}
	want := w
	if add {
		want = nat + w
	}
	nd.Assert(nd.FEq(l.Width(), want), "width is not the one asked for")
	nd.Assert(nd.FEq(l.Height(), h), "height is not the largest of the contents'")
	nd.Assert(nd.FEq(l.Depth(), d), "depth is not the largest of the contents'")
}

// VPack: dimensions of packed vertical lists.
func VPack() {
	g := newGen()
	n := nd.Param("n")
	its := make([]item, n)
	for i := range its {
		its[i] = g.child(true, nd.Param("sub"))
	}
	l := tex.VListOf(nodes(its))
	checkVPack(l, its, 0, true, math.Inf(1))
	for r := 0; r < nd.Param("repack"); r++ {
		mutate(its)
		h := nd.Float(-64, 64)
		add := nd.Choose(2) == 1
		limit := math.Inf(1)
		if nd.Choose(2) == 1 {
			limit = nd.Float(0, 16)
		}
		l.VPack(h, add, limit)
		checkVPack(l, its, h, add, limit)
	}
	nd.Reach("packed")
	nd.Observe(l.Width(), l.Height(), l.Depth())
}

func checkVPack(l *tex.VList, its []item, ask float64, add bool, limit float64) {
	nat, w, d := 0.0, 0.0, 0.0
	for i, it := range its {
		var ch, cd, cw float64
		switch {
		case it.kind == kGlue:
			ch = it.node.Width()
		case it.kind == kKern:
			ch = it.w
		case isList(it.kind):
			ch, cd, cw = it.node.Height(), it.node.Depth(), it.node.Width()
			if inf(cw) {
				cw = 0
			} else {
				cw += it.shift
			}
		default:
			ch, cd, cw = it.h, it.d, it.w
			if inf(cw) {
				cw = 0
			}
		}
		nat += ch
		if i == len(its)-1 {
			d = cd
		} else {
			nat += cd
		}
		w = fmax(w, cw)
	}
	excess := fmax(0, d-limit)
	nat += excess
	d -= excess
	want := ask
	if add {
		want = nat + ask
	}
	nd.Assert(nd.FEq(l.Height(), want), "height is not the one asked for")
	nd.Assert(nd.FEq(l.Depth(), d), "depth is not that of the last child, up to the limit")
	nd.Assert(nd.FEq(l.Width(), w), "width is not the largest of the contents'")
}

// mutate makes one of the items smaller, or none.
func mutate(its []item) {
	if nd.Param("mutate") == 0 || len(its) == 0 {
		return
	}
	i := nd.Choose(2)
	if i == 0 {
		return
	}
	it := &its[nd.Choose(len(its))]
	it.node.Shrink()
	it.w, it.h, it.d, it.shift = it.w*0.7, it.h*0.7, it.d*0.7, it.shift*0.7
	nd.Reach("smaller")
}

// natural is the size along the list of its items, the depth of the last
// beyond the limit included.
func natural(its []item, vertical bool, limit float64) float64 {
	s := 0.0
	for i, it := range its {
		if !vertical || it.kind == kGlue || it.kind == kKern {
			s += it.node.Width()
			continue
		}
		s += it.node.Height()
		d := it.node.Depth()
		if i == len(its)-1 {
			d = fmax(0, d-limit)
		}
		s += d
	}
	return s
}

type tree interface {
	tex.Tree
}

// Glue: packing sets the glue of the highest order to take up the slack.
func Glue() {
	g := newGen()
	n := nd.Param("n")
	its := make([]item, n)
	vertical := nd.Choose(2) == 1
	kinds := []int{kGlue, kKern, kVBox, kHList}
	for i := range its {
		k := kinds[nd.Choose(nd.Param("kinds"))]
		switch {
		case k == kVBox && !vertical:
			k = kHBox
		}
		if k == kHList {
			// glue inside a box is that box's own
			its[i] = g.hlist([]item{g.leaf(kGlue)})
			continue
		}
		its[i] = g.leaf(k)
	}
	var (
		l    tree
		pack func(x float64, add bool, limit float64)
		size func() float64
	)
	if vertical {
		v := tex.VListOf(nodes(its))
		l, pack, size = v, v.VPack, v.Height
	} else {
		h := tex.HListOf(nodes(its), false)
		l, size = h, h.Width
		pack = func(x float64, add bool, limit float64) { h.HPack(x, add) }
	}
	checkGlue(l, its, 0)
	for r := 0; r < nd.Param("repack"); r++ {
		mutate(its)
		x := nd.Float(-64, 64)
		add := nd.Choose(2) == 1
		limit := math.Inf(1)
		if vertical && nd.Param("limit") == 1 && nd.Choose(2) == 1 {
			limit = nd.Float(0, 16)
		}
		pack(x, add, limit)
		if !add {
			x -= natural(its, vertical, limit)
		}
		checkGlue(l, its, x)
	}
	nd.Reach("packed")
	nd.Observe(size(), l.GlueSign(), l.GlueOrder())
}

func checkGlue(l tree, its []item, slack float64) {
	var st, sh [4]float64
	for _, it := range its {
		if it.kind == kGlue {
			a, o, b, p := flex(it.glue)
			st[o] += a
			sh[p] += b
		}
	}
	tot, sign := st, 1
	if slack < 0 {
		tot, sign = sh, -1
	}
	if slack == 0 {
		nd.Assert(l.GlueSign() == 0, "glue set in a list of its natural size")
		nd.Reach("natural")
		return
	}
	o := 3
	for o > 0 && tot[o] == 0 {
		o--
	}
	if tot[o] == 0 {
		nd.Assert(l.GlueSign() == 0, "glue set without glue to set")
		nd.Reach("rigid")
		return
	}
	nd.Reach("set")
	nd.Assert(l.GlueSign() == sign, "glue stretches instead of shrinking, or the reverse")
	nd.Assert(l.GlueOrder() == o, "glue of another order than the highest is set")
	nd.Assert(nd.FEq(l.GlueSet()*tot[o], slack), "the glue set does not make up the difference")
}
