package boxes

import (
	"math"

	"github.com/go-latex/latex/font"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/tex"
)

// meter is a font of one glyph, with arbitrary metrics in proportion to the
// size, that notes whether it is asked for anything else.
type meter struct {
	sym   string
	fnt   font.Font
	dpi   float64
	math  bool
	line  float64
	m     font.Metrics
	unit  float64 // the size m is given for
	other string  // what else was asked for
	ops   []op
	fonts []font.Font
}

func (be *meter) check(f font.Font, dpi float64) {
	if f.Name != be.fnt.Name || f.Type != be.fnt.Type {
		be.other = "another font is used"
	}
	if dpi != be.dpi {
		be.other = "another resolution is used"
	}
}

func (be *meter) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {
	be.check(f, dpi)
	be.ops = append(be.ops, op{sym: sym, size: f.Size, x: x, y: y})
}

func (be *meter) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.ops = append(be.ops, op{rect: true, x: x1, y: y1, x2: x2, y2: y2})
}

func (be *meter) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return 0
}

func (be *meter) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	be.check(f, dpi)
	if sym != be.sym {
		be.other = "another glyph is measured"
	}
	if math != be.math {
		be.other = "the glyph of the other mode is measured"
	}
	return be.at(f.Size / be.unit)
}

func (be *meter) at(k float64) font.Metrics {
	m := be.m
	return font.Metrics{
		Advance: m.Advance * k, Width: m.Width * k, Height: m.Height * k,
		XMin: m.XMin * k, XMax: m.XMax * k, YMin: m.YMin * k, YMax: m.YMax * k,
		Iceberg: m.Iceberg * k,
	}
}

func (be *meter) XHeight(f font.Font, dpi float64) float64 {
	be.check(f, dpi)
	return 4
}

func (be *meter) UnderlineThickness(f font.Font, dpi float64) float64 {
	be.check(f, dpi)
	if f.Size != be.fnt.Size {
		be.other = "the thickness of lines of another size is used"
	}
	return be.line
}

func newMeter() (*meter, tex.State) {
	be := &meter{dpi: nd.Float(1, 2400), line: nd.Float(0.25, 4)}
	be.sym = []string{"x", " ", `\alpha`, "-", "."}[nd.Choose(5)]
	be.math = nd.Choose(2) == 1
	be.unit = []float64{10, 12.5}[nd.Choose(2)]
	be.fnt = font.Font{Name: []string{"default", "it"}[nd.Choose(2)], Type: []string{"rm", "it"}[nd.Choose(2)], Size: be.unit}
	m := &be.m
	m.XMin = nd.Float(-4, 4)
	m.Width = nd.Float(0.5, 16)
	m.XMax = m.XMin + m.Width
	m.YMin = nd.Float(-8, 8)
	m.Height = nd.Float(0.5, 16)
	m.YMax = m.YMin + m.Height
	m.Iceberg = m.YMax
	m.Advance = nd.Float(0, 20)
	return be, tex.NewState(be, be.fnt, be.dpi)
}

func measures(n tex.Node, w, h, d float64, what string) {
	nd.Assert(same(n.Width(), w), what+" has another width")
	nd.Assert(same(n.Height(), h), what+" has another height")
	nd.Assert(same(n.Depth(), d), what+" has another depth")
}

func same(a, b float64) bool {
	if inf(a) || inf(b) {
		return a == b
	}
	return nd.FNear(a, b)
}

// Glyphs: characters and accents measure what they draw.
func Glyphs() {
	be, st := newMeter()
	var n tex.Node
	accent := nd.Choose(2) == 1
	if accent {
		n = tex.NewAccent(be.sym, st, be.math)
	} else {
		n = tex.NewChar(be.sym, st, be.math)
	}
	st.Font.Size, st.Font.Type, st.DPI = 99, "bf", 7 // the node has its own
	k := 1.0
	one := tex.NewKern(1)
	for i := nd.Choose(nd.Param("levels") + 1); i > 0; i-- {
		if nd.Choose(2) == 0 {
			n.Shrink()
			one.Shrink()
		} else {
			n.Grow()
			one.Grow()
		}
		k = one.Width()
		nd.Reach("resized")
	}
	m := be.at(k)
	switch {
	case accent:
		nd.Assert(within(n.Width(), m.Width, 1e-6) && within(n.Height(), m.Height, 1e-6), "an accent's box is not that of its ink")
		nd.Assert(n.Depth() == 0, "an accent has a depth")
	case be.sym == " ":
		nd.Assert(within(n.Width(), m.Advance, 1e-6), "a space is not as wide as its advance")
	default:
		nd.Assert(within(n.Width(), m.Width, 1e-6), "a character is not as wide as its ink")
	}
	if !accent {
		nd.Assert(within(n.Height(), m.YMax, 1e-6), "a character's height is not that of its ink")
		nd.Assert(within(n.Depth(), -m.YMin, 1e-6), "a character's depth is not that of its ink")
	}
	x, y := nd.Float(-100, 1000), nd.Float(-100, 1000)
	n.Render(x, y)
	nd.Assert(len(be.ops) == 1 && !be.ops[0].rect && be.ops[0].sym == be.sym, "the glyph is not drawn once")
	o := be.ops[0]
	nd.Assert(within(o.size, be.unit*k, 1e-6), "the glyph is drawn in another size")
	if accent {
		x, y = x-m.XMin, y+m.YMin
	}
	nd.Assert(within(o.x, x, 1e-6) && within(o.y, y, 1e-6), "the glyph is drawn elsewhere")
	if s, ok := n.(interface{ String() string }); ok {
		nd.Assert(s.String() == be.sym, "the node is named after another symbol")
	}
	nd.Assert(be.other == "", be.other)
	nd.Observe(n.Width(), n.Height(), n.Depth(), o.x, o.y, o.size)
	nd.Reach("glyph")
}

// Plain: rules, boxes and spaces have the dimensions asked for.
func Plain() {
	be, st := newMeter()
	w, h, d := nd.Float(-20, 20), nd.Float(-20, 20), nd.Float(-20, 20)
	switch nd.Choose(7) {
	case 0:
		measures(tex.NewRule(w, h, d, st), w, h, d, "a rule")
	case 1:
		t := w
		if w < 0 {
			t = be.line
			nd.Reach("the font's thickness")
		}
		r := tex.HRule(st, w)
		measures(r, math.Inf(1), t/2, t/2, "a horizontal rule")
	case 2:
		measures(tex.VRule(st), be.line, math.Inf(1), math.Inf(1), "a vertical rule")
	case 3:
		measures(tex.HBox(w), w, 0, 0, "a horizontal box")
	case 4:
		measures(tex.VBox(h, d), 0, h, d, "a vertical box")
	case 5:
		measures(tex.NewKern(w), w, 0, 0, "a kern")
	case 6:
		measures(tex.NewGlue(glues[nd.Choose(len(glues))]), 0, 0, 0, "glue")
	}
	nd.Assert(be.other == "", be.other)
	nd.Assert(len(be.ops) == 0, "measuring draws")
	nd.Reach("plain")
}

// Delimiter: a character of the height and depth asked for, or scaled.
func Delimiter() {
	be, st := newMeter()
	be.math = true
	h, d := nd.Float(-4, 20), nd.Float(-4, 20)
	nd.Assume(h+d > 0.25)
	factor := []float64{0, 1, 1.5, 0.25}[nd.Choose(4)]
	k := factor
	if k == 0 {
		k = (h + d) / be.m.Height
	}
	l := tex.AutoHeightChar(be.sym, h, d, st, factor)
	nd.Assert(len(l.Nodes()) > 0, "no delimiter")
	c := l.Nodes()[0]
	nd.Assert(within(c.Depth()+l.Shift(), d, 1e-6), "a delimiter does not reach down to the depth")
	m := be.at(k)
	if factor == 0 {
		nd.Assert(within(c.Height()-l.Shift(), h, 1e-6), "a delimiter does not reach up to the height")
		nd.Reach("spans")
	} else {
		nd.Assert(within(c.Height(), m.YMax, 1e-6) && within(c.Depth(), -m.YMin, 1e-6), "a delimiter is not scaled by the factor")
		nd.Reach("scaled")
	}
	var ship tex.Ship
	ship.Call(0, 0, tex.HListOf([]tex.Node{l}, false))
	nd.Assert(len(be.ops) == 1 && be.ops[0].sym == be.sym, "the delimiter is not drawn once")
	nd.Assert(within(be.ops[0].size, be.unit*k, 1e-6), "the delimiter is drawn in another size")
	nd.Assert(be.other == "", be.other)
	nd.Observe(c.Height(), c.Depth(), l.Shift())
}
