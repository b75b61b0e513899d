package render

import (
	"unicode"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	nd "github.com/go-latex/latex/internal/verifnd"
	"golang.org/x/image/font/sfnt"
)

// faces is the world of the metrics' harnesses.
type faces struct {
	world
	upright, italic, bold, def *sfnt.Font
	asked                      rune
	distinct                   bool // every glyph has its own shape
	xheight                    int32
	xfont                      string
	kfont                      string
}

func newFaces() *faces {
	w := &faces{world: *newWorld(), xheight: 1000}
	w.upright, w.italic, w.bold, w.def = &sfnt.Font{ID: "r"}, &sfnt.Font{ID: "i"}, &sfnt.Font{ID: "b"}, &sfnt.Font{ID: "d"}
	sfnt.World = w
	return w
}

func (w *faces) backend() (*ttf.Backend, *drawtex.Canvas) {
	cnv := drawtex.New()
	return ttf.NewFrom(cnv, &ttf.Fonts{Default: w.def, Rm: w.upright, It: w.italic, Bf: w.bold}), cnv
}

func (w *faces) Index(font string, r rune) (sfnt.GlyphIndex, error) {
	w.asked = r
	return sfnt.GlyphIndex(r), nil
}

func (w *faces) Glyph(font string, x sfnt.GlyphIndex) (adv, xmin, ymin, xmax, ymax int32, err error) {
	if w.distinct {
		k := int32(x%97) + 7*int32(font[0]%16)
		return 1000 + k, 50 + k, -200 - k, 800 + 3*k, 1400 + 5*k, nil
	}
	return w.world.Glyph(font, x)
}

func (w *faces) Kern(font string, a, b sfnt.GlyphIndex) (int32, error) {
	w.kfont = font
	if w.distinct {
		return int32(a%31) - 2*int32(b%17) + int32(font[0]%8), nil
	}
	return w.world.Kern(font, a, b)
}

func (w *faces) XHeight(font string) int32 {
	w.xfont = font
	return w.xheight
}

var symbolNames = []string{"-", `\int`, `\alpha`, "+", `\oint`, `\Gamma`, `\sum`, "é", "2", "(", `\infty`}

var types = []string{"rm", "it", "bf", "default", "regular"}

// symbol is a name, or any character.
func symbol() string {
	i := nd.Choose(len(symbolNames) + 1)
	if i < len(symbolNames) {
		return symbolNames[i]
	}
	r := nd.Rune(0, 0x10FFFF)
	nd.Assume(r != 0xFFFD && (r < 0xD800 || r > 0xDFFF)) // invalid text is refused
	return string(r)
}

// font is the font whose glyphs a request of type typ gets.
func (w *faces) font(typ string, r rune) *sfnt.Font {
	switch typ {
	case "it":
		if r < 0x10000 && !unicode.IsLetter(r) {
			return w.upright
		}
		return w.italic
	case "bf":
		return w.bold
	case "default":
		return w.def
	}
	return w.upright
}

// Measure: the metrics are the glyph's own, scaled.
func Measure() {
	w := newFaces()
	w.sym = nd.Param("shape")
	w.upem = []int32{2048, 1000}[nd.Choose(2)]
	w.name = []string{"Go", "Cmex10"}[nd.Choose(2)]
	sym, typ, mode := symbol(), types[nd.Choose(len(types))], nd.Choose(2) == 1
	size := 10.0
	if nd.Param("shape") == 0 {
		size = nd.Float(0.5, 200)
	} else if nd.Param("size") == 1 {
		size = 12.5
	}
	dpi := nd.Float(1, 2400)
	fnt := font.Font{Name: "default", Type: typ, Size: size}

	be, cnv := w.backend()
	m := be.Metrics(sym, fnt, dpi, mode)
	r := tex2unicode.Index(sym, mode)
	nd.Observe(sym, mode, typ, w.upem, w.name)
	nd.Assert(w.asked == r, "the metrics of another character")
	f := w.font(typ, r)
	s, ok := w.shapes[f.ID]
	nd.Assert(ok && len(w.shapes) == 1, "the metrics of another font")

	nd.Assert(nd.FNear(m.Width, m.XMax-m.XMin), "the width is not that of the ink")
	nd.Assert(nd.FNear(m.Height, m.YMax-m.YMin), "the height is not that of the ink")
	nd.Assert(m.Iceberg == m.YMax, "the top is not that of the ink")
	nd.Assert(m.Slanted == (f == w.italic || sym == `\int` || sym == `\oint`), "wrongly marked as slanted or upright")

	off := 0.0
	if w.name == "Cmex10" {
		off = m.Height/2 + size/3*dpi/72
	}
	k := size / float64(w.upem)
	tol := size / 12 / 64 // the outline's grid
	close := func(a float64, units int32) bool {
		d := a - float64(units)*k
		return nd.And(nd.FLe(-tol, d), nd.FLe(d, tol))
	}
	nd.Assert(nd.And(close(m.XMin, s.xmin), close(m.XMax, s.xmax)), "the ink is not as wide as the glyph's, scaled to the size")
	nd.Assert(nd.And(close(m.YMin-off, s.ymin), close(m.YMax-off, s.ymax)), "the ink is not as high as the glyph's, scaled to the size")
	nd.AssertKnown("advance-units", nd.FNear(m.Advance, float64(s.adv)*k),
		nd.And(w.upem != 2048, nd.FNear(m.Advance, float64(s.adv)*size/2048)), "the advance is not the glyph's, scaled to the size")

	// what is drawn is what was measured
	x, y := nd.Float(-100, 1000), nd.Float(-100, 1000)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	ops := cnv.Ops()
	nd.Assert(len(ops) == 1, "a glyph is not drawn once")
	g := ops[0].(drawtex.GlyphOp)
	nd.Assert(nd.And(g.X == x, g.Y == y), "a glyph is drawn elsewhere")
	nd.Assert(g.Glyph.Font == f && g.Glyph.Symbol == string(r) && g.Glyph.Num == sfnt.GlyphIndex(r), "another glyph is drawn")
	nd.Assert(g.Glyph.Size == size, "a glyph is drawn in another size")
	nd.Assert(nd.FNear(g.Glyph.Offset, off), "a glyph is drawn with another offset")
	nd.Assert(equal(g.Glyph.Metrics, m), "a glyph is drawn with other metrics")
	nd.Reach("measured")
}

func equal(a, b font.Metrics) bool {
	r := a.Slanted == b.Slanted
	x := []float64{a.Advance, a.Height, a.Width, a.XMin, a.XMax, a.YMin, a.YMax, a.Iceberg}
	y := []float64{b.Advance, b.Height, b.Width, b.XMin, b.XMax, b.YMin, b.YMax, b.Iceberg}
	for i := range x {
		r = nd.And(r, nd.FNear(x[i], y[i]))
	}
	return r
}

// Scale: metrics are proportional to the size.
func Scale() {
	w := newFaces()
	w.sym = nd.Param("shape")
	w.upem = []int32{2048, 1000}[nd.Choose(2)]
	sym, typ, mode := symbolNames[nd.Choose(3)], types[nd.Choose(2)], nd.Choose(2) == 1
	size := nd.Float(0.5, 200)
	k := 2.5
	if nd.Param("shape") > 0 {
		size = 10
		k = []float64{0.7, 3, 1.25}[nd.Choose(3)]
	}
	dpi := nd.Float(1, 2400)
	be, _ := w.backend()
	m := be.Metrics(sym, font.Font{Name: "default", Type: typ, Size: size}, dpi, mode)
	n := be.Metrics(sym, font.Font{Name: "default", Type: typ, Size: size * k}, nd.Float(1, 2400), mode)
	m.Advance *= k
	m.Height *= k
	m.Width *= k
	m.XMin *= k
	m.XMax *= k
	m.YMin *= k
	m.YMax *= k
	m.Iceberg *= k
	nd.Assert(equal(m, n), "metrics are not in proportion to the size")
	a := be.UnderlineThickness(font.Font{Name: "default", Type: typ, Size: size}, dpi)
	b := be.UnderlineThickness(font.Font{Name: "default", Type: typ, Size: size * k}, dpi)
	nd.Assert(nd.FNear(a*k, b), "the thickness of lines is not in proportion to the size")
	c := be.UnderlineThickness(font.Font{Name: "default", Type: typ, Size: size}, dpi*1.5)
	nd.Assert(nd.FNear(a*1.5, c), "the thickness of lines is not in proportion to the resolution")
	nd.Assert(0 < a, "lines without thickness")
	nd.Reach("scaled")
}

// Pairs: kerning and x-height.
func Pairs() {
	w := newFaces()
	w.upem = []int32{2048, 1000}[nd.Choose(2)]
	w.kern = int32(nd.Int(-2000, 2000))
	w.xheight = int32(nd.Int(100, 1500))
	if nd.Choose(2) == 1 {
		w.fault = fNoKern
	}
	size := []float64{10, 12.5}[nd.Choose(2)]
	a := font.Font{Name: "default", Type: types[nd.Choose(2)], Size: size}
	b := a
	switch nd.Choose(4) {
	case 1:
		b.Name = "other"
	case 2:
		b.Size = nd.Float(1, 100)
		nd.Assume(b.Size != a.Size)
	case 3:
		b.Type = types[nd.Choose(len(types))]
	}
	s1, s2 := symbolNames[nd.Choose(3)], symbolNames[nd.Choose(4)]
	dpi := nd.Float(1, 2400)
	be, _ := w.backend()
	k := be.Kern(a, s1, b, s2, dpi)
	f1 := w.font(a.Type, tex2unicode.Index(s1, true))
	f2 := w.font(b.Type, tex2unicode.Index(s2, true))
	nd.Observe(s1, s2, a.Type, b.Type, b.Name, w.fault, w.upem)
	if a.Name != b.Name || a.Size != b.Size || f1 != f2 || w.fault == fNoKern {
		nd.Assert(k == 0, "kerning between different fonts or sizes, or where there is none")
		nd.Reach("none")
		return
	}
	nd.Assert(w.kfont == f1.ID, "the kerning of another font")
	want := float64(w.kern) * size / float64(w.upem)
	tol := size / 64 // the outline's grid
	nd.AssertKnown("kern-scale", nd.And(nd.FLe(want-tol, k), nd.FLe(k, want+tol)), nd.FNear(k, float64(w.kern)/64), "the kerning is not the font's, scaled to the size")
	nd.Reach("kern")

	f := font.Font{Name: "default", Type: []string{"rm", "bf", "default"}[nd.Choose(3)], Size: size}
	res := []float64{72, 96, 300, 36}[nd.Choose(4)]
	x := be.XHeight(f, res)
	full := float64(w.xheight) / float64(w.upem) * size * res / 72
	nd.AssertKnown("xheight-sign", nd.And(nd.FLe(full-1./32, x), nd.FLe(x, full+1./32)), nd.And(nd.FLe(full-1./32, -x), nd.FLe(-x, full+1./32)), "the x-height is not the font's, scaled to the size and resolution")
	nd.Assert(w.xfont == w.font(f.Type, 'x').ID, "the x-height of another font")
}

// History: an answer does not depend on earlier requests.
func History() {
	w := newFaces()
	if nd.Param("cmex") == 1 {
		w.name = "Cmex10"
	}
	w.distinct = true
	be, cnv := w.backend()
	type req struct {
		sym  string
		fnt  font.Font
		dpi  float64
		mode bool
	}
	any := func() req {
		r := req{sym: symbolNames[nd.Choose(nd.Param("syms"))]}
		r.fnt = font.Font{Name: []string{"default", "it"}[nd.Choose(2)], Type: types[nd.Choose(nd.Param("types"))], Size: nd.Float(1, 100)}
		r.dpi = nd.Float(1, 2400)
		r.mode = nd.Choose(2) == 1
		return r
	}
	p := any()
	n := nd.Param("n")
	mixed, known := false, req{}
	for i := 0; i < n; i++ {
		r := any()
		switch nd.Choose(3) {
		case 0:
			be.Metrics(r.sym, r.fnt, r.dpi, r.mode)
		case 1:
			r.mode = true
			be.RenderGlyph(1, 2, r.fnt, r.sym, r.dpi)
		case 2:
			r.mode = true
			be.Kern(r.fnt, r.sym, r.fnt, r.sym, r.dpi)
		}
		if !mixed && r.sym == p.sym && r.fnt == p.fnt && r.dpi == p.dpi {
			mixed, known = true, r
		}
	}
	draws := len(cnv.Ops())
	fresh, _ := w.backend()
	m := be.Metrics(p.sym, p.fnt, p.dpi, p.mode)
	want := fresh.Metrics(p.sym, p.fnt, p.dpi, p.mode)
	nd.Observe(p.sym, p.mode, mixed)
	if mixed && known.mode != p.mode {
		fresh, _ = w.backend()
		quirk := fresh.Metrics(known.sym, known.fnt, known.dpi, known.mode)
		nd.AssertKnown("key-mode", equal(m, want), equal(m, quirk), "metrics depend on earlier requests")
		nd.Reach("mode")
	} else {
		nd.Assert(equal(m, want), "metrics depend on earlier requests")
		nd.Reach("repeat")
	}
	nd.Assert(len(cnv.Ops()) == draws, "measuring draws")
	be.RenderRectFilled(p.dpi, 2, 3, 4)
	ops := cnv.Ops()
	nd.Assert(len(ops) == draws+1, "a rectangle is not drawn once")
	o, ok := ops[draws].(drawtex.RectOp)
	nd.Assert(ok && o.X1 == p.dpi && o.Y1 == 2 && o.X2 == 3 && o.Y2 == 4, "a rectangle is drawn elsewhere")
}
