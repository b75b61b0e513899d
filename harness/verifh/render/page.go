package render

import (
	"bytes"
	"errors"
	"image/color"
	"io"
	"math"

	"git.sr.ht/~sbinet/gg"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/opentype"
	"golang.org/x/image/font/sfnt"
)

var atoms = []string{"x", "+", "", `\int`, `\quad`, "2", `{y=z}`, `\sin`, `\frac{a}{b}`, `\sqrt{c}`}

var pages = []string{
	`$@@$`, `@ $@$`, `$\frac{@}{@}$`, `$\sqrt[@]{@}$`, `$\overline{@}@$`, `$\binom{@}{@}$`, `$\dfrac{1}{\frac{@}{@}}$`,
	`$\!@$`, `a@b`, `$@\,@\,p$`,
}

func pageSource() string {
	t := pages[nd.Choose(len(pages))]
	s := ""
	for i := 0; i < len(t); i++ {
		if t[i] == '@' {
			s += atoms[nd.Choose(nd.Param("atoms"))]
			continue
		}
		s += t[i : i+1]
	}
	return s
}

// Page: the output gets the drawings of the layout and a page of its size.
func Page() {
	src := pageSource()
	size := []float64{10, 12.5, 7}[nd.Param("size")]
	dpi := nd.Float(1, 2400)
	w := newWorld()
	w.sym = nd.Param("shape")
	sfnt.World = w
	var fs *ttf.Fonts
	if nd.Param("fonts") == 1 {
		fs = &ttf.Fonts{Default: &sfnt.Font{ID: "d"}, Rm: &sfnt.Font{ID: "r"}, It: &sfnt.Font{ID: "i"}, Bf: &sfnt.Font{ID: "b"}, BfIt: &sfnt.Font{ID: "bi"}}
	}

	var o output
	err := mtex.Render(&o, src, size, dpi, fs)

	cnv := drawtex.New()
	be := ttf.New(cnv)
	if fs != nil {
		be = ttf.NewFrom(cnv, fs)
	}
	box, perr := mtex.Parse(src, size, 72, be)
	nd.Observe(src, err == nil, perr == nil)
	o.reported(err)
	nd.Assert((o.calls == 1) == (perr == nil), "rendered although it cannot be typeset, or not although it can")
	if perr != nil {
		return
	}
	var sh tex.Ship
	sh.Call(0, 0, box.(tex.Tree))

	nd.Assert(o.dpi == dpi, "the resolution is not the caller's")
	nd.Assert(nd.FNear(o.w*72, box.Width()), "the page is not as wide as the layout")
	need := box.Height() + math.Max(box.Depth(), 0)
	h := o.h * 72
	nd.Assert(nd.And(nd.FLe(need, h+1e-6), nd.FLe(h, need+1+1e-6)), "the page is not as high as the layout, rounded up")
	nd.Assert(nd.FNear(h, math.Ceil(need)), "the page is not a whole number of points high")

	got, want := o.cnv.Ops(), cnv.Ops()
	nd.Assert(len(got) == len(want), "drawings are lost or added")
	for i := range want {
		same(got[i], want[i])
	}
	nd.Reach("page")
}

func same(a, b drawtex.Op) {
	switch b := b.(type) {
	case drawtex.GlyphOp:
		a, ok := a.(drawtex.GlyphOp)
		nd.Assert(ok, "a glyph became something else")
		nd.Assert(nd.And(nd.FNear(a.X, b.X), nd.FNear(a.Y, b.Y)), "a glyph is drawn elsewhere")
		nd.Assert(a.Glyph.Font == b.Glyph.Font && a.Glyph.Symbol == b.Glyph.Symbol && a.Glyph.Num == b.Glyph.Num, "another glyph is drawn")
		nd.Assert(nd.FNear(a.Glyph.Size, b.Glyph.Size), "a glyph is drawn in another size")
	case drawtex.RectOp:
		a, ok := a.(drawtex.RectOp)
		nd.Assert(ok, "a rectangle became something else")
		nd.Assert(nd.And(nd.And(nd.FNear(a.X1, b.X1), nd.FNear(a.Y1, b.Y1)), nd.And(nd.FNear(a.X2, b.X2), nd.FNear(a.Y2, b.Y2))), "a rectangle is drawn elsewhere")
	}
}

type writer struct {
	bytes.Buffer
	fail   bool
	failed bool
}

func (w *writer) Write(p []byte) (int, error) {
	if w.fail {
		w.failed = true
		return 0, errOutput
	}
	return len(p), nil
}

// glyph is an arbitrary drawing of a glyph.
func glyph(i int) drawtex.GlyphOp {
	return drawtex.GlyphOp{
		X: nd.Float(-100, 1000), Y: nd.Float(-100, 1000),
		Glyph: drawtex.Glyph{
			Font:    &sfnt.Font{ID: "f"},
			Size:    nd.Float(1, 100),
			Symbol:  string(rune('a' + i)),
			Num:     sfnt.GlyphIndex(i),
			Offset:  nd.Float(-10, 10),
			Metrics: font.Metrics{Advance: nd.Float(0, 10)},
		},
	}
}

func rect() drawtex.RectOp {
	return drawtex.RectOp{X1: nd.Float(-100, 1000), Y1: nd.Float(-100, 1000), X2: nd.Float(-100, 1000), Y2: nd.Float(-100, 1000)}
}

// drawings makes a canvas.
func drawings(n int) (*drawtex.Canvas, []drawtex.Op) {
	cnv := drawtex.New()
	var ops []drawtex.Op
	for i := 0; i < n; i++ {
		switch nd.Choose(2) {
		case 0:
			g := glyph(i)
			ops = append(ops, g)
			cnv.RenderGlyph(g.X, g.Y, g.Glyph)
		case 1:
			r := rect()
			ops = append(ops, r)
			cnv.RenderRectFilled(r.X1, r.Y1, r.X2, r.Y2)
		}
	}
	return cnv, ops
}

var resolutions = []float64{72, 100, 96, 300, 36, 150}

// Image: the image renderer scales the page and all drawings by resolution/72.
func Image() {
	cnv, ops := drawings(nd.Choose(nd.Param("n") + 1))
	dpi := resolutions[nd.Choose(nd.Param("dpis"))]
	width, height := nd.Float(0, 20), nd.Float(0, 20)
	out := &writer{fail: nd.Choose(2) == 1}
	gg.Last = nil
	err := drawimg.NewRenderer(io.Writer(out)).Render(width, height, dpi, cnv)
	nd.Observe(len(ops), dpi, err != nil)

	c := gg.Last
	nd.Assert(c != nil, "no image")
	w, h := float64(c.W), float64(c.H)
	nd.Assert(nd.And(nd.FLe(width*dpi, w+1e-6), nd.FLe(w, width*dpi+1+1e-6)), "the image is not as wide as the page, rounded up")
	nd.Assert(nd.And(nd.FLe(height*dpi, h+1e-6), nd.FLe(h, height*dpi+1+1e-6)), "the image is not as high as the page, rounded up")
	nd.Assert(nd.And(nd.FNear(w, math.Ceil(width*dpi)), nd.FNear(h, math.Ceil(height*dpi))), "the image is not the page, rounded up")
	nd.Assert(len(c.Ops) == len(ops), "drawings are lost or added")
	k := dpi / 72
	for i, op := range ops {
		d := c.Ops[i]
		r, g, b, a := d.Color.RGBA()
		br, bg, bb, ba := color.Black.RGBA()
		nd.Assert(r == br && g == bg && b == bb && a == ba, "not drawn in black")
		switch op := op.(type) {
		case drawtex.GlyphOp:
			nd.Assert(d.Kind == "text" && d.Text == op.Glyph.Symbol, "a glyph became something else")
			nd.Assert(nd.And(nd.FNear(d.X, op.X*k), nd.FNear(d.Y, op.Y*k)), "a glyph is drawn elsewhere")
			f, ok := d.Face.(*opentype.Face)
			nd.Assert(ok && f.Font == op.Glyph.Font, "a glyph is drawn in another font")
			nd.Assert(nd.FNear(f.Size*f.DPI, op.Glyph.Size*dpi), "a glyph is drawn in another size")
		case drawtex.RectOp:
			nd.Assert(d.Kind == "fill", "a rectangle became something else")
			n := len(d.Path)
			nd.Assert(n == 4 || n == 5, "a rectangle became another shape")
			nd.Assert(outline(d.Path, op.X1*k, op.Y1*k, op.X2*k, op.Y2*k), "a rectangle is drawn elsewhere")
		}
	}
	// only images with pixels can be written
	if err != nil {
		nd.Assert(out.failed && errors.Is(err, errOutput) || c.W == 0 || c.H == 0, "an error although nothing failed")
		nd.Reach("error")
	} else {
		nd.Assert(!out.failed, "the failure to write is lost")
		nd.Reach("image")
	}
}

// outline tells the path around a rectangle, from any corner, either way.
func outline(p [][2]float64, x1, y1, x2, y2 float64) bool {
	c := [4][2]float64{{x1, y1}, {x2, y1}, {x2, y2}, {x1, y2}}
	r := false
	for s := 0; s < 4; s++ {
		for _, dir := range []int{1, 3} {
			ok := true
			for i := range p {
				q := c[(s+dir*i)%4]
				ok = nd.And(ok, nd.And(nd.FNear(p[i][0], q[0]), nd.FNear(p[i][1], q[1])))
			}
			r = nd.Or(r, ok)
		}
	}
	return r
}
