// Package render holds the harnesses on rendering: the pages and drawings
// handed to the output, the metrics of the fonts, and the failures on the way.
package render

import (
	"errors"

	nd "github.com/go-latex/latex/internal/verifnd"
	"golang.org/x/image/font/sfnt"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Total":    Total,
	"Faults":   Faults,
	"Missing":  Missing,
	"Page":     Page,
	"Image":    Image,
	"Log":      Log,
	"Kinds":    Kinds,
	"Measure":  Measure,
	"Scale":    Scale,
	"Pairs":    Pairs,
	"History":  History,
	"FontSets": FontSets,
}

var (
	errFont   = errors.New("font failure")
	errOutput = errors.New("output failure")
)

// calls of the font that may fail.
const (
	fNone = iota
	fName
	fIndex
	fGlyphName
	fGlyph
	fKern
	fNoKern // reported as absent, which is no failure
	nFaults
)

type shape struct{ adv, xmin, ymin, xmax, ymax int32 }

// heights are the lowest and highest points of glyphs.
var heights = [][2]int32{{-200, 1400}, {100, 700}, {-900, -300}}

// world is the contents of the fonts.
type world struct {
	upem   int32
	name   string
	shapes map[string]shape // by font; arbitrary where missing, if sym
	sym    int              // 1: arbitrary advance, 2: arbitrary shapes in the first font used
	kern   int32

	fault, nth int // the nth call of the kind fails
	calls      int
	hit        bool
}

func newWorld() *world {
	return &world{upem: 2048, name: "Go", shapes: map[string]shape{}, kern: 64}
}

func (w *world) fails(kind int) bool {
	if w.fault != kind {
		return false
	}
	n := w.calls
	w.calls++
	if n == w.nth {
		w.hit = true
		return true
	}
	return false
}

func (w *world) PostScript(font string) (string, error) {
	if w.fails(fName) {
		return "", errFont
	}
	return w.name, nil
}

func (w *world) UnitsPerEm(font string) int32 { return w.upem }

func (w *world) Index(font string, r rune) (sfnt.GlyphIndex, error) {
	if w.fails(fIndex) {
		return 0, errFont
	}
	return sfnt.GlyphIndex(r), nil
}

func (w *world) GlyphName(font string, x sfnt.GlyphIndex) (string, error) {
	if w.fails(fGlyphName) {
		return "", errFont
	}
	return "g", nil
}

func (w *world) shape(font string) shape {
	s, ok := w.shapes[font]
	if ok {
		return s
	}
	s = shape{1000, 100, -200, 900, 1400}
	switch w.sym {
	case 1:
		s.adv = int32(nd.Int(0, 2000))
		h := heights[nd.Choose(len(heights))]
		s.ymin, s.ymax = h[0], h[1]
	case 2:
		if len(w.shapes) > 0 {
			break
		}
		s.adv = int32(nd.Int(0, 2000))
		s.xmin = int32(nd.Int(-500, 500))
		s.xmax = s.xmin + int32(nd.Int(0, 2000))
		s.ymin = int32(nd.Int(-1000, 1000))
		s.ymax = s.ymin + int32(nd.Int(100, 2000)) // no glyph is empty
	}
	w.shapes[font] = s
	return s
}

func (w *world) Glyph(font string, x sfnt.GlyphIndex) (adv, xmin, ymin, xmax, ymax int32, err error) {
	if w.fails(fGlyph) {
		return 0, 0, 0, 0, 0, errFont
	}
	s := w.shape(font)
	return s.adv, s.xmin, s.ymin, s.xmax, s.ymax, nil
}

func (w *world) Kern(font string, a, b sfnt.GlyphIndex) (int32, error) {
	if w.fails(fKern) {
		return 0, errFont
	}
	if w.fails(fNoKern) {
		return 0, sfnt.ErrNotFound
	}
	return w.kern, nil
}

func (w *world) XHeight(font string) int32 { return 1000 }
