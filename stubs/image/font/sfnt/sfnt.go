// Package sfnt stands in for golang.org/x/image/font/sfnt: a font's tables
// are whatever the harness's World says, scaled as the real package does.
package sfnt

import (
	"errors"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

var ErrNotFound = errors.New("sfnt: not found")

type GlyphIndex uint16

type Units int32

type NameID uint16

const (
	NameIDCopyright        NameID = 0
	NameIDFamily                  = 1
	NameIDSubfamily               = 2
	NameIDUniqueIdentifier        = 3
	NameIDFull                    = 4
	NameIDVersion                 = 5
	NameIDPostScript              = 6
)

type Buffer struct{ _ int }

type Segment struct {
	Op   int
	Args [3]fixed.Point26_6
}

type Segments []Segment

type LoadGlyphOptions struct{}

// Font is a font; the data it was parsed from is its name.
type Font struct{ ID string }

// Tables are the contents of all fonts.
type Tables interface {
	PostScript(font string) (string, error)
	UnitsPerEm(font string) int32
	Index(font string, r rune) (GlyphIndex, error)
	GlyphName(font string, x GlyphIndex) (string, error)
	// Glyph is in font units, y upwards.
	Glyph(font string, x GlyphIndex) (adv, xmin, ymin, xmax, ymax int32, err error)
	Kern(font string, a, b GlyphIndex) (int32, error)
	XHeight(font string) int32
}

// World holds the tables of all fonts.
var World Tables

func Parse(src []byte) (*Font, error) {
	if len(src) == 0 {
		return nil, errors.New("sfnt: invalid source data")
	}
	return &Font{ID: string(src)}, nil
}

func scale(x fixed.Int26_6, unitsPerEm Units) fixed.Int26_6 {
	if x >= 0 {
		x += fixed.Int26_6(unitsPerEm) / 2
	} else {
		x -= fixed.Int26_6(unitsPerEm) / 2
	}
	return x / fixed.Int26_6(unitsPerEm)
}

func (f *Font) UnitsPerEm() Units { return Units(World.UnitsPerEm(f.ID)) }

func (f *Font) Name(b *Buffer, id NameID) (string, error) {
	if id != NameIDPostScript {
		return f.ID, nil
	}
	return World.PostScript(f.ID)
}

func (f *Font) GlyphIndex(b *Buffer, r rune) (GlyphIndex, error) { return World.Index(f.ID, r) }

func (f *Font) GlyphName(b *Buffer, x GlyphIndex) (string, error) {
	return World.GlyphName(f.ID, x)
}

func (f *Font) LoadGlyph(b *Buffer, x GlyphIndex, ppem fixed.Int26_6, opts *LoadGlyphOptions) (Segments, error) {
	_, _, _, _, _, err := World.Glyph(f.ID, x)
	return nil, err
}

func (f *Font) GlyphBounds(b *Buffer, x GlyphIndex, ppem fixed.Int26_6, h font.Hinting) (bounds fixed.Rectangle26_6, advance fixed.Int26_6, err error) {
	adv, xmin, ymin, xmax, ymax, err := World.Glyph(f.ID, x)
	if err != nil {
		return fixed.Rectangle26_6{}, 0, err
	}
	u := f.UnitsPerEm()
	bounds.Min.X = scale(fixed.Int26_6(xmin)*ppem, u)
	bounds.Max.X = scale(fixed.Int26_6(xmax)*ppem, u)
	bounds.Min.Y = -scale(fixed.Int26_6(ymax)*ppem, u)
	bounds.Max.Y = -scale(fixed.Int26_6(ymin)*ppem, u)
	return bounds, hint(scale(fixed.Int26_6(adv)*ppem, u), h), nil
}

func hint(x fixed.Int26_6, h font.Hinting) fixed.Int26_6 {
	if h == font.HintingFull {
		return (x + 32) &^ 63
	}
	return x
}

func (f *Font) GlyphAdvance(b *Buffer, x GlyphIndex, ppem fixed.Int26_6, h font.Hinting) (fixed.Int26_6, error) {
	adv, _, _, _, _, err := World.Glyph(f.ID, x)
	if err != nil {
		return 0, err
	}
	return hint(scale(fixed.Int26_6(adv)*ppem, f.UnitsPerEm()), h), nil
}

func (f *Font) Kern(b *Buffer, x0, x1 GlyphIndex, ppem fixed.Int26_6, h font.Hinting) (fixed.Int26_6, error) {
	k, err := World.Kern(f.ID, x0, x1)
	if err != nil {
		return 0, err
	}
	return hint(scale(fixed.Int26_6(k)*ppem, f.UnitsPerEm()), h), nil
}

func (f *Font) Metrics(b *Buffer, ppem fixed.Int26_6, h font.Hinting) (font.Metrics, error) {
	return font.Metrics{XHeight: scale(fixed.Int26_6(World.XHeight(f.ID))*ppem, f.UnitsPerEm())}, nil
}
