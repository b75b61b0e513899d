// Package opentype stands in for golang.org/x/image/font/opentype.
package opentype

import (
	"errors"

	"golang.org/x/image/font"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

type Font = sfnt.Font

type FaceOptions struct {
	Size    float64
	DPI     float64
	Hinting font.Hinting
}

// Face is a font at a size.
type Face struct {
	Font   *Font
	Size   float64
	DPI    float64
	Hint   font.Hinting
	Closed bool
}

// Fail makes NewFace fail; the real one never does.
var Fail bool

func Parse(src []byte) (*Font, error) { return sfnt.Parse(src) }

func NewFace(f *Font, opts *FaceOptions) (font.Face, error) {
	if Fail {
		return nil, errors.New("opentype: no face")
	}
	if opts == nil {
		opts = &FaceOptions{Size: 12, DPI: 72}
	}
	return &Face{Font: f, Size: opts.Size, DPI: opts.DPI, Hint: opts.Hinting}, nil
}

func (f *Face) scale() fixed.Int26_6 { return fixed.Int26_6(0.5 + (f.Size * f.DPI * 64 / 72)) }

func (f *Face) Close() error {
	f.Closed = true
	return nil
}

func (f *Face) Metrics() font.Metrics {
	m, _ := f.Font.Metrics(nil, f.scale(), f.Hint)
	return m
}

func (f *Face) Kern(r0, r1 rune) fixed.Int26_6 {
	a, _ := f.Font.GlyphIndex(nil, r0)
	b, _ := f.Font.GlyphIndex(nil, r1)
	k, err := f.Font.Kern(nil, a, b, f.scale(), f.Hint)
	if err != nil {
		return 0
	}
	return k
}

func (f *Face) GlyphAdvance(r rune) (fixed.Int26_6, bool) {
	x, _ := f.Font.GlyphIndex(nil, r)
	adv, err := f.Font.GlyphAdvance(nil, x, f.scale(), f.Hint)
	return adv, err == nil
}

func (f *Face) GlyphBounds(r rune) (fixed.Rectangle26_6, fixed.Int26_6, bool) {
	x, _ := f.Font.GlyphIndex(nil, r)
	b, adv, err := f.Font.GlyphBounds(nil, x, f.scale(), f.Hint)
	return b, adv, err == nil
}
