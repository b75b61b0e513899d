// Package font stands in for golang.org/x/image/font.
package font

import "golang.org/x/image/math/fixed"

type Hinting int

const (
	HintingNone Hinting = iota
	HintingVertical
	HintingFull
)

type Metrics struct {
	Height, Ascent, Descent, XHeight, CapHeight fixed.Int26_6
}

// Face is a font at a size; ID tells which.
type Face interface {
	Close() error
	Metrics() Metrics
	Kern(r0, r1 rune) fixed.Int26_6
	GlyphAdvance(r rune) (advance fixed.Int26_6, ok bool)
	GlyphBounds(r rune) (bounds fixed.Rectangle26_6, advance fixed.Int26_6, ok bool)
}
