// Package typeset holds the checks of the typesetting of math expressions.
package typeset

import (
	"fmt"
	"unicode/utf8"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/internal/tex2unicode"
	nd "github.com/go-latex/latex/internal/verifnd"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Style":   Style,
	"Names":   Names,
	"Spacing": Spacing,
	"Classes": Classes,
	"Spaces":  Spaces,
	"Amounts": Amounts,
	"Layout":  Layout,

	"Decimals": Decimals,
	"Long":     Long,
}

const refSize = 8

// op is something drawn.
type op struct {
	rect         bool
	sym          string
	typ          string
	size         float64
	x, y, x2, y2 float64
}

// backend has arbitrary metrics, in proportion to the size, and records what
// is drawn.
type backend struct {
	sym     bool // whether metrics are arbitrary, or constant
	metrics map[string]font.Metrics
	kerns   map[string]float64
	xheight float64
	line    float64
	ops     []op
}

func newBackend(sym bool) *backend {
	be := &backend{
		sym: sym, metrics: map[string]font.Metrics{}, kerns: map[string]float64{},
		xheight: 4, line: 0.5,
	}
	if sym {
		be.line = nd.Float(0.25, 2)
	}
	return be
}

func (be *backend) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {
	be.ops = append(be.ops, op{sym: sym, typ: f.Type, size: f.Size, x: x, y: y})
}

func (be *backend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.ops = append(be.ops, op{rect: true, x: x1, y: y1, x2: x2, y2: y2})
}

func (be *backend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if !be.sym || f1.Type != f2.Type || f1.Size != f2.Size {
		return 0
	}
	key := f1.Type + " " + s1 + " " + s2
	k, ok := be.kerns[key]
	if !ok {
		k = nd.Float(-2, 2)
		be.kerns[key] = k
	}
	return k * (f1.Size / refSize)
}

// constants are the metrics where they are not arbitrary.
var constants = font.Metrics{
	XMin: 0.5, XMax: 4.5, Width: 4, YMin: -1, YMax: 6, Height: 7, Iceberg: 6, Advance: 5,
}

func known(sym string) bool {
	if utf8.RuneCountInString(sym) == 1 {
		return true
	}
	return len(sym) > 1 && sym[0] == '\\' && (sym == `\__sqrt__` || tex2unicode.HasSymbol(sym[1:]))
}

func (be *backend) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	var m font.Metrics
	switch {
	case sym == `\__sqrt__` || (len(sym) == 1 && (sym == "(" || sym == ")")):
		// Its metrics scale the symbol to its content: constant, to stay linear.
		m = constants
	case !be.sym:
		if !known(sym) {
			panic(fmt.Errorf("no glyph for %q", sym))
		}
		m = constants
	default:
		key := f.Type + " " + sym
		var ok bool
		m, ok = be.metrics[key]
		if !ok {
			if !known(sym) {
				panic(fmt.Errorf("no glyph for %q", sym))
			}
			m.XMin = nd.Float(-4, 4)
			m.Width = nd.Float(0, 16)
			m.XMax = m.XMin + m.Width
			m.YMin = nd.Float(-8, 8)
			m.Height = nd.Float(0, 16)
			m.YMax = m.YMin + m.Height
			m.Iceberg = m.YMax
			m.Advance = nd.Float(0, 20)
			be.metrics[key] = m
		}
	}
	k := f.Size / refSize
	return font.Metrics{
		Advance: m.Advance * k, Width: m.Width * k, Height: m.Height * k,
		XMin: m.XMin * k, XMax: m.XMax * k, YMin: m.YMin * k, YMax: m.YMax * k,
		Iceberg: m.Iceberg * k,
	}
}

func (be *backend) XHeight(f font.Font, dpi float64) float64 { return be.xheight * (f.Size / refSize) }

func (be *backend) UnderlineThickness(f font.Font, dpi float64) float64 {
	return be.line * (f.Size / refSize)
}
