// Package gg stands in for git.sr.ht/~sbinet/gg: it records what is drawn.
package gg

import (
	"image"
	"image/color"
	"sync"

	"golang.org/x/image/font"
)

// Op is something drawn: a string with the face and color in force, or the
// outline of a filled path.
type Op struct {
	Kind  string // "text" or "fill"
	Text  string
	Face  font.Face
	Color color.Color
	X, Y  float64
	Path  [][2]float64
}

// Context records drawings.
type Context struct {
	W, H   int
	Ops    []Op
	face   font.Face
	color  color.Color
	path   [][2]float64
	closed bool
}

// Last is the context created last.
var Last *Context

var mu sync.Mutex

func NewContext(width, height int) *Context {
	const huge = 1 << 31
	if width > huge || width < -huge || height > huge || height < -huge {
		// image.NewRGBA panics, or runs out of memory.
		panic("image: NewRGBA Rectangle has huge or negative dimensions")
	}
	c := &Context{W: width, H: height}
	mu.Lock()
	Last = c
	mu.Unlock()
	return c
}

func (c *Context) Width() int  { return c.W }
func (c *Context) Height() int { return c.H }

// Image is the one the drawing ends up in, without its pixels.
func (c *Context) Image() image.Image {
	if c.W == 0 || c.H == 0 {
		return &image.RGBA{Rect: image.Rect(0, 0, 0, 0)}
	}
	return &image.RGBA{Pix: make([]uint8, 4), Stride: 4, Rect: image.Rect(0, 0, 1, 1)}
}

func (c *Context) SetColor(col color.Color) { c.color = col }
func (c *Context) SetFontFace(f font.Face)  { c.face = f }
func (c *Context) SetRGB(r, g, b float64)   { c.color = color.Black }
func (c *Context) SetLineWidth(w float64)   {}
func (c *Context) NewSubPath()              {}
func (c *Context) ClearPath()               { c.path = nil }
func (c *Context) MoveTo(x, y float64)      { c.path = append(c.path, [2]float64{x, y}) }
func (c *Context) LineTo(x, y float64)      { c.path = append(c.path, [2]float64{x, y}) }
func (c *Context) ClosePath()               {}
func (c *Context) Clear()                   {}
func (c *Context) DrawRectangle(x, y, w, h float64) {
	c.path = append(c.path, [2]float64{x, y}, [2]float64{x + w, y}, [2]float64{x + w, y + h}, [2]float64{x, y + h}, [2]float64{x, y})
}

func (c *Context) Fill() {
	c.Ops = append(c.Ops, Op{Kind: "fill", Color: c.color, Path: c.path})
	c.path = nil
}

func (c *Context) DrawString(s string, x, y float64) {
	c.Ops = append(c.Ops, Op{Kind: "text", Text: s, Face: c.face, Color: c.color, X: x, Y: y})
}
