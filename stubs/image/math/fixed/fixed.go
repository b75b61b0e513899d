// Package fixed stands in for golang.org/x/image/math/fixed: the same types,
// without the arithmetic this module does not use.
package fixed

// Int26_6 is a signed 26.6 fixed-point number.
type Int26_6 int32

func I(i int) Int26_6 { return Int26_6(i << 6) }

func (x Int26_6) Floor() int { return int((x + 0x00) >> 6) }
func (x Int26_6) Round() int { return int((x + 0x20) >> 6) }
func (x Int26_6) Ceil() int  { return int((x + 0x3f) >> 6) }

func (x Int26_6) Mul(y Int26_6) Int26_6 {
	return Int26_6((int64(x)*int64(y) + 1<<5) >> 6)
}

// Int52_12 is a signed 52.12 fixed-point number.
type Int52_12 int64

func P(x, y int) Point26_6 { return Point26_6{Int26_6(x << 6), Int26_6(y << 6)} }

type Point26_6 struct{ X, Y Int26_6 }

func (p Point26_6) Add(q Point26_6) Point26_6 { return Point26_6{p.X + q.X, p.Y + q.Y} }
func (p Point26_6) Sub(q Point26_6) Point26_6 { return Point26_6{p.X - q.X, p.Y - q.Y} }

func R(minX, minY, maxX, maxY int) Rectangle26_6 {
	return Rectangle26_6{P(minX, minY), P(maxX, maxY)}
}

type Rectangle26_6 struct{ Min, Max Point26_6 }

func (r Rectangle26_6) Empty() bool { return r.Min.X >= r.Max.X || r.Min.Y >= r.Max.Y }
