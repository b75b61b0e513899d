package typeset

import (
	"github.com/go-latex/latex/font"
	nd "github.com/go-latex/latex/internal/verifnd"
)

// drawing is an expected drawing, relative to the left end of the baseline
// of its fragment.
type drawing struct {
	op
	tx, ty float64 // tolerances, for the rounding of glue to whole points
	bar    float64 // what a bar of a stack may be too low by
}

// frag is a typeset fragment: what it draws and its dimensions.
type frag struct {
	draw    []drawing
	w, h, d float64

	char bool // a single character, and its font
	sym  string
	typ  string
	adv  float64
}

func max(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}

func (f frag) at(x, y float64) []drawing {
	var r []drawing
	for _, o := range f.draw {
		o.x, o.x2 = o.x+x, o.x2+x
		o.y, o.y2 = o.y+y, o.y2+y
		r = append(r, o)
	}
	return r
}

func (f frag) scaled(k float64) frag {
	r := frag{w: f.w * k, h: f.h * k, d: f.d * k}
	for _, o := range f.draw {
		o.size *= k
		o.x, o.x2 = o.x*k, o.x2*k
		o.y, o.y2 = o.y*k, o.y2*k
		o.bar *= k
		r.draw = append(r.draw, o)
	}
	return r
}

func fuzzy(ds []drawing, tx, ty float64) []drawing {
	for i := range ds {
		ds[i].tx += tx
		ds[i].ty += ty
	}
	return ds
}

// ref typesets the meaning of an expression.
type ref struct {
	be   *backend
	src  string
	size float64
}

// style is the style in force.
type style struct {
	typ  string
	math bool
}

func (r *ref) metrics(sym string, typ string, size float64) font.Metrics {
	return r.be.Metrics(sym, font.Font{Type: typ, Size: size}, 72, true)
}

func (r *ref) sized(sym string, st style, size float64) frag {
	m := r.metrics(sym, st.typ, size)
	f := frag{char: true, sym: sym, typ: st.typ, adv: m.Advance}
	f.w = m.Width
	if sym == " " {
		f.w = m.Advance
	}
	f.h = m.Iceberg
	f.d = m.Height - m.Iceberg
	f.draw = []drawing{{op: op{sym: sym, typ: st.typ, size: size}}}
	return f
}

func (r *ref) char(sym string, st style) frag { return r.sized(sym, st, r.size) }

func space(w float64) frag { return frag{w: w} }

// line sets fragments side by side.
func (r *ref) line(fs ...frag) frag {
	var l frag
	for i, f := range fs {
		l.draw = append(l.draw, f.at(l.w, 0)...)
		if f.char {
			l.w += f.adv
			if i+1 < len(fs) && fs[i+1].char {
				g := fs[i+1]
				l.w += r.be.Kern(font.Font{Type: f.typ, Size: r.size}, f.sym, font.Font{Type: g.typ, Size: r.size}, g.sym, 72)
			}
		} else {
			l.w += f.w
		}
		l.h = max(l.h, f.h)
		l.d = max(l.d, f.d)
	}
	return l
}

// raised is a fragment moved up or down, whose reach counts from there.
func (r *ref) raised(f frag, down float64) frag {
	return frag{draw: f.at(0, down), w: f.w, h: f.h - down, d: f.d + down}
}

func (r *ref) em() float64 { return r.metrics("m", "it", r.size).Advance }

func (r *ref) line0() float64 { return r.be.line * (r.size / refSize) }

// items typesets a list of pieces: its fragments are those of the list it is in.
func (r *ref) items(ps []*piece, st style) []frag {
	var fs []frag
	opens := true
	for _, p := range ps {
		fs = append(fs, r.piece(p, st, opens)...)
		opens = leftDelims[p.text] || (p.kind == kBlank && opens)
	}
	return fs
}

var leftDelims = map[string]bool{
	"(": true, "[": true, "<": true, `\{`: true, `\langle`: true, `\lfloor`: true, `\lceil`: true,
}

func digitAt(s string, i int) bool {
	return i >= 0 && i < len(s) && s[i] >= '0' && s[i] <= '9'
}

func (r *ref) piece(p *piece, st style, opens bool) []frag {
	one := func(f frag) []frag { return []frag{f} }
	switch p.kind {
	case kWord:
		var cs []frag
		for i := 0; i < len(p.text); i++ {
			cs = append(cs, r.char(p.text[i:i+1], st))
		}
		return one(r.line(cs...))
	case kDigit:
		var cs []frag
		for i := 0; i < len(p.text); i++ {
			cs = append(cs, r.char(p.text[i:i+1], st))
		}
		return cs
	case kMacro, kDelim, kBlank:
		return one(r.char(p.text, st))
	case kDot:
		if !st.math || digitAt(r.src, p.pos-1) && digitAt(r.src, p.pos+1) {
			return one(r.char(".", st))
		}
		return one(r.line(r.char(".", st), space(0.2*r.em())))
	case kBinary, kRel:
		if p.kind == kBinary && opens {
			return one(r.char(p.text, st))
		}
		return one(r.line(space(0.2*r.em()), r.char(p.text, st), space(0.2*r.em())))
	case kSpace:
		if p.em != nil {
			return one(space(*p.em * r.em()))
		}
		return one(space(ems[p.text] * r.em()))
	case kFunc, kFuncArg:
		var cs []frag
		for i := 1; i < len(p.text); i++ {
			cs = append(cs, r.char(p.text[i:i+1], style{"rm", st.math}))
		}
		f := r.line(cs...)
		if p.kind == kFuncArg {
			f = r.line(f, r.line(r.items(p.a, st)...))
		}
		return one(f)
	case kGroup:
		return r.items(p.a, st)
	case kMath:
		return r.items(p.a, style{"it", true})
	case kFrac, kTFrac, kDFrac, kBinom:
		return one(r.frac(p, st))
	case kSqrt, kRoot:
		return one(r.root(p, st))
	case kOver:
		return one(r.overline(p, st))
	}
	panic("kind")
}

// ems are the documented widths of the explicit spaces.
var ems = map[string]float64{
	`\,`: 0.16667, `\thinspace`: 0.16667, `\/`: 0.16667,
	`\>`: 0.22222, `\:`: 0.22222, `\;`: 0.27778,
	`\ `: 0.33333, `~`: 0.33333, `\enspace`: 0.5, `\quad`: 1, `\qquad`: 2, `\!`: -0.16667,
}

// centred is the offset of a part of width w in a stack of width all.
func (r *ref) centred(f frag, all float64) []drawing {
	if f.w == all {
		return f.at(0, 0)
	}
	return fuzzy(f.at((all-f.w)/2, 0), 0.5, 0)
}

func moved(ds []drawing, y float64) []drawing {
	return frag{draw: ds}.at(0, y)
}

func (r *ref) frac(p *piece, st style) frag {
	num := r.line(r.items(p.a, st)...)
	den := r.line(r.items(p.b, st)...)
	t := r.line0()
	rule := t
	if p.kind != kDFrac {
		num, den = num.scaled(0.7), den.scaled(0.7)
	}
	if p.kind == kBinom {
		rule = 0
	}
	w := max(num.w, den.w)
	eq := r.metrics("=", "it", r.size)
	axis := (eq.YMax + eq.YMin) / 2
	// the bar, or the lack of one, ends one thickness below the axis.
	bottom := t - axis
	f := frag{w: max(0, w) + 2*t}
	numY := bottom - rule - 2*t - num.d
	denY := bottom + 2*t + den.h
	f.draw = append(f.draw, moved(r.centred(num, w), numY)...)
	if rule > 0 && w > 0 {
		f.draw = append(f.draw, drawing{op: op{rect: true, x: 0, x2: w, y: bottom - rule, y2: bottom}, bar: rule})
	}
	f.draw = append(f.draw, moved(r.centred(den, w), denY)...)
	f.h = max(0, num.h-numY)
	f.d = max(0, den.d+denY)
	if p.kind != kBinom {
		return f
	}
	return r.line(r.tall("(", f.h, f.d, st), f, r.tall(")", f.h, f.d, st))
}

// tall is a symbol scaled and moved to span a height and depth.
func (r *ref) tall(sym string, h, d float64, st style) frag {
	m := r.metrics(sym, st.typ, r.size)
	k := (h + d) / m.Height
	c := r.sized(sym, st, r.size*k)
	return r.raised(r.line(c), d-c.d)
}

func (r *ref) lift() float64 { return r.size * 72 / 1200 }

func (r *ref) root(p *piece, st style) frag {
	t := r.line0()
	body := r.line(r.items(p.b, st)...)
	h := body.h + 5*t
	d := body.d
	check := r.tall(`\__sqrt__`, h, d, st)
	index := space(check.w / 2)
	if p.kind == kRoot {
		index = r.line(r.items(p.a, st)...).scaled(0.7).scaled(0.7)
	}
	var f frag
	up := 0.6 * h
	f.draw = append(f.draw, index.at(0, -up)...)
	x := max(0, index.w) - check.w/2
	f.draw = append(f.draw, check.at(x, 0)...)
	x += check.w
	w := body.w + 4*t
	top := -(h + r.lift())
	if w > 0 && t > 0 {
		f.draw = append(f.draw, drawing{op: op{rect: true, x: x, x2: x + w, y: top, y2: top + t}, bar: t})
	}
	f.draw = append(f.draw, fuzzy(body.at(x+2*t, 0), 0, 0.5)...)
	f.w = x + max(0, w)
	f.h = max(0, max(h+r.lift(), index.h+up))
	f.d = max(0, max(d, index.d-up))
	return f
}

func (r *ref) overline(p *piece, st style) frag {
	t := r.line0()
	body := r.line(r.items(p.a, st)...)
	top := -(body.h + 3*t + r.lift())
	f := frag{w: max(0, body.w), h: -top, d: body.d}
	if body.w > 0 {
		f.draw = append(f.draw, drawing{op: op{rect: true, x: 0, x2: body.w, y: top, y2: top + t}, bar: t})
	}
	f.draw = append(f.draw, fuzzy(body.at(0, 0), 0, 0.5)...)
	return f
}

func within(a, b, tol float64) bool {
	if tol == 0 {
		return nd.FNear(a, b)
	}
	return nd.And(nd.FLe(a, b+tol), nd.FLe(b, a+tol))
}
