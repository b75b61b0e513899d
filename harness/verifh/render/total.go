package render

import (
	"errors"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/verifh/parse"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/sfnt"
)

// output is what a page is handed to.
type output struct {
	calls     int
	failed    bool
	w, h, dpi float64
	cnv       *drawtex.Canvas
}

func (o *output) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	o.calls++
	o.w, o.h, o.dpi, o.cnv = w, h, dpi, cnv
	if nd.Bool() {
		o.failed = true
		return errOutput
	}
	return nil
}

// reported asserts what holds of any rendering.
func (o *output) reported(err error) {
	nd.Assert(o.calls <= 1, "rendered more than once")
	if o.calls == 0 {
		nd.Assert(err != nil, "nothing rendered and no error")
		return
	}
	nd.Assert((err != nil) == o.failed, "an error of the output is lost, or an error reported after the output succeeded")
	if o.failed {
		nd.Assert(errors.Is(err, errOutput), "the error reported is not that of the output")
	}
}

// Total: typesetting and rendering any string end in a result or an error.
func Total() {
	src := parse.Source()
	sfnt.World = newWorld()
	box, perr := mtex.Parse(src, 10, 72, ttf.New(drawtex.New()))
	nd.Assert((box == nil) == (perr != nil), "neither layout nor error, or both")
	var o output
	err := mtex.Render(&o, src, 10, 100, nil)
	o.reported(err)
	nd.Assert((o.calls == 1) == (perr == nil), "rendered although it cannot be typeset, or not although it can")
	if perr != nil {
		nd.Assert(len(perr.Error()) > 0 && len(err.Error()) > 0, "error without a text")
		nd.Reach("rejected")
	} else {
		nd.Reach("rendered")
	}
	nd.Observe(src, err != nil)
}

var sources = []string{
	`$x-1$`, `a-b`, `$\frac{a}{b}$`, `$\sqrt[3]{-x}$`, `$\binom{n}{k}$`, `$\overline{x}$`, `$\sin x$`, `\frac{-}{2}`,
	`$\exp{-x}$`, `$(x)\pm\int$`, `$\dfrac{\frac{-}{1}}{2}\,y$`, `x $y$ z`, `\sqrt{-}`, `$.5$`, ``,
}

// Faults: any failure of the font ends in an error, and nothing is rendered.
func Faults() {
	src := sources[nd.Choose(len(sources))]
	w := newWorld()
	w.fault = nd.Choose(nFaults)
	w.nth = nd.Int(0, 200)
	sfnt.World = w
	var o output
	err := mtex.Render(&o, src, 10, 72, nil)
	nd.Observe(src, w.fault, w.hit)
	if w.hit {
		nd.Reach("failed")
		nd.Assert(w.fault == fNoKern || o.calls == 0, "rendered although the font failed")
	} else {
		nd.Reach("worked")
		nd.Assert(o.calls == 1, "not rendered although nothing failed")
	}
	o.reported(err)
}

// Missing: any of the fonts may be missing.
func Missing() {
	src := sources[nd.Choose(len(sources))]
	sfnt.World = newWorld()
	var fs ttf.Fonts
	all := true
	for i, p := range []**sfnt.Font{&fs.Default, &fs.Rm, &fs.It, &fs.Bf, &fs.BfIt} {
		if nd.Choose(2) == 1 {
			*p = &sfnt.Font{ID: string(rune('a' + i))}
		} else {
			all = false
		}
	}
	var o output
	err := mtex.Render(&o, src, 10, 72, &fs)
	nd.Observe(src, all, err != nil)
	o.reported(err)
	if all {
		nd.Assert(o.calls == 1, "not rendered although nothing failed")
		nd.Reach("rendered")
	}
	if err != nil && o.calls == 0 {
		nd.Reach("missing")
	}
}
