// Package pdf holds the harnesses on PDF output.
package pdf

import (
	"errors"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawpdf"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-pdf/fpdf"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Write": Write,
}

var errFile = errors.New("file failure")

// Write: a canvas goes to the file named, as one page of the size asked for
// that shows what the canvas holds, or the failure is reported.
func Write() {
	fpdf.Docs, fpdf.Fail = nil, nil
	files := nd.Param("files")
	for k := 0; k < files; k++ {
		w, h := nd.Float(0.0001, 14400), nd.Float(0.0001, 14400)
		fail := nd.Choose(2) == 1
		name := []string{"/verif-no-such-dir/a.pdf", "/verif-no-such-dir/b", ""}[nd.Choose(3)]
		c := drawtex.New()
		n := nd.Choose(nd.Param("n") + 1)
		var want []drawtex.Op
		for i := 0; i < n; i++ {
			x, y := nd.Float(-1000, 15000), nd.Float(-1000, 15000)
			if nd.Choose(2) == 0 {
				g := drawtex.Glyph{Symbol: "x", Size: nd.Float(0, 100), Offset: nd.Float(-100, 100)}
				c.RenderGlyph(x, y, g)
				want = append(want, drawtex.GlyphOp{X: x, Y: y, Glyph: g})
			} else {
				a, b := nd.Float(-1000, 15000), nd.Float(-1000, 15000)
				c.RenderRectFilled(x, y, a, b)
				want = append(want, drawtex.RectOp{X1: x, Y1: y, X2: a, Y2: b})
			}
		}
		if fail {
			fpdf.Fail = errFile
		} else {
			fpdf.Fail = nil
		}
		before := len(fpdf.Docs)
		err := drawpdf.Write(name, w, h, c)
		docs := fpdf.Docs[before:]
		nd.Observe(n, fail, err != nil, len(docs))
		if fail {
			nd.Reach("failed")
			nd.Assert(err != nil, "a file that was not written is reported as written")
			nd.Assert(errors.Is(err, errFile), "the failure reported is another one")
			nd.Assert(len(docs) == 0, "a document was handed out twice")
		} else {
			nd.Reach("written")
			nd.Assert(err == nil, "a file that was written is reported as a failure")
			nd.Assert(len(docs) == 1, "not one document was written")
			d := docs[0]
			nd.Assert(d.Name == name, "the document went to another file")
			nd.Assert(len(d.Pages) == 1, "the document does not have one page")
			p := d.Pages[0]
			nd.Assert(nd.FNear(p.W, w) && nd.FNear(p.H, h), "the page has another size")
			nd.AssertKnown("pdf-blank", len(p.Marks) >= n, len(p.Marks) == 0, "the page lacks something the canvas holds")
			if n == 0 {
				nd.Assert(len(p.Marks) == 0, "the page shows something the canvas does not hold")
			}
		}
		ops := c.Ops()
		nd.Assert(len(ops) == len(want), "writing changed the canvas")
		for i := range ops {
			nd.Assert(ops[i] == want[i], "writing changed what the canvas holds")
		}
	}
}
