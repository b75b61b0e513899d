package render

import (
	"strconv"

	"github.com/go-latex/latex/drawtex"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/token"
)

// Log: a canvas lists what was drawn.
func Log() {
	n := nd.Choose(nd.Param("n") + 1)
	cnv, ops := drawings(n)
	early := cnv.Ops()
	nd.Assert(len(early) == n, "drawings are lost or added")
	g := glyph(n)
	cnv.RenderGlyph(g.X, g.Y, g.Glyph)
	ops = append(ops, g)
	got := cnv.Ops()
	nd.Assert(len(got) == len(ops), "drawings are lost or added")
	other := drawtex.New()
	nd.Assert(len(other.Ops()) == 0, "a new canvas is not empty")
	other.RenderRectFilled(1, 2, 3, 4)
	for i := range ops {
		identical(got[i], ops[i])
		if i < n {
			identical(early[i], ops[i])
		}
	}
	nd.Assert(len(cnv.Ops()) == len(ops), "drawings are lost or added")
	nd.Reach("logged")
}

func identical(a, b drawtex.Op) {
	switch b := b.(type) {
	case drawtex.GlyphOp:
		a, ok := a.(drawtex.GlyphOp)
		nd.Assert(ok, "a glyph became something else")
		nd.Assert(nd.And(a.X == b.X, a.Y == b.Y), "a glyph moved")
		x, y := a.Glyph, b.Glyph
		nd.Assert(x.Font == y.Font && x.Symbol == y.Symbol && x.Num == y.Num && x.Postscript == y.Postscript, "a glyph changed")
		nd.Assert(nd.And(nd.And(x.Size == y.Size, x.Offset == y.Offset), x.Metrics.Advance == y.Metrics.Advance), "a glyph changed")
	case drawtex.RectOp:
		a, ok := a.(drawtex.RectOp)
		nd.Assert(ok, "a rectangle became something else")
		nd.Assert(nd.And(nd.And(a.X1 == b.X1, a.Y1 == b.Y1), nd.And(a.X2 == b.X2, a.Y2 == b.Y2)), "a rectangle moved")
	}
}

var kinds = []token.Kind{
	token.Invalid, token.Macro, token.EmptyLine, token.Comment, token.Space, token.Word, token.Number, token.Symbol,
	token.Lbrace, token.Rbrace, token.Lbrack, token.Rbrack, token.Lparen, token.Rparen, token.Other, token.Verbatim, token.EOF,
}

var names = []string{
	"Invalid", "Macro", "EmptyLine", "Comment", "Space", "Word", "Number", "Symbol",
	"Lbrace", "Rbrace", "Lbrack", "Rbrack", "Lparen", "Rparen", "Other", "Verbatim", "EOF",
}

// Kinds: every kind has its name, other values their number.
func Kinds() {
	switch nd.Choose(2) {
	case 0:
		i, j := nd.Choose(len(kinds)), nd.Choose(len(kinds))
		a, b := kinds[i].String(), kinds[j].String()
		nd.Assert(a == names[i], "a kind is not named by its identifier")
		nd.Assert(a != "" && b != "", "a kind without a name")
		nd.Assert((a == b) == (i == j), "two kinds of the same name")
		nd.Assert(a != number(kinds[i]), "a kind named by its number")
		nd.Reach("name")
	case 1:
		k := token.Kind(nd.Int(-1<<40, 1<<40))
		for _, q := range kinds {
			nd.Assume(k != q)
		}
		nd.Assert(k.String() == number(k), "an unknown value is not named by its number")
		nd.Reach("number")
	}
}

func number(k token.Kind) string { return "Kind(" + strconv.FormatInt(int64(k), 10) + ")" }
