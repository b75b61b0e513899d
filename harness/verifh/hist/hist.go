// Package hist holds the harnesses on calls that follow or accompany others.
package hist

import (
	"bytes"
	"errors"
	"fmt"

	latex "github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/verifh/parse"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/token"
	"golang.org/x/image/font/sfnt"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Parses":   Parses,
	"Typesets": Typesets,
	"Renders":  Renders,
	"Walks":    Walks,
	"Draws":    Draws,
	"FontSets": FontSets,
}

var errFont = errors.New("font failure")

// world is a font that remembers nothing.
type world struct{ fail rune }

func (w world) PostScript(font string) (string, error) { return "Go", nil }
func (w world) UnitsPerEm(font string) int32           { return 2048 }
func (w world) Index(font string, r rune) (sfnt.GlyphIndex, error) {
	if r == w.fail {
		return 0, errFont
	}
	return sfnt.GlyphIndex(r), nil
}
func (w world) GlyphName(font string, x sfnt.GlyphIndex) (string, error) { return "g", nil }
func (w world) Glyph(font string, x sfnt.GlyphIndex) (adv, xmin, ymin, xmax, ymax int32, err error) {
	if x < 'm' {
		return 1000, 100, -200, 900, 1200, nil
	}
	return 1100, 50, -100, 1000, 1300, nil
}
func (w world) Kern(font string, a, b sfnt.GlyphIndex) (int32, error) {
	if a == b {
		return 0, sfnt.ErrNotFound
	}
	if a < b {
		return 128, nil
	}
	return -64, nil
}
func (w world) XHeight(font string) int32 { return 1000 }

// dump tells everything of a tree, positions included.
func dump(n ast.Node) string {
	list := func(l ast.List) string {
		s := "["
		for _, x := range l {
			s += dump(x) + " "
		}
		return s + "]"
	}
	switch n := n.(type) {
	case nil:
		return "nil"
	case ast.List:
		return "list" + list(n)
	case *ast.Macro:
		return "macro" + dump(n.Name) + list(n.Args)
	case *ast.Arg:
		return fmt.Sprintf("arg%d%s%d", n.Lbrace, list(n.List), n.Rbrace)
	case *ast.OptArg:
		return fmt.Sprintf("opt%d%s%d", n.Lbrack, list(n.List), n.Rbrack)
	case *ast.Ident:
		return fmt.Sprintf("id%d%s", n.NamePos, n.Name)
	case *ast.MathExpr:
		return fmt.Sprintf("math%d%s%s%d", n.Left, n.Delim, list(n.List), n.Right)
	case *ast.Word:
		return fmt.Sprintf("word%d%s", n.WordPos, n.Text)
	case *ast.Literal:
		return fmt.Sprintf("lit%d%s", n.LitPos, n.Text)
	case *ast.Symbol:
		return fmt.Sprintf("sym%d%s", n.SymPos, n.Text)
	case *ast.Sub:
		return fmt.Sprintf("sub%d%s", n.UnderPos, dump(n.Node))
	case *ast.Sup:
		return fmt.Sprintf("sup%d%s", n.HatPos, dump(n.Node))
	}
	return fmt.Sprintf("other%T", n)
}

// spoil overwrites everything of a tree.
func spoil(n ast.Node) {
	list := func(l ast.List) {
		for i := range l {
			spoil(l[i])
			l[i] = nil
		}
		if cap(l) > len(l) {
			l = l[:cap(l)]
			for i := range l {
				l[i] = nil
			}
		}
	}
	switch n := n.(type) {
	case ast.List:
		list(n)
	case *ast.Macro:
		if n.Name != nil {
			spoil(n.Name)
		}
		list(n.Args)
		*n = ast.Macro{}
	case *ast.Arg:
		list(n.List)
		*n = ast.Arg{Lbrace: -7, Rbrace: -7}
	case *ast.OptArg:
		list(n.List)
		*n = ast.OptArg{Lbrack: -7, Rbrack: -7}
	case *ast.Ident:
		*n = ast.Ident{NamePos: -7, Name: "spoilt"}
	case *ast.MathExpr:
		list(n.List)
		*n = ast.MathExpr{Delim: "spoilt", Left: -7, Right: -7}
	case *ast.Word:
		*n = ast.Word{WordPos: -7, Text: "spoilt"}
	case *ast.Literal:
		*n = ast.Literal{LitPos: -7, Text: "spoilt"}
	case *ast.Symbol:
		*n = ast.Symbol{SymPos: -7, Text: "spoilt"}
	case *ast.Sub:
		spoil(n.Node)
		*n = ast.Sub{UnderPos: token.Pos(-7)}
	case *ast.Sup:
		spoil(n.Node)
		*n = ast.Sup{HatPos: token.Pos(-7)}
	}
}

// watch makes f in company of itself, then alone; before anything else, so
// that what is made on first use is made in it.
func watch(f func()) {
	nd.Stress(f)
	nd.SetWatch(true)
	f()
	f()
	nd.SetWatch(false)
	nd.Suspect(nd.SharedWrites(), "writes what another call reaches")
}

// later are what comes after (and before) the arbitrary call.
var later = []string{
	`a $x^2_{i} + \frac{\sqrt[3]{y}}{\mathbf{z}}$ \textbf{b} 1.5%c` + "\n" + `$\sin \alpha\,{b}$`,
	`$\sqrt{b}\sqrt[n]{c}$`,
	`$\binom{a}{b} \operatorname{x} \hspace{1.5}$`,
	`$\frac{a`,
	`\nosuch x`,
	``,
}

func parses(src string) string {
	n, err := latex.ParseExpr(src)
	if err != nil {
		return "error " + err.Error()
	}
	return dump(n)
}

// Parses: parsing depends on nothing parsed before, and shares nothing.
func Parses() {
	src := parse.Source()
	b := later[nd.Choose(len(later))]
	var first, second string
	watch(func() { latex.ParseExpr(src) })
	before := parses(b)
	n, err := latex.ParseExpr(src)
	if err != nil {
		first = "error " + err.Error()
		nd.Reach("rejected")
	} else {
		first = dump(n)
		nd.Reach("accepted")
	}
	nd.Assert(parses(b) == before, "parsing depends on what was parsed before")
	m, err := latex.ParseExpr(src)
	if err == nil {
		spoil(m)
	}
	if n != nil {
		nd.Assert(dump(n) == first, "a tree changes with another one")
		spoil(n)
	}
	nd.Assert(parses(b) == before, "parsing depends on a tree returned before")
	nd.SetMapOrder(true)
	second = parses(src)
	nd.SetMapOrder(false)
	nd.Assert(first == second, "parsing the same twice gives different trees")
	nd.Observe(src, first[:3])
}

// layout tells everything of a layout.
func layout(n tex.Node) string {
	s := fmt.Sprintf("%T(%v %v %v", n, n.Width(), n.Height(), n.Depth())
	if t, ok := n.(tex.Tree); ok {
		for _, x := range t.Nodes() {
			s += " " + layout(x)
		}
	}
	return s + ")"
}

func ops(cnv *drawtex.Canvas) string {
	s := ""
	for _, op := range cnv.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			s += fmt.Sprintf("glyph(%v %v %v %v %v %v %v)", op.X, op.Y, op.Glyph.Symbol, op.Glyph.Font.ID, op.Glyph.Num, op.Glyph.Size, op.Glyph.Metrics)
		case drawtex.RectOp:
			s += fmt.Sprintf("rect(%v %v %v %v)", op.X1, op.Y1, op.X2, op.Y2)
		}
	}
	return s
}

func typesets(src string) string {
	cnv := drawtex.New()
	box, err := mtex.Parse(src, 10, 72, ttf.New(cnv))
	if err != nil {
		return "error " + err.Error()
	}
	s := layout(box)
	var sh tex.Ship
	sh.Call(0, 0, box.(tex.Tree))
	return s + ops(cnv)
}

// lays are the expressions laid out after and before the arbitrary one.
var lays = []string{
	`a-b $\frac{x-1}{\sqrt[3]{y}}+\binom{n}{k}\sin\alpha\,\overline{z}$ 1.5`,
	`$\int\quad(x)\hspace{1.5}$`,
	`$\frac{\frac{-}{2}}{\dfrac{a}{b}}.5$`,
	`$x^2$`,
	``,
}

// Typesets: typesetting depends on nothing typeset before.
func Typesets() {
	src := parse.Source()
	b := lays[nd.Choose(len(lays))]
	sfnt.World = world{fail: -1}
	if nd.Param("fail") == 1 {
		sfnt.World = world{fail: 'x'}
	}
	watch(func() { typesets(src) })
	sfnt.World = world{fail: -1}
	before := typesets(b)
	if nd.Param("fail") == 1 {
		sfnt.World = world{fail: 'x'}
	}
	first := typesets(src)
	sfnt.World = world{fail: -1}
	nd.Assert(typesets(b) == before, "typesetting depends on what was typeset before")
	if nd.Param("fail") == 1 {
		return
	}
	nd.SetMapOrder(true)
	second := typesets(src)
	nd.SetMapOrder(false)
	nd.Assert(first == second, "typesetting the same twice gives different layouts")
	nd.Observe(src, first[:3])
	if first[0] == '*' {
		nd.Reach("typeset")
	} else {
		nd.Reach("rejected")
	}
}

// output tells the page it is handed.
type output struct {
	fail bool
	page string
}

func (o *output) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	o.page += fmt.Sprintf("page(%v %v %v)", w, h, dpi) + ops(cnv)
	if o.fail {
		return errFont
	}
	return nil
}

func renders(src string, size, dpi float64, fonts *ttf.Fonts, fail bool) string {
	o := output{fail: fail}
	err := mtex.Render(&o, src, size, dpi, fonts)
	if err != nil {
		return o.page + "error " + err.Error()
	}
	return o.page
}

// Renders: rendering depends on nothing rendered before, be it in another
// size, another resolution, other fonts or a failure.
func Renders() {
	src := lays[nd.Choose(len(lays))]
	b := lays[nd.Choose(len(lays))]
	sfnt.World = world{fail: -1}
	size, dpi, fonts := 10.0, 72.0, (*ttf.Fonts)(nil)
	fail := false
	switch nd.Choose(5) {
	case 0:
		size = 20
	case 1:
		dpi = 300
	case 2:
		fonts = &ttf.Fonts{Default: &sfnt.Font{ID: "d"}, Rm: &sfnt.Font{ID: "r"}, It: &sfnt.Font{ID: "i"}, Bf: &sfnt.Font{ID: "b"}, BfIt: &sfnt.Font{ID: "bi"}}
	case 3:
		fonts = &ttf.Fonts{}
	case 4:
		fail = true
	}
	watch(func() { renders(src, size, dpi, fonts, fail) })
	before := renders(b, 10, 72, nil, false)
	renders(src, size, dpi, fonts, fail)
	after := renders(b, 10, 72, nil, false)
	nd.Assert(after == before, "rendering depends on what was rendered before")
	nd.SetMapOrder(true)
	again := renders(b, 10, 72, nil, false)
	nd.SetMapOrder(false)
	nd.Assert(again == before, "rendering the same twice gives different pages")
	nd.Observe(src, b, size, dpi, fail)
	nd.Reach("rendered")
}

type visitor struct{ s *string }

func (v visitor) Visit(n ast.Node) ast.Visitor {
	*v.s += fmt.Sprintf("%T ", n)
	return v
}

// Walks: walking and printing leave the tree alone and depend on nothing.
func Walks() {
	src := parse.Source()
	n, err := latex.ParseExpr(src)
	if err != nil {
		return
	}
	was := dump(n)
	walk := func() string {
		s := ""
		ast.Walk(visitor{&s}, n)
		ast.Inspect(n, func(n ast.Node) bool {
			if n != nil {
				s += fmt.Sprint(n.Pos(), " ")
			}
			return true
		})
		var b bytes.Buffer
		ast.Print(&b, n)
		return s + b.String()
	}
	// the tree may be shared by readers
	var first string
	watch(func() { walk() })
	first = walk()
	nd.Assert(walk() == first, "walking or printing the same twice differs")
	nd.Assert(dump(n) == was, "walking or printing changes the tree")
	nd.Observe(src)
	nd.Reach("walked")
}

// Draws: drawing an image shares nothing, nor do the names and sets.
func Draws() {
	sfnt.World = world{fail: -1}
	src := lays[nd.Choose(len(lays))]
	dpi := []float64{72, 100, 300}[nd.Choose(3)]
	draw := func() string {
		var b bytes.Buffer
		err := mtex.Render(drawimg.NewRenderer(&b), src, 10, dpi, nil)
		if err != nil {
			return "error " + err.Error()
		}
		return b.String()
	}
	watch(func() { draw() })
	first := draw()
	nd.Assert(draw() == first, "drawing the same twice gives different images")

	a, c := symbols.NewSet("a", "b"), symbols.NewSet("b", "c")
	sets := func() string {
		return fmt.Sprint(symbols.UnionOf(a, c, symbols.ArrowSymbols).Keys(), symbols.IsSpaced("+"), token.Kind(3).String())
	}
	watch(func() { sets() })
	was := sets()
	nd.SetMapOrder(true)
	nd.Assert(sets() == was, "sets are listed in an arbitrary order")
	nd.SetMapOrder(false)
	nd.Observe(src, dpi)
	nd.Reach("drawn")
}

// FontSets: the sets of fonts can be asked for at once.
func FontSets() {
	f := lm.Fonts
	if nd.Choose(2) == 1 {
		f = liberation.Fonts
	}
	watch(func() {
		if f().Rm == nil {
			panic("no font")
		}
	})
	nd.Reach("set")
}
