SEEDS = []
def seed(id, prop, edits, pkg, test, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks))

PARSE = '''package latex

import (
	"strings"
	"testing"

	"github.com/go-latex/latex/ast"
)

func show(t *testing.T, src string) string {
	n, err := ParseExpr(src)
	if err != nil {
		return "error"
	}
	o := new(strings.Builder)
	ast.Print(o, n)
	return o.String()
}

'''

seed("c03-nested-math-state", "C03",
  [("parser.go", """	state := p.state
	p.state = mathState
	defer func() {
		p.state = state
	}()
""", """	p.state = mathState
	defer func() {
		p.state = normalState
	}()
""")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if got := show(t, `$a_{$b$} {c}$`); got == "error" {
		t.Fatalf("group after nested math rejected")
	}
	if a, b := show(t, `$a_{$b$} c$`), show(t, `$a_{$b$}c$`); a != b {
		t.Fatalf("blank after nested math: %s != %s", a, b)
	}
}
''', "a math expression nested in a script or argument of another, followed by a blank or a brace group in the outer one",
  "leaving the inner math expression leaves math mode altogether: blanks become symbols and groups are rejected in the rest of the outer expression")

seed("c02-number-case", "C02",
  [("scanner.go", """	case scanner.Int, scanner.Float:
		return token.Token{
			Kind: token.Number,
			Pos:  pos,
			Text: s.sc.TokenText(),
		}""", """	case scanner.Int, scanner.Float:
		return token.Token{
			Kind: token.Number,
			Pos:  pos,
			Text: strings.ToLower(s.sc.TokenText()),
		}""")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if got := show(t, `$x+1E5$`); !strings.Contains(got, "1E5") {
		t.Fatalf("number changed: %s", got)
	}
}
''', "a number with an upper-case exponent (or hexadecimal) letter", "its text is not the source's")

seed("c02-blank-option", "C02",
  [("parser.go", """		case token.Rbrack:
			opt.Rbrack = p.s.tok.Pos
			break loop
		default:""", """		case token.Rbrack:
			opt.Rbrack = p.s.tok.Pos
			break loop
		case token.Lbrack:
			// nested bracket: no need to keep it.
			continue
		default:""")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if got := show(t, `\\sqrt[[n]{x}`); got != "error" && strings.Count(got, "Symbol{\\"[\\"}") != 1 {
		t.Fatalf("bracket lost: %s", got)
	}
}
''', "an opening bracket inside an optional argument", "the bracket is dropped from the tree")

seed("c01-stray-brace", "C01",
  [("parser.go", """	default:
		panic(fmt.Errorf("impossible: %v (%v)", tok, tok.Kind))""", """	default:
		if p.state == mathState {
			return nil
		}
		panic(fmt.Errorf("impossible: %v (%v)", tok, tok.Kind))""")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	for _, src := range []string{`$a}$`, `$a^}$`} {
		if got := show(t, src); got != "error" {
			t.Fatalf("%s accepted: %s", src, got)
		}
	}
}
''', "a stray closing brace inside math", "the stray brace is silently accepted")

seed("c04-word-end-runes", "C04",
  [("ast/ast.go", "func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len(x.Text)) }",
    "func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len([]rune(x.Text))) }")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	n, err := ParseExpr("\\u00e9t\\u00e9")
	if err != nil {
		t.Fatal(err)
	}
	if got, want := int(n.End()), len("\\u00e9t\\u00e9"); got != want {
		t.Fatalf("end=%d, want %d", got, want)
	}
}
''', "a word with non-ASCII letters", "its end position counts runes where every other position counts bytes")

seed("c04-macro-end", "C04",
  [("ast/ast.go", "		return x.Args[len(x.Args)-1].End()", "		return x.Args[len(x.Args)/2].End()")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	for _, src := range []string{"\\\\frac{a}{b}", "\\\\sqrt{a}", "\\\\sqrt[n]{a}"} {
		n, err := ParseExpr(src)
		if err != nil {
			t.Fatal(err)
		}
		if got, want := int(n.(ast.List)[0].End()), len(src); got != want {
			t.Fatalf("%s: end=%d, want %d", src, got, want)
		}
	}
	m := &ast.Macro{Name: &ast.Ident{NamePos: 0, Name: "m"}, Args: ast.List{&ast.Arg{Lbrace: 1, Rbrace: 2}, &ast.Arg{Lbrace: 3, Rbrace: 4}, &ast.Arg{Lbrace: 5, Rbrace: 6}}}
	if m.End() != 7 {
		t.Fatalf("macro of three arguments ends at %d", m.End())
	}
}
''', "a macro node with three arguments (built by a program)", "its end is that of the second argument")
SEEDS.pop()  # not reachable from source

seed("c05-carriage-return", "C05",
  [("scanner.go", "	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n' | 1<<'\\r'", "	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n'")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if a, b := show(t, "$a\\r\\n+b$"), show(t, "$a+b$"); a != b {
		t.Fatalf("%s != %s", a, b)
	}
}
''', "DOS line ends", "a carriage return between tokens makes the expression unparsable")

AST = '''package ast

import (
	"strings"
	"testing"
)

'''
seed("c06-visitor-change", "C06",
  [("ast/walk.go", """	if v = v.Visit(node); v == nil {
		return
	}
""", """	w := v.Visit(node)
	if w == nil {
		return
	}
	if _, ok := node.(List); !ok {
		v = w
	}
""")], "ast",
  AST + '''type vis struct {
	name string
	log  *strings.Builder
}

func (v vis) Visit(n Node) Visitor {
	if n == nil {
		v.log.WriteString(v.name + ".")
		return nil
	}
	return vis{v.name + "x", v.log}
}

func TestZZDemo(t *testing.T) {
	o := new(strings.Builder)
	Walk(vis{"v", o}, List{&Word{Text: "a"}})
	if got, want := o.String(), "vxx.vx."; got != want {
		t.Fatalf("got %s, want %s", got, want)
	}
}
''', "a visitor that returns another visitor when it visits a list", "a list's children are visited, and the list closed, with the old visitor")

seed("c07-separator", "C07",
  [("ast/ast.go", """	case List:
		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
			if i > 0 {""", """	case List:
		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
			if i > 0 && n != nil {""")], "ast",
  AST + '''func TestZZDemo(t *testing.T) {
	o := new(strings.Builder)
	Print(o, List{&Word{Text: "a"}, nil})
	if got, want := o.String(), `ast.List{ast.Word{"a"}, <nil>}`; got != want {
		t.Fatalf("got %s, want %s", got, want)
	}
}
''', "a list with an absent element after the first", "no separator before it")

TEXF = '''package tex

import (
	"testing"

	"github.com/go-latex/latex/font"
)

'''

TEX = '''package tex

import (
	"math"
	"testing"
)

var _ = math.Inf

'''
seed("c08-repack-height", "C08",
  [("tex/box.go", "	lst.lst.box.height = h\n	lst.lst.box.depth = d\n\n	if additional {\n		width += x\n	}\n	lst.lst.box.width = width",
    "	lst.lst.box.height = math.Max(h, lst.lst.box.height)\n	lst.lst.box.depth = d\n\n	if additional {\n		width += x\n	}\n	lst.lst.box.width = width")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	k := VBox(10, 0)
	lst := HListOf([]Node{k}, false)
	k.Shrink()
	lst.HPack(0, true)
	if got := lst.Height(); got > 8 {
		t.Fatalf("height=%v after repacking, want 7", got)
	}
}
''', "repacking a list whose content became smaller", "the list keeps the old height")

seed("c09-depth-limit", "C09",
  [("tex/box.go", """	if additional {
		height += x
	}
	lst.lst.box.height = height
	x = height - x
""", """	if additional {
		height += x
	}
	lst.lst.box.height = height
	if !additional {
		x -= math.Max(0, d-l)
	}
	x = height - x
""")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	lst := VListOf([]Node{NewGlue("fil"), VBox(2, 5)})
	lst.VPack(10, false, 1) // natural: 2 + (5-1) = 6
	if got := lst.GlueSet(); got != 4 {
		t.Fatalf("glue set=%v, want 4", got)
	}
}
''', "an exact height together with a depth limit smaller than the last depth", "the slack forgets the depth moved into the height: glue stretches too much")
SEEDS[-1]["property"] = "C10"
SEEDS[-1]["id"] = "c10-depth-limit-slack"

seed("c09-limit-exact", "C09",
  [("tex/box.go", "	case d > l:\n		x += d - l\n		lst.lst.box.depth = l", "	case d > l:\n		if additional {\n			x += d - l\n		}\n		lst.lst.box.depth = l")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	lst := VListOf([]Node{NewGlue("fil"), VBox(2, 5)})
	lst.VPack(10, false, 1)
	if got := lst.GlueSet(); got != 4 {
		t.Fatalf("glue set=%v, want 4", got)
	}
}
''', "", "")
SEEDS.pop()

seed("c09-shifted-depth", "C09",
  [("tex/box.go", "func (k *Kern) vpackDims(width, height, depth *float64, stretch, shrink []float64) {\n	*height += *depth + k.width\n	*depth = 0\n}",
    "func (k *Kern) vpackDims(width, height, depth *float64, stretch, shrink []float64) {\n	*height += *depth + k.width\n	if k.width > 0 {\n		*depth = 0\n	}\n}")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	lst := VListOf([]Node{VBox(2, 5), NewKern(-1), VBox(1, 0)})
	if got, want := lst.Height(), 2.+5-1+1; got != want {
		t.Fatalf("height=%v, want %v", got, want)
	}
}
''', "a negative kern after a box with depth in a vertical list", "the depth is counted twice")

seed("c10-negative-total", "C10",
  [("tex/box.go", "		if totals[i] != 0 {\n			return i", "		if totals[i] > 0 {\n			return i")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	lst := HListOf([]Node{NewGlue("ss"), HBox(10)}, false)
	lst.HPack(6, false)
	if lst.GlueSign() != -1 || lst.GlueOrder() != 1 {
		t.Fatalf("sign=%d order=%d, want shrinking at order 1", lst.GlueSign(), lst.GlueOrder())
	}
}
''', "shrinking a list whose shrink is negative (the ss glue of centred lists)", "the order of the shrink is not found and the glue stays rigid")

seed("c11-glue-accumulate", "C11",
  [("tex/box.go", """					if node.stretchOrder == glueOrder {
						curGlue += node.stretch
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder""", """					if node.stretchOrder == glueOrder {
						curGlue = node.stretch
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder""")], "tex",
  TEXF + '''
type rec struct {
	font.Backend
	x []float64
}

func (r *rec) RenderRectFilled(x1, y1, x2, y2 float64) { r.x = append(r.x, x1) }

func TestZZDemo(t *testing.T) {
	r := new(rec)
	st := NewState(r, font.Font{}, 72)
	rule := func() Node { return NewRule(1, 1, 0, st) }
	lst := HListOf([]Node{NewGlue("fil"), rule(), NewGlue("fil"), rule(), NewGlue("fil"), rule()}, false)
	lst.HPack(33, false)
	var sh Ship
	sh.Call(0, 0, lst)
	if len(r.x) != 3 || r.x[0] != 10 || r.x[1] != 21 || r.x[2] != 32 {
		t.Fatalf("rules at %v, want 10 21 32", r.x)
	}
}
''', "a stretched horizontal list with two or more glues before a drawing", "only the first glue gets its share of the slack")

seed("c11-empty-list", "C11",
  [("tex/box.go", """		case *HList:
			// node623
			switch len(node.Nodes()) {
			case 0:
				ship.cur.h += node.Width()
			default:""", """		case *HList:
			// node623
			switch len(node.Nodes()) {
			case 0:
				// nothing to draw
			default:""")], "tex",
  TEXF + '''
type rec struct {
	font.Backend
	x []float64
}

func (r *rec) RenderRectFilled(x1, y1, x2, y2 float64) { r.x = append(r.x, x1) }

func TestZZDemo(t *testing.T) {
	r := new(rec)
	st := NewState(r, font.Font{}, 72)
	empty := HListOf(nil, false)
	empty.HPack(10, false)
	lst := HListOf([]Node{empty, NewRule(1, 1, 0, st)}, false)
	var sh Ship
	sh.Call(0, 0, lst)
	if len(r.x) != 1 || r.x[0] != 10 {
		t.Fatalf("rule at %v, want 10", r.x)
	}
}
''', "an empty horizontal list packed to a width, used as a spacer", "what follows is not moved past it")

seed("c12-shift-level", "C12",
  [("tex/box.go", """	lst.box.Shrink()
	if lst.box.size < numSizeLevels {
		lst.shift *= shrinkFactor""", """	lst.box.Shrink()
	if lst.box.size <= numSizeLevels {
		lst.shift *= shrinkFactor""")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	v := VListOf([]Node{VBox(10, 0)})
	v.SetShift(10)
	for i := 0; i < 5; i++ {
		v.Shrink()
	}
	h, s := v.Height(), v.lst.shift
	v.Shrink()
	if v.Height() != h || v.lst.shift != s {
		t.Fatalf("sixth shrink: height %v -> %v, shift %v -> %v", h, v.Height(), s, v.lst.shift)
	}
}
''', "a sixth shrink of a shifted list", "the shift still shrinks when the box no longer does")

seed("c13-alias", "C13",
  [("tex/box.go", "	list := &List{children: make([]Node, len(elements))}\n	copy(list.children, elements)\n	return list", "	return &List{children: elements[:len(elements):len(elements)]}")], "tex",
  TEX + '''func TestZZDemo(t *testing.T) {
	nodes := []Node{NewKern(1)}
	lst := HListOf(nodes, false)
	nodes[0] = NewKern(5)
	if got := lst.Nodes()[0].Width(); got != 1 {
		t.Fatalf("list changed with the slice: %v", got)
	}
}
''', "changing the slice after building the list", "the change shows in the list")

MTEX = '''package mtex

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/tex"
)

var _ = math.Abs
var _ sync.Mutex
var _ = ttf.New
var _ tex.Node
var _ font.Font
var _ = errors.New

type page struct {
	w, h, dpi float64
	ops       []drawtex.Op
	n         int
	err       error
}

func (p *page) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	p.w, p.h, p.dpi, p.ops = w, h, dpi, c.Ops()
	p.n++
	return p.err
}

func draw(t *testing.T, src string) []drawtex.Op {
	var p page
	if err := Render(&p, src, 10, 72, nil); err != nil {
		t.Fatalf("%s: %v", src, err)
	}
	return p.ops
}

func glyphs(ops []drawtex.Op) (out []drawtex.GlyphOp) {
	for _, op := range ops {
		if g, ok := op.(drawtex.GlyphOp); ok {
			out = append(out, g)
		}
	}
	return out
}

func rects(ops []drawtex.Op) (out []drawtex.RectOp) {
	for _, op := range ops {
		if g, ok := op.(drawtex.RectOp); ok {
			out = append(out, g)
		}
	}
	return out
}

func text(ops []drawtex.Op) string {
	s := ""
	for _, g := range glyphs(ops) {
		s += g.Glyph.Symbol
	}
	return s
}

func show(ops []drawtex.Op) string {
	var o strings.Builder
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			fmt.Fprintf(&o, "%s@%.4f,%.4f/%g ", op.Glyph.Symbol, op.X, op.Y, op.Glyph.Size)
		case drawtex.RectOp:
			fmt.Fprintf(&o, "rect@%.4f,%.4f,%.4f,%.4f ", op.X1, op.Y1, op.X2, op.Y2)
		}
	}
	return o.String()
}

'''

seed("c14-nested-math-style", "C14",
  [("mtex/parser.go", "		v.state.Font.Type = oldt\n", "		v.state.Font.Type = \"rm\"\n"), ("mtex/parser.go", "		oldt := v.state.Font.Type\n", "")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a, b := glyphs(draw(t, `${$a$b}$`)), glyphs(draw(t, `$ab$`))
	if a[1].Glyph.Font != b[1].Glyph.Font {
		t.Fatalf("letter after nested math is not italic")
	}
}
''', "math nested in a brace group of math, followed by a letter in that group",
  "what follows the nested math is drawn upright")

seed("c14-function-style", "C14",
  [("mtex/parser.go", '''	argState := state
	state.Font.Type = "rm"
	fun := macro.Name.Name[1:] // drop leading `\\`
''', '''	fun := macro.Name.Name[1:] // drop leading `\\`
	if math {
		state.Font.Type = "rm"
	}
	argState := state
''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a, b := glyphs(draw(t, `$\\exp{x}$`)), glyphs(draw(t, `$x$`))
	if a[3].Glyph.Font != b[0].Glyph.Font {
		t.Fatalf("argument of a function is not italic")
	}
}
''', "a function name with a braced argument that has a letter in it", "the argument is drawn upright")

seed("c15-digit-before", "C15",
  [("mtex/parser.go", '''				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {''',
    '''				(pos < len(p.expr)-1 && p.expr[pos+1] != ' ' && p.expr[pos+1] != '$') {''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a, b := glyphs(draw(t, `$1.x$`)), glyphs(draw(t, `$1. x$`))
	if math.Abs(a[2].X-b[2].X) > 1e-6 {
		t.Fatalf("x after 1. at %g and %g", a[2].X, b[2].X)
	}
}
''', "a full stop directly between a digit and something that is neither a digit, a blank nor the end of the math", "the full stop gets no space after it")

seed("c15-space-em", "C15",
  [("mtex/parser.go", '''	fnt := state.Font
	fnt.Name = "it"
	fnt.Type = rcparams("mathtext.default").(string)
	width''', '''	fnt := state.Font
	fnt.Name = "it"
	width''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	sp := func(src string) float64 {
		g := glyphs(draw(t, src))
		return g[1].X - g[0].X
	}
	fs := &ttf.Fonts{}
	_ = fs
	want := sp(`$1\\quad1$`) - sp(`$1 1$`)
	got := sp(`1\\quad1`) - sp(`11`)
	if math.Abs(got-want) > 1e-6 {
		t.Fatalf("quad in text %g, in math %g", got, want)
	}
}
''', "an explicit space outside math, with an upright font whose em differs from the italic one's", "the space is a fraction of another font's em than in math")

seed("c16-delimiter-depth", "C16",
  [("mtex/parser.go", "			depth = math.Max(depth, node.Depth())\n		}\n		factor = 0", "			depth = math.Max(node.Depth(), 0)\n		}\n		height += depth\n		depth = 0\n		factor = 0")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	box, err := Parse(`$\\binom{n}{k}$`, 10, 72, ttf.New(drawtex.New()))
	if err != nil {
		t.Fatal(err)
	}
	// the list of the binomial: delimiter, stack, delimiter
	l := box.(tex.Tree)
	for len(l.Nodes()) == 1 {
		l = l.Nodes()[0].(tex.Tree)
	}
	ns := l.Nodes()
	paren, stack := ns[0], ns[0]
	for _, n := range ns {
		if n.Height()+n.Depth() > 0 && n.Width() > stack.Width() {
			stack = n
		}
	}
	if d, e := paren.Height()-paren.Shift0(), stack.Height(); math.Abs(d) > 100*e {
		t.Fatalf("delimiter %g, stack %g", d, e)
	}
}
''', "", "")
SEEDS.pop()

seed("c16-root-once", "C16",
  [("mtex/parser.go", '''	default:
		root.Shrink()
		root.Shrink()
	}
''', '''	default:
		root.Shrink()
		if root.Height() > 5*thickness {
			root.Shrink()
		}
	}
''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a, b := glyphs(draw(t, `$\\sqrt[n]{x}$`)), glyphs(draw(t, `$\\sqrt[.]{x}$`))
	if a[0].Glyph.Size != b[0].Glyph.Size {
		t.Fatalf("index drawn in size %g or %g", a[0].Glyph.Size, b[0].Glyph.Size)
	}
}
''', "a root whose index is low, as a dot", "the index is shrunk once only")

seed("c16-overline-depth", "C16",
  [("mtex/parser.go", '''	// place overline above body
''', '''	// place overline above body
	if depth > 4*thickness {
		depth = 4 * thickness
	}
''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a := glyphs(draw(t, `$x\\overline{\\frac{\\frac{\\frac{a}{b}}{\\frac{a}{b}}}{\\frac{\\frac{a}{b}}{\\frac{a}{b}}}}$`))
	b := glyphs(draw(t, `$x{\\frac{\\frac{\\frac{a}{b}}{\\frac{a}{b}}}{\\frac{\\frac{a}{b}}{\\frac{a}{b}}}}$`))
	for i := range b {
		if d, e := a[i].Y-a[0].Y, b[i].Y-b[0].Y; math.Abs(d-e) > 1 {
			t.Fatalf("glyph %d at %g over the baseline, without the line %g", i, d, e)
		}
	}
}
''', "an overline over contents deeper than four line thicknesses", "the contents are not on the surrounding baseline")

seed("c17-string-panic", "C17",
  [("mtex/parser.go", '''	switch k {
	case "mathtext.default":
		return "it"
	default:''', '''	switch k {
	case "mathtext.default":
		return "it"
	case "":
		return nil
	default:'''),
   ("mtex/render.go", '''	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil {
		return''', '''	err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)
	if err != nil && w > 0 {
		return''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	p := page{err: errors.New("output")}
	if err := Render(&p, `$\\!$`, 10, 72, nil); !errors.Is(err, p.err) {
		t.Fatalf("error of the output lost: %v", err)
	}
}
''', "an empty page (or one of negative width) and an output that fails on it", "the output's error is lost")

seed("c17-partial-page", "C17",
  [("mtex/parser.go", '''		panic("not implemented")
	}
	return ch
''', '''		if symbols.LeftDelim.Has(sym) || sym == ";" {
			panic(p)
		}
		return nil
	}
	return ch
''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	for _, src := range []string{`$,$`, `$a!$`} {
		var p page
		err := Render(&p, src, 10, 72, nil)
		if (err != nil) == (p.n > 0) {
			t.Fatalf("%s: error %v, %d pages", src, err, p.n)
		}
	}
}
''', "a comma (or exclamation mark) in math, as the last thing of the list", "drawing it panics out of the library or is reported as something else")
SEEDS.pop()

seed("c18-narrow-page", "C18",
  [("mtex/render.go", "	err = dst.Render(w/72, ", "	err = dst.Render(math.Max(w, 1)/72, ")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	for _, src := range []string{`$\\!$`, ``, `$\\hspace{0.05}$`} {
		var p page
		if err := Render(&p, src, 10, 72, nil); err != nil {
			t.Fatal(err)
		}
		box, _ := Parse(src, 10, 72, ttf.New(drawtex.New()))
		if math.Abs(p.w*72-box.Width()) > 1e-9 {
			t.Fatalf("%q: page %g, layout %g", src, p.w*72, box.Width())
		}
	}
}
''', "a layout narrower than a point", "the page is wider than the layout")

seed("c18-face-size", "C18",
  [("drawtex/drawimg/drawimg.go", '''		DPI:     dpi,
		Size:    op.Glyph.Size,
''', '''		DPI:     72,
		Size:    math.Ceil(op.Glyph.Size*dpi/72*64) / 64,
''')], "drawtex/drawimg",
  '''package drawimg

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
)

var _ = drawtex.New

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := mtex.Render(NewRenderer(&b), "$x$", 10, 72, nil); err != nil {
		t.Fatal(err)
	}
	if _, err := png.Decode(&b); err != nil {
		t.Fatal(err)
	}
}
''', "", "")
SEEDS.pop()

seed("c18-rect-resolution", "C18",
  [("drawtex/drawimg/drawimg.go", '''	dpi /= 72
	ctx.NewSubPath()
''', '''	if dpi != 72 {
		dpi = math.Max(dpi, 100)
	}
	dpi /= 72
	ctx.NewSubPath()
''')], "drawtex/drawimg",
  '''package drawimg

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/go-latex/latex/drawtex"
)

func TestZZDemo(t *testing.T) {
	c := drawtex.New()
	c.RenderRectFilled(0, 0, 20, 10)
	var b bytes.Buffer
	if err := NewRenderer(&b).Render(1, 1, 36, c); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(&b)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := img.At(8, 3).RGBA(); a == 0 {
		t.Fatal("rectangle missing")
	}
	if _, _, _, a := img.At(15, 3).RGBA(); a != 0 {
		t.Fatal("rectangle too wide")
	}
}
''', "a resolution below 100 other than 72", "rectangles are drawn larger than the rest of the page")

seed("c19-cache-size", "C19",
  [("font/ttf/ttf.go", "	key := ttfKey{symbol, fnt, dpi}\n", "	key := ttfKey{symbol, fnt, dpi}\n	key.font.Size = math_round(fnt.Size)\n"),
   ("font/ttf/ttf.go", "const (\n	hintingNone = stdfont.HintingNone", "// math_round rounds sizes to 1/64 point.\nfunc math_round(v float64) float64 { return float64(int64(v*4+0.5)) / 4 }\n\nconst (\n	hintingNone = stdfont.HintingNone")], "font/ttf",
  '''package ttf

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
)

func TestZZDemo(t *testing.T) {
	be := New(drawtex.New())
	be.Metrics("x", font.Font{Name: "default", Size: 10, Type: "it"}, 72, true)
	got := be.Metrics("x", font.Font{Name: "default", Size: 10.1, Type: "it"}, 72, true)
	want := New(drawtex.New()).Metrics("x", font.Font{Name: "default", Size: 10.1, Type: "it"}, 72, true)
	if got != want {
		t.Fatalf("got %v, want %v", got, want)
	}
}
''', "two requests for the same symbol in sizes less than a quarter point apart", "the second gets the metrics of the first")

seed("c19-slant-sticky", "C19",
  [("font/ttf/ttf.go", '''	slanted := (fontType == "it") || be.isSlanted(symbol)
''', '''	slanted := (font.Type == "it" && unicode.IsLetter(idx)) || be.isSlanted(symbol)
'''),
   ], "font/ttf",
  '''package ttf

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
)

func TestZZDemo(t *testing.T) {
	be := New(drawtex.New())
	m := be.Metrics(string(rune(0x1d465)), font.Font{Name: "default", Size: 10, Type: "it"}, 72, true)
	n := be.Metrics(string(rune(0x1f600)), font.Font{Name: "default", Size: 10, Type: "it"}, 72, true)
	if !m.Slanted || !n.Slanted {
		t.Fatalf("slanted: %v %v", m.Slanted, n.Slanted)
	}
}
''', "a character beyond the basic plane that is no letter, in italic style (it is taken from the italic font)", "a glyph of the italic font is not marked slanted")

seed("c19-cmex-offset", "C19",
  [("font/ttf/ttf.go", "		Iceberg: ymax + offset,\n", "		Iceberg: ymax,\n")], "font/ttf",
  '''package ttf

import "testing"

func TestZZDemo(t *testing.T) { t.Fatal("needs a Cmex10 font") }
''', "", "")
SEEDS.pop()

seed("c20-multibyte-math", "C20",
  [("internal/tex2unicode/utf8.go", '''		r, _ := utf8.DecodeRune([]byte(v))
		if r != utf8.RuneError {
			return r
		}
''', '''		r, n := utf8.DecodeRune([]byte(v))
		if r != utf8.RuneError && n < utf8.UTFMax {
			return r
		}
''')], "internal/tex2unicode",
  '''package tex2unicode

import "testing"

func TestZZDemo(t *testing.T) {
	if got := Index(string(rune(0x1d465)), true); got != 0x1d465 {
		t.Fatalf("got %U", got)
	}
}
''', "a character beyond the basic plane in math mode", "it is refused")

seed("c20-lower-case", "C20",
  [("internal/tex2unicode/utf8.go", '''	if ok {
		return r
	}

	panic(''', '''	if ok {
		return r
	}
	if r, ok := tex2uni[strings.ToLower(strings.TrimPrefix(v, `\\`))]; ok && len(v) > 4 {
		return r
	}

	panic(''')], "internal/tex2unicode",
  '''package tex2unicode

import "testing"

func TestZZDemo(t *testing.T) {
	defer func() { recover() }()
	got := Index(`\\Alpha`+"", true)
	if !HasSymbol("Alpha") {
		t.Errorf("Alpha is %U, but not known", got)
	}
}
''', "an unknown name that is a known one but for its case", "the lookup accepts names that the list and the membership test do not know")

seed("c21-union-alias", "C21",
  [("mtex/symbols/set.go", '''	o := make(Set, len(sets))
	for _, set := range sets {
''', '''	if len(sets) == 0 {
		return NewSet()
	}
	o := sets[0]
	if len(o) == 0 {
		o = make(Set)
	}
	for _, set := range sets[1:] {
''')], "mtex/symbols",
  '''package symbols

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := NewSet("a"), NewSet("b")
	u := UnionOf(a, b)
	if !u.Has("a") || !u.Has("b") {
		t.Fatal("union")
	}
	if a.Has("b") {
		t.Fatal("the union changed its part")
	}
}
''', "using the first part of a union after building it", "the union is its first part, which gains the members of the others")

seed("c21-keys-prefix", "C21",
  [("mtex/symbols/set.go", '''	sort.Strings(keys)
''', '''	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
''')], "mtex/symbols",
  '''package symbols

import "testing"

func TestZZDemo(t *testing.T) {
	if k := NewSet("b", "aa").Keys(); k[0] != "aa" {
		t.Fatal(k)
	}
}
''', "members of different lengths", "they are listed by length first")

seed("c22-shared-nodes", "C22",
  [("parser.go", '''func (p *parser) next() token.Token {''', '''var last token.Token

func (p *parser) next() token.Token {''')], ".",
  PARSE, "", "")
SEEDS.pop()

seed("c22-glyph-cache", "C22",
  [("font/ttf/ttf.go", '''	key := ttfKey{symbol, fnt, dpi}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''', '''	key := ttfKey{symbol, fnt, dpi}
	val, ok := be.glyphs[key]
	if ok {
		return val
	}
	if be.fonts["default"] == defaultFonts.Default {
		// the glyphs of the default fonts are always the same.
		if val, ok := defaultGlyphs[key]; ok {
			return val
		}
		defer func() { defaultGlyphs[key] = be.glyphs[key] }()
	}
'''), ("font/ttf/ttf.go", "type ttfKey struct {", "var defaultGlyphs = make(map[ttfKey]ttfVal)\n\ntype ttfKey struct {")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	a := draw(t, "$a-b$")
	draw(t, "a-b")
	if s := text(draw(t, "$a-b$")); s != text(a) {
		t.Fatalf("%q", s)
	}
	if s := text(draw(t, "c*d")); s != "c*d" {
		t.Fatalf("%q", s)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for c := rune(0x21); c < 0x17f; c++ {
				var p page
				Render(&p, "$"+string(c)+"$", 10+float64(i)/8, 72, nil)
			}
		}(i)
	}
	wg.Wait()
}
''', "two goroutines rendering with the default fonts at once", "both write the same map without a lock: the program dies")

seed("c22-parser-pool", "C22",
  [("parser.go", '''	p := newParser(x)
	return p.parse()
''', '''	p, ok := parsers.Get().(*parser)
	if ok {
		p.s = newScanner(strings.NewReader(x))
	} else {
		p = newParser(x)
	}
	defer parsers.Put(p)
	return p.parse()
'''), ("parser.go", '''	"strings"

	"github''', '''	"strings"
	"sync"

	"github'''), ("parser.go", '''// ParseExpr parses''', '''// parsers are the parsers to use again: their macros are costly.
var parsers sync.Pool

// ParseExpr parses'''), ("parser.go", '''	p.state = mathState
	defer func() {
		p.state = state
	}()
''', '''	p.state = mathState
'''), ("parser.go", '''	p.closed("math expression", math.Left)

	return math''', '''	p.closed("math expression", math.Left)
	p.state = state

	return math''')], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	want := show(t, `a b {`) + show(t, `a b`)
	for i := 0; i < 100; i++ {
		show(t, `$x`)
		show(t, `$\\frac{x`)
	}
	for i := 0; i < 100; i++ {
		if got := show(t, `a b {`) + show(t, `a b`); got != want {
			t.Fatalf("%s != %s", got, want)
		}
	}
}
''', "an expression that fails inside math, then one with text", "the parser that is used again is still in math mode")

seed("c23-dedupe", "C23",
  [("drawtex/canvas.go", '''	c.ops = append(c.ops, RectOp{x1, y1, x2, y2})
''', '''	op := RectOp{x1, y1, x2, y2}
	if n := len(c.ops); n > 0 && c.ops[n-1] == op {
		return
	}
	c.ops = append(c.ops, op)
''')], "drawtex",
  '''package drawtex

import "testing"

func TestZZDemo(t *testing.T) {
	c := New()
	c.RenderRectFilled(1, 2, 3, 4)
	c.RenderRectFilled(1, 2, 3, 4)
	if len(c.Ops()) != 2 {
		t.Fatal("rectangle lost")
	}
}
''', "the same rectangle drawn twice in a row", "it is listed once")

seed("c23-kind-bound", "C23",
  [("token/kind_string.go", "	if i < 0 || i >= Kind(len(_Kind_index)-1) {", "	if i < 0 || i > Kind(len(_Kind_index)-1) {")], "token",
  '''package token

import "testing"

func TestZZDemo(t *testing.T) {
	if s := Kind(17).String(); s != "Kind(17)" {
		t.Fatal(s)
	}
}
''', "the value just beyond the last kind", "naming it panics")

# ---- third batch -------------------------------------------------------------------------------

seed("c25-bold-italic-copy", "C25",
  [("font/liberation/liberation.go", '	"github.com/go-fonts/liberation/liberationserifbolditalic"\n', ''),
   ("font/liberation/liberation.go", "sfnt.Parse(liberationserifbolditalic.TTF)", "sfnt.Parse(liberationserifbold.TTF)")], "font/liberation",
  '''package liberation

import (
	"testing"

	"golang.org/x/image/font/sfnt"
)

func TestZZDemo(t *testing.T) {
	f := Fonts()
	var buf sfnt.Buffer
	a, err := f.Bf.Name(&buf, sfnt.NameIDFull)
	if err != nil {
		t.Fatal(err)
	}
	b, err := f.BfIt.Name(&buf, sfnt.NameIDFull)
	if err != nil {
		t.Fatal(err)
	}
	if a == b {
		t.Fatalf("bold italic font is %q", b)
	}
}
''', "text in bold italic of the Liberation set", "it is the upright bold font")

BOX = '''package tex

import (
	"math"
	"testing"

	"github.com/go-latex/latex/font"
)

var _ = math.Inf

type op struct {
	x, y, x2, y2 float64
	sym          string
	size         float64
}

type demo struct{ ops []op }

func (d *demo) RenderGlyph(x, y float64, f font.Font, s string, dpi float64) {
	d.ops = append(d.ops, op{x: x, y: y, sym: s, size: f.Size})
}
func (d *demo) RenderRectFilled(x1, y1, x2, y2 float64) {
	d.ops = append(d.ops, op{x: x1, y: y1, x2: x2, y2: y2})
}
func (d *demo) Metrics(s string, f font.Font, dpi float64, math bool) font.Metrics {
	k := f.Size / 10
	return font.Metrics{Advance: 6 * k, Height: 8 * k, Width: 4 * k, XMin: 1 * k, XMax: 5 * k, YMin: -2 * k, YMax: 6 * k, Iceberg: 6 * k}
}
func (d *demo) XHeight(f font.Font, dpi float64) float64            { return 0.4 * f.Size }
func (d *demo) UnderlineThickness(f font.Font, dpi float64) float64 { return 0.1 * f.Size }
func (d *demo) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return 0
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

'''

seed("c24-accent-stale", "C24",
  [("tex/box.go", "	acc.char.Shrink()\n	acc.updateMetrics()\n", "	acc.char.Shrink()\n")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	d := new(demo)
	a := NewAccent("^", NewState(d, font.Font{Name: "default", Type: "rm", Size: 10}, 72), true)
	a.Shrink()
	a.Render(100, 50)
	if got := d.ops[0]; !near(got.x, 100-0.7) || !near(got.y, 50-1.4) {
		t.Fatalf("%+v", got)
	}
}
''', "an accent that is shrunk before it is drawn", "it is displaced by the side bearing of its former size")

seed("c22-shared-table", "C22",
  [("mtex/parser.go", "		macros: make(map[string]handler),\n", "		macros: builtinMacros,\n")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				var p page
				if err := Render(&p, `$x+\\alpha$`, 10, 72, nil); err != nil {
					panic(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', "expressions typeset concurrently", "all write the same package-level table of macros, unsynchronised")

seed("c19-kern-size", "C19",
  [("font/ttf/ttf.go", "	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {", "	if ft1.Name == ft2.Name {")], "font/ttf",
  '''package ttf

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/lm"
)

''' if False else '''package ttf_test

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
)

func TestZZDemo(t *testing.T) {
	big := font.Font{Name: "default", Size: 12, Type: "rm"}
	small := font.Font{Name: "default", Size: 8, Type: "rm"}
	for _, f := range []*ttf.Fonts{lm.Fonts(), liberation.Fonts()} {
		be := ttf.NewFrom(drawtex.New(), f)
		for a := 'A'; a <= 'Z'; a++ {
			for b := 'A'; b <= 'Z'; b++ {
				if k := be.Kern(big, string(a), small, string(b), 72); k != 0 {
					t.Fatalf("%c%c: %g", a, b, k)
				}
			}
		}
	}
}
''', "two neighbours in different sizes whose pair the font kerns", "they are kerned as if they had one size")

seed("c12-level-limit", "C12",
  [("tex/box.go", "	if box.size < numSizeLevels {\n		box.font.Size", "	if box.size <= numSizeLevels {\n		box.font.Size")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	st := NewState(new(demo), font.Font{Name: "default", Type: "rm", Size: 10}, 72)
	c := NewChar("a", st, true)
	h := HListOf([]Node{c}, true)
	for i := 0; i < 8; i++ {
		h.Shrink()
	}
	if !near(h.Height(), c.Height()) {
		t.Fatalf("%v %v", h.Height(), c.Height())
	}
}
''', "a subtree shrunk six times", "its characters shrink once more than the boxes around them")

seed("c08-vlist-shift", "C08",
  [("tex/box.go", "func (lst *VList) hpackDims(width, height, depth *float64, stretch, shrink []float64) {\n	lst.lst.hpackDims(width, height, depth, stretch, shrink)",
    "func (lst *VList) hpackDims(width, height, depth *float64, stretch, shrink []float64) {\n	if len(lst.lst.children) == 0 {\n		lst.lst.box.hpackDims(width, height, depth, stretch, shrink)\n		return\n	}\n	lst.lst.hpackDims(width, height, depth, stretch, shrink)")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	v := VListOf(nil)
	v.VPack(10, false, 0)
	v.SetShift(4)
	if h := HListOf([]Node{v}, false); h.Height() != 6 || h.Depth() != 4 {
		t.Fatalf("%v %v", h.Height(), h.Depth())
	}
}
''', "an empty vertical box that is shifted, in a horizontal list", "its shift is not counted")

seed("c09-empty-depth", "C09",
  [("tex/box.go", "	*height += *depth + lst.box.height\n	*depth = lst.box.depth\n", "	*height += *depth + lst.box.height\n	if lst.box.depth != 0 || len(lst.children) > 0 {\n		*depth = lst.box.depth\n	}\n")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	v := VListOf([]Node{VBox(5, 2), HListOf(nil, false)})
	if v.Height() != 7 || v.Depth() != 0 {
		t.Fatalf("%v %v", v.Height(), v.Depth())
	}
}
''', "an empty list after an element with a depth in a vertical list", "the depth above it is counted twice: in the height and as the list's depth")

seed("c07-quote", "C07",
  [("ast/ast.go", '		fmt.Fprintf(o, "ast.Word{%q}", node.Text)', '''		fmt.Fprintf(o, "ast.Word{\\"%s\\"}", node.Text)''')], "ast",
  '''package ast

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	show := func(n Node) string {
		o := new(strings.Builder)
		Print(o, n)
		return o.String()
	}
	a := show(List{&Word{Text: `a"}, ast.Word{"b`}})
	b := show(List{&Word{Text: "a"}, &Word{Text: "b"}})
	if a == b {
		t.Fatal(a)
	}
}
''', "a word whose text has a quote", "two different trees print the same")

seed("c05-form-feed", "C05",
  [("scanner.go", "	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n' | 1<<'\\r'", "	sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n' | 1<<'\\r'\n	sc.sc.Mode |= scanner.ScanComments")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if a, b := show(t, "$a/%c\\n/b$"), show(t, "$a//b$"); a != b {
		t.Fatalf("%s != %s", a, b)
	}
}
''', "a division sign next to another one or to an asterisk", "they start a comment of the Go language")

seed("c17-fractional-space", "C17",
  [("mtex/parser.go", '''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil {
		panic(fmt.Errorf("could not parse customspace: %+v", err))
	}
''', '''	val, err := strconv.ParseFloat(arg, 64)
	if err != nil && val == 0 {
		panic(fmt.Errorf("could not parse customspace: %+v", err))
	}
''')], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	var p page
	if err := Render(&p, `$a\\hspace{1e999}b$`, 10, 72, nil); err == nil {
		t.Fatalf("no error: %v", p.ops)
	}
}
''', "a space whose amount overflows", "no error is reported")
SEEDS.pop()  # not clearly promised

seed("c03-group-in-arg", "C03",
  [("parser.go", '''	case token.Lbrace:
		switch p.state {
		case mathState:
			return p.parseMathLbrace(tok)
''', '''	case token.Lbrace:
		switch p.state {
		case mathState:
			grp := p.parseMathLbrace(tok)
			if lst, ok := grp.(ast.List); ok && len(lst) == 1 {
				// a group of one element is that element.
				return lst[0]
			}
			return grp
''')], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if a, b := show(t, `$a{{b}}$`), show(t, `$a{b}$`); a == b {
		t.Fatalf("%s", a)
	}
}
''', "a group of one element inside math", "the group disappears from the tree")

seed("c04-script-operand", "C04",
  [("ast/ast.go", "func (x *MathExpr) Pos() token.Pos { return x.Left }", "func (x *MathExpr) Pos() token.Pos {\n	if len(x.List) > 0 {\n		return x.List[0].Pos() - token.Pos(len(x.Delim))\n	}\n	return x.Left\n}")], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	n, err := ParseExpr("a$ x$")
	if err != nil {
		t.Fatal(err)
	}
	if got := n.(ast.List)[1].Pos(); got != 1 {
		t.Fatal(got)
	}
}
''', "a math expression that begins with a blank, a comment or an empty group", "its position is not that of its delimiter")

seed("c15-macro-end", "C15",
  [("mtex/parser.go", "				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {", "				(pos < len(p.expr)-2 && isdigit(p.expr[pos+1])) {")], "mtex",
  MTEX + '''func TestZZDemo(t *testing.T) {
	xs := func(src string) []float64 {
		var p page
		be := ttf.New(drawtex.New())
		n, err := Parse(src, 10, 72, be)
		if err != nil {
			t.Fatal(err)
		}
		_ = p
		return []float64{n.Width()}
	}
	a, b := xs(`1.2`), xs(`1.2%`)
	if math.Abs(a[0]-b[0]) > 1e-9 {
		t.Fatalf("%v %v", a, b)
	}
}
''', "a decimal number outside math whose last digit ends the expression", "its decimal separator is spaced")

seed("c21-keys-shared", "C21",
  [("mtex/symbols/set.go", '''	keys := make([]string, 0, len(set))
	for k := range set {
		keys = append(keys, k)
	}
''', '''	keys := make([]string, 0, len(set))
	for k := range set {
		if k == "" {
			continue
		}
		keys = append(keys, k)
	}
''')], "mtex/symbols",
  '''package symbols

import "testing"

func TestZZDemo(t *testing.T) {
	if got := NewSet("a", "").Keys(); len(got) != 2 {
		t.Fatal(got)
	}
}
''', "a set with the empty string", "it is not listed")

seed("c25-racy-first", "C25",
  [("font/lm/lm.go", "	once.Do(func() {", "	if fnts == nil {"),
   ("font/lm/lm.go", "			BfIt:    bfit,\n		}\n	})\n", "			BfIt:    bfit,\n		}\n	}\n"),
   ("font/lm/lm.go", "	once sync.Once\n", ""),
   ("font/lm/lm.go", '	"sync"\n', "")], "font/lm",
  '''package lm

import (
	"os"
	"os/exec"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/go-latex/latex/font/ttf"
)

func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_CHILD") == "" {
		for i := 0; i < 150; i++ {
			cmd := exec.Command(os.Args[0], "-test.run", "^TestZZDemo$")
			cmd.Env = append(os.Environ(), "ZZ_CHILD=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				t.Fatalf("%s", out)
			}
		}
		return
	}
	var wg sync.WaitGroup
	var ready int32
	got := make([]*ttf.Fonts, 4)
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(len(got)) {
			}
			got[i] = Fonts()
		}()
	}
	wg.Wait()
	for i := range got {
		if got[i] != got[0] {
			t.Fatal("different fonts")
		}
	}
}
''', "several goroutines that ask for the Latin Modern fonts first at the same time", "each parses its own fonts and overwrites the others'")

seed("c02-other-dropped", "C02",
  [("parser.go", '''			panic("not implemented: " + tok.String())''', '''			return nil''')], ".",
  PARSE + '''func TestZZDemo(t *testing.T) {
	if got := show(t, `$a+"bc"$`); got != "error" && !strings.Contains(got, "bc") {
		t.Fatalf("text lost: %s", got)
	}
}
''', "a double quoted text", "it is accepted and vanishes")

seed("c13-small-kern", "C13",
  [("tex/box.go", "		if dist != 0 {\n			children", "		if math.Abs(dist) > 1e-3 {\n			children")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	st := NewState(new(demo), font.Font{Name: "default", Type: "rm", Size: 0.001}, 72)
	h := HListOf([]Node{NewChar("a", st, true), NewChar("b", st, true)}, true)
	if len(h.Nodes()) != 4 {
		t.Fatalf("%v", h.Nodes())
	}
}
''', "a character that asks for a very small kern, in a tiny font say", "it gets none")

seed("c06-empty-operand", "C06",
  [("ast/walk.go", "	case *Sup:\n		if n.Node != nil {", "	case *Sup:\n		if n.Node != nil && n.Node.Pos() >= 0 {")], "ast",
  '''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	n := 0
	Inspect(&Sup{Node: List{}}, func(x Node) bool {
		if _, ok := x.(List); ok {
			n++
		}
		return true
	})
	if n != 1 {
		t.Fatal(n)
	}
}
''', "a superscript whose group is empty", "the group is not visited")

seed("c24-no-descent", "C24",
  [("tex/box.go", "	ch.depth = -(ch.metrics.Iceberg - ch.metrics.Height)\n", "	ch.depth = -(ch.metrics.Iceberg - ch.metrics.Height)\n	if ch.metrics.Height > 0 && ch.metrics.Iceberg <= 0 {\n		// the ink lies below the baseline.\n		ch.depth = ch.metrics.Height\n	}\n")], "tex",
  BOX + '''type low struct{ demo }

func (*low) Metrics(s string, f font.Font, dpi float64, math bool) font.Metrics {
	return font.Metrics{Advance: 6, Height: 1, Width: 4, XMin: 1, XMax: 5, YMin: -3, YMax: -2, Iceberg: -2}
}

func TestZZDemo(t *testing.T) {
	c := NewChar("_", NewState(new(low), font.Font{Name: "default", Type: "rm", Size: 10}, 72), true)
	if c.Depth() != 3 {
		t.Fatal(c.Depth())
	}
}
''', "a glyph that lies wholly below the baseline", "its depth does not reach its bottom")

seed("c24-delimiter-size", "C24",
  [("tex/box.go", "		if factor == 0 {\n", "		if factor == 0 || factor == 1 {\n")], "tex",
  BOX + '''func TestZZDemo(t *testing.T) {
	h := AutoHeightChar("(", 20, 10, NewState(new(demo), font.Font{Name: "default", Type: "rm", Size: 10}, 72), 1)
	if !near(h.Height()+h.Depth(), 8) {
		t.Fatal(h.Height() + h.Depth())
	}
}
''', "a delimiter asked for at factor one", "it is stretched to the height all the same")

PDF = '''package drawpdf

import (
	"os"
	"path/filepath"
	"regexp"
	"testing"

	"github.com/go-latex/latex/drawtex"
)

func box(t *testing.T, w, h float64) string {
	dir, err := os.MkdirTemp("", "pdf")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "x.pdf")
	c := drawtex.New()
	c.RenderRectFilled(1, 2, 3, 4)
	if err := Write(f, w, h, c); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(regexp.MustCompile("/MediaBox .*").Find(b))
}
'''

seed("c26-landscape", "C26",
  [("drawtex/drawpdf/drawpdf.go", """	doc := pdf.NewCustom(&pdf.InitType{
		UnitStr: "pt",
""", """	orientation := "P"
	if w > h {
		orientation = "L"
	}
	doc := pdf.NewCustom(&pdf.InitType{
		OrientationStr: orientation,

		UnitStr: "pt",
""")], "drawtex/drawpdf",
  PDF + '''
func TestZZDemo(t *testing.T) {
	if b := box(t, 300, 100); b != "/MediaBox [0 0 300.00 100.00]" {
		t.Fatal(b)
	}
}
''', "a page wider than it is high", "the page is turned: its width and height are swapped")

seed("c26-error-lost", "C26",
  [("drawtex/drawpdf/drawpdf.go", """	return doc.OutputFileAndClose(fname)
""", """	if doc.Err() {
		return doc.Error()
	}
	doc.OutputFileAndClose(fname)
	return nil
""")], "drawtex/drawpdf",
  PDF + '''
func TestZZDemo(t *testing.T) {
	if b := box(t, 300, 100); b == "" {
		t.Fatal("no page")
	}
	if err := Write(filepath.Join(os.TempDir(), "no-such-directory-here", "x.pdf"), 300, 100, drawtex.New()); err == nil {
		t.Fatal("no failure")
	}
}
''', "a file that cannot be created", "Write reports success")

seed("c26-empty-canvas", "C26",
  [("drawtex/drawpdf/drawpdf.go", """	doc.AddPage()

	for _, op := range c.Ops() {
""", """	for i, op := range c.Ops() {
		if i == 0 || doc.PageNo() == 0 {
			doc.AddPage()
		}
"""),
  ("drawtex/drawpdf/drawpdf.go", """			log.Printf(">>> %T: %#v", op, op)
			drawRect(doc, op)
""", """			log.Printf(">>> %T: %#v", op, op)
			if op.X2 > w {
				// room for the rule.
				doc.AddPageFormat("P", pdf.SizeType{Wd: op.X2, Ht: h})
			}
			drawRect(doc, op)
""")], "drawtex/drawpdf",
  PDF + '''
func TestZZDemo(t *testing.T) {
	dir, err := os.MkdirTemp("", "pdf")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "x.pdf")
	c := drawtex.New()
	c.RenderRectFilled(1, 2, 103, 4)
	if err := Write(f, 100, 50, c); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(f)
	if n := len(regexp.MustCompile("/Type /Page\\n").FindAll(b, -1)); n != 1 {
		t.Fatal(n, "pages")
	}
}
''', "a rectangle that reaches over the right edge of the page", "it gets a second page of its own")
