package parse

import (
	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	nd "github.com/go-latex/latex/internal/verifnd"
)

// Total: parsing any string gives a tree or an error.
func Total() {
	src := source()
	node, err := latex.ParseExpr(src)
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(node != nil, "nil tree without an error")
	} else {
		nd.Reach("rejected")
		nd.Assert(node == nil, "tree together with an error")
		nd.Assert(len(err.Error()) > 0, "error without a text")
	}
	nd.Observe(src, err == nil)
}

// Unclosed: an expression whose delimiters do not balance is rejected.
func Unclosed() {
	src := source()
	_, err := latex.ParseExpr(src)
	nd.Observe(src, err == nil)
	if err != nil {
		nd.Reach("rejected")
		return
	}
	nd.Reach("accepted")
	// every brace that is not part of a control sequence or a comment is
	// matched, and dollars come in pairs
	depth, dollars := 0, 0
	low := false
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '\\':
			i++
		case '%':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case '{':
			depth++
		case '}':
			depth--
			if depth < 0 {
				low = true
			}
		case '$':
			dollars++
		}
	}
	nd.Assert(!low && depth == 0, "unbalanced braces accepted")
	nd.Assert(dollars%2 == 0, "unclosed math accepted")
}

// numeric tells whether src has a digit directly followed by a letter,
// underscore or dot that the number syntax may or may not take in; where
// the number ends is then outside the claims.
func numeric(src string) bool {
	r := false
	dots := false
	for i := 0; i+1 < len(src); i++ {
		if src[i] == '.' {
			dots = true
		}
		if digit(src[i]) || src[i] == '.' {
			c := src[i+1]
			r = nd.Or(r, nd.Or(c == '_', nd.Or(
				nd.Or(nd.Or(c == 'e', c == 'E'), nd.Or(c == 'x', c == 'X')),
				nd.Or(nd.Or(nd.Or(c == 'o', c == 'O'), nd.Or(c == 'b', c == 'B')), nd.Or(c == 'p', c == 'P')))))
		}
	}
	_ = dots
	return r
}

// Shape: the parser accepts exactly what the reference reader accepts, and
// builds the same tree.
func Shape() {
	src := source()
	nd.Assume(!numeric(src))
	node, err := latex.ParseExpr(src)
	nd.Observe(src, err == nil)
	want, ok := reference(src)
	if err != nil {
		nd.Assert(!ok, "valid expression rejected")
		nd.Reach("rejected")
		return
	}
	nd.Assert(ok, "invalid expression accepted")
	nd.Reach("accepted")
	l, is := node.(ast.List)
	nd.Assert(is, "the tree is not a list")
	var got []ev
	for _, x := range l {
		got = flat(got, x)
	}
	nd.Assert(len(got) == len(want), "another number of nodes than the source has")
	for i := range got {
		nd.Assert(got[i].kind == want[i].kind, "a node of another kind, or nested differently")
		nd.Assert(got[i].text == want[i].text, "a node with another text")
	}
}

// Text: leaves carry the source text at their position, in order, and only
// delimiters, script marks, blanks and comments lie between them.
func Text() {
	src := source()
	node, err := latex.ParseExpr(src)
	nd.Observe(src, err == nil)
	if err != nil {
		return
	}
	nd.Reach("accepted")
	g := &gaps{src: src, marks: map[int]byte{}}
	g.collect(node)
	g.groups-- // the expression itself
	at := 0
	for _, e := range flat(nil, node) {
		switch e.kind {
		case 'W', 'N', 'S', 'M':
		default:
			continue
		}
		nd.Reach("leaf")
		n := len(e.text)
		nd.Assert(n > 0, "leaf without text")
		nd.Assert(e.pos >= at, "leaves out of order or overlapping")
		nd.Assert(e.pos+n <= len(src), "leaf beyond the source")
		if n == 2 && e.kind == 'M' {
			// a control space is written with any blank
			c, d := e.text[1], src[e.pos+1]
			nd.Assert(nd.And(src[e.pos] == '\\', nd.Or(c == d,
				nd.And(c == ' ', nd.Or(d == '\n', nd.Or(d == '\t', d == '\r'))))), "leaf text is not the source text")
		} else {
			nd.Assert(src[e.pos:e.pos+n] == e.text, "leaf text is not the source text")
		}
		g.gap(at, e.pos)
		at = e.pos + n
	}
	g.gap(at, len(src))
	nd.Assert(len(g.marks) == 0, "a delimiter of the tree is not in the source")
	nd.Assert(g.opened == g.groups && g.closed == g.groups, "a brace missing from the tree")
}

// gaps reads the source between the leaves.
type gaps struct {
	src            string
	marks          map[int]byte // delimiters whose position the tree has
	groups         int          // pairs of braces that have no position
	opened, closed int
}

func (g *gaps) collect(n ast.Node) {
	list := func(l ast.List) {
		for _, x := range l {
			g.collect(x)
		}
	}
	switch n := n.(type) {
	case ast.List:
		g.groups++
		list(n)
	case *ast.Macro:
		list(n.Args)
	case *ast.Arg:
		g.marks[int(n.Lbrace)], g.marks[int(n.Rbrace)] = '{', '}'
		list(n.List)
	case *ast.OptArg:
		g.marks[int(n.Lbrack)], g.marks[int(n.Rbrack)] = '[', ']'
		list(n.List)
	case *ast.MathExpr:
		g.marks[int(n.Left)], g.marks[int(n.Right)] = '$', '$'
		list(n.List)
	case *ast.Sup:
		g.marks[int(n.HatPos)] = '^'
		g.collect(n.Node)
	case *ast.Sub:
		g.marks[int(n.UnderPos)] = '_'
		g.collect(n.Node)
	}
}

func (g *gaps) gap(i, end int) {
	src := g.src
	for ; i < end; i++ {
		if c, ok := g.marks[i]; ok {
			nd.Assert(src[i] == c, "a delimiter of the tree is another character in the source")
			delete(g.marks, i)
			continue
		}
		switch src[i] {
		case '{':
			g.opened++
		case '}':
			g.closed++
		case ' ', '\t', '\n', '\r':
		case '%':
			for i < len(src) && src[i] != '\n' {
				i++
			}
			nd.Assert(i < end || end == len(src), "a comment hides the source after its line")
		case 0xEF:
			// a byte order mark may start the source
			nd.Assert(i == 0 && end >= 3 && src[1] == 0xBB && src[2] == 0xBF, "source text missing from the tree")
			i += 2
		default:
			nd.Assert(false, "source text missing from the tree")
		}
	}
}

// Positions: nodes' ranges are those of their source text.
func Positions() {
	src := source()
	node, err := latex.ParseExpr(src)
	nd.Observe(src, err == nil)
	if err != nil {
		return
	}
	nd.Reach("accepted")
	within(src, node, 0, len(src))
}

func at(src string, i int) byte {
	if i < 0 || i >= len(src) {
		nd.Assert(false, "position outside the source")
	}
	return src[i]
}

// within checks n's range and returns it; nodes without text of their own
// return pos > end.
func within(src string, n ast.Node, lo, hi int) (int, int) {
	pos, end := int(n.Pos()), int(n.End())
	kids := func(l ast.List, lo, hi int) (int, int) {
		first := -1
		for _, x := range l {
			p, e := within(src, x, lo, hi)
			if p > e {
				continue
			}
			if first < 0 {
				first = p
			}
			nd.Assert(p >= lo && e <= hi, "a child reaches outside its parent or into its sibling")
			lo = e
		}
		return first, lo
	}
	ends := func(open, close byte) {
		nd.Assert(at(src, pos) == open, "the range does not start at the opening delimiter")
		nd.Assert(at(src, end-1) == close, "the range does not end after the closing delimiter")
		nd.Assert(pos < end-1, "opening and closing delimiter coincide")
	}
	leaf := func(text string) {
		nd.Assert(pos >= 0 && end == pos+len(text) && end <= len(src), "the range is not that of the text")
		nd.Assert(src[pos:end] == text, "the range holds another text")
	}
	switch n := n.(type) {
	case *ast.Word:
		leaf(n.Text)
	case *ast.Literal:
		leaf(n.Text)
	case *ast.Symbol:
		leaf(n.Text)
	case *ast.Macro:
		nd.Assert(at(src, pos) == '\\', "a macro does not start at its backslash")
		ne := pos + len(n.Name.Name)
		nd.Assert(int(n.Name.Pos()) == pos && int(n.Name.End()) == ne, "the name is not at the start of the macro")
		_, e := kids(n.Args, ne, hi)
		nd.Assert(end == e, "a macro does not end where its last argument does")
		nd.Reach("macro")
	case *ast.Arg:
		nd.Reach("arg")
		ends('{', '}')
		kids(n.List, pos+1, end-1)
	case *ast.OptArg:
		nd.Reach("optarg")
		ends('[', ']')
		kids(n.List, pos+1, end-1)
	case *ast.MathExpr:
		nd.Reach("math")
		ends('$', '$')
		kids(n.List, pos+1, end-1)
	case ast.List:
		f, e := kids(n, lo, hi)
		if f < 0 {
			return 1, 0
		}
		nd.Assert(pos == f, "a list does not start where its first node does")
		return f, e
	case *ast.Sub:
		nd.Assert(at(src, pos) == '_', "a subscript does not start at its mark")
		_, e := kids(ast.List{n.Node}, pos+1, hi)
		return pos, e
	case *ast.Sup:
		nd.Assert(at(src, pos) == '^', "a superscript does not start at its mark")
		_, e := kids(ast.List{n.Node}, pos+1, hi)
		return pos, e
	default:
		nd.Assert(false, "unknown node")
	}
	return pos, end
}
