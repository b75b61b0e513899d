package parse

import (
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/internal/tex2unicode"
)

// ev is one event of a tree: a leaf, or the opening or closing of a node.
type ev struct {
	kind     byte
	pos, end int
	text     string
}

// The reference: a reader of the LaTeX subset that works directly on the
// source text. Kinds: W word, N number, S symbol, M/m macro, A/a argument,
// O/o optional argument, $/q math, L/l group, B/b subscript, P/p superscript.

type refuse struct{ why string }

type ref struct {
	src  string
	i    int // next character
	math bool
	out  []ev
}

type tok struct {
	kind byte // W N S M c(omment) ' ' { } [ ] and 0 at the end
	pos  int
	text string
}

// arities of the macros that take arguments.
var arities = map[string]string{
	`\frac`: "AA", `\dfrac`: "AA", `\tfrac`: "AA", `\binom`: "AA", `\stackrel`: "AA",
	`\sqrt`: "OA", `\exp`: "A", `\hspace`: "A", `\overline`: "A", `\operatorname`: "A",
	`\mathbf`: "A", `\mathit`: "A", `\mathsf`: "A", `\mathtt`: "A", `\mathcal`: "A",
	`\mathdefault`: "A", `\mathbb`: "A", `\mathfrak`: "A", `\mathscr`: "A", `\mathregular`: "A",
	`\textbf`: "A", `\textit`: "A", `\textsf`: "A", `\texttt`: "A", `\textcal`: "A",
	`\textdefault`: "A", `\textbb`: "A", `\textfrak`: "A", `\textscr`: "A", `\textregular`: "A",
}

// plain macros that are not symbols of the character table.
var plain = map[string]bool{}

func init() {
	for _, s := range []string{
		"ldotp", "cdotp", "lim", "liminf", "limsup", "max", "min", "sup",
		"rm", "cal", "it", "tt", "sf", "bf", "default", "bb", "frak", "scr", "regular",
		"arccos", "arcsin", "arctan", "arg", "cos", "cosh", "cot", "coth", "csc", "deg", "det", "dim",
		"gcd", "hom", "inf", "ker", "lg", "ln", "log", "sec", "sin", "sinh", "tan", "tanh", "Pr",
		"{", "(", "}", ")", " ", ",", ";", "!", "quad", "qquad", ":",
		"bigtriangledown", "bigtriangleup", "diamond", "lhd", "rhd", "triangleleft", "triangleright",
		"unlhd", "unrhd", "bowtie", "models", "Join", "leadsto", "longmapsto", "sqsubset", "sqsupset",
		"cdots", "ddots", "ldots", "vdots", "omicron", "Alpha", "Beta", "Epsilon", "Zeta", "Eta", "Iota",
		"Kappa", "Mu", "Nu", "Omicron", "Rho", "Tau", "Chi", "dots", "iota", "hbar", "coprod",
		"langle", "lceil", "lfloor", "rangle", "rceil", "rfloor", "vert", "Vert", "backslash",
	} {
		plain[`\`+s] = true
	}
}

func newRef(src string) *ref {
	r := &ref{src: src}
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		r.i = 3 // a byte order mark
	}
	return r
}

func (r *ref) fail(why string) { panic(refuse{why}) }

func blank(c byte) bool { return c == '\t' || c == '\n' || c == '\r' }

func (r *ref) lex() tok {
	for r.i < len(r.src) && blank(r.src[r.i]) {
		r.i++
	}
	pos := r.i
	if pos >= len(r.src) {
		return tok{kind: 0, pos: pos}
	}
	c := r.src[pos]
	switch {
	case letterAt(r.src, pos) > 0:
		for r.i < len(r.src) {
			n := letterAt(r.src, r.i)
			if n == 0 {
				break
			}
			r.i += n
		}
		return tok{'W', pos, r.src[pos:r.i]}
	case digit(c) || c == '.' && pos+1 < len(r.src) && digit(r.src[pos+1]):
		for r.i < len(r.src) && digit(r.src[r.i]) {
			r.i++
		}
		if r.i < len(r.src) && r.src[r.i] == '.' {
			r.i++
			for r.i < len(r.src) && digit(r.src[r.i]) {
				r.i++
			}
		}
		return tok{'N', pos, r.src[pos:r.i]}
	}
	r.i++
	switch c {
	case '\\':
		if r.i >= len(r.src) {
			r.fail("no name")
		}
		if letterAt(r.src, r.i) > 0 {
			for r.i < len(r.src) {
				n := letterAt(r.src, r.i)
				if n == 0 {
					break
				}
				r.i += n
			}
			return tok{'M', pos, r.src[pos:r.i]}
		}
		d := r.src[r.i]
		if blank(d) {
			r.i++
			return tok{'M', pos, `\ `}
		}
		if d >= 0x80 {
			_, n := utf8.DecodeRuneInString(r.src[r.i:])
			r.i += n
		} else {
			r.i++
		}
		return tok{'M', pos, r.src[pos:r.i]}
	case '%':
		for r.i < len(r.src) && r.src[r.i] != '\n' {
			r.i++
		}
		if r.i < len(r.src) {
			r.i++
		}
		return tok{'c', pos, ""}
	case ' ', '{', '}':
		return tok{c, pos, r.src[pos : pos+1]}
	case '[', ']', '(', ')', '$', '_', '=', '<', '>', '^', '/', '*', '-', '+', '!', '?', '\'', ':', ',', ';', '.':
		return tok{'S', pos, r.src[pos : pos+1]}
	}
	r.fail("character")
	panic("unreachable")
}

func digit(c byte) bool { return '0' <= c && c <= '9' }

// letterAt returns the length of the letter at s[i:], 0 if none is there.
func letterAt(s string, i int) int {
	c := s[i]
	if c < 0x80 {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return 1
		}
		return 0
	}
	r, n := utf8.DecodeRuneInString(s[i:])
	if unicode.IsLetter(r) {
		return n
	}
	return 0
}

func (r *ref) skip() {
	for r.i < len(r.src) {
		c := r.src[r.i]
		switch {
		case c == ' ' || blank(c):
			r.i++
		case c == '%':
			for r.i < len(r.src) && r.src[r.i] != '\n' {
				r.i++
			}
			if r.i < len(r.src) {
				r.i++
			}
		default:
			return
		}
	}
}

func (r *ref) emit(k byte, pos, end int, text string) {
	r.out = append(r.out, ev{k, pos, end, text})
}

// until reads items up to a closing character.
func (r *ref) until(close byte) int {
	for {
		t := r.lex()
		if t.kind == 0 {
			r.fail("not closed")
		}
		if len(t.text) == 1 && t.kind != 'W' && t.kind != 'N' && t.text[0] == close {
			return t.pos
		}
		r.item(t)
	}
}

// braced reads a braced argument.
func (r *ref) braced(open byte, close byte) int {
	r.skip()
	if r.i >= len(r.src) || r.src[r.i] != open {
		r.fail("no argument")
	}
	r.i++
	return r.until(close)
}

func (r *ref) item(t tok) {
	switch t.kind {
	case 0, '}':
		r.fail("unexpected")
	case 'c':
	case 'W', 'N':
		r.emit(t.kind, t.pos, r.i, t.text)
	case ' ':
		if !r.math {
			r.emit('S', t.pos, r.i, t.text)
		}
	case '{':
		if !r.math {
			r.fail("group in text")
		}
		k := len(r.out)
		r.emit('L', 0, 0, "")
		r.until('}')
		r.span(k)
		r.emit('l', 0, 0, "")
	case 'S':
		switch t.text[0] {
		case '$':
			k := len(r.out)
			r.emit('$', t.pos, 0, "")
			m := r.math
			r.math = true
			r.until('$')
			r.math = m
			r.out[k].end = r.i
			r.emit('q', 0, 0, "")
		case '^', '_':
			o, c := byte('P'), byte('p')
			if t.text[0] == '_' {
				o, c = 'B', 'b'
			}
			k := len(r.out)
			r.emit(o, t.pos, 0, "")
			r.skip()
			if r.i < len(r.src) && r.src[r.i] == '{' {
				r.i++
				j := len(r.out)
				r.emit('L', 0, 0, "")
				r.until('}')
				r.span(j)
				r.emit('l', 0, 0, "")
			} else {
				r.item(r.lex())
			}
			_ = k
			r.emit(c, 0, 0, "")
		default:
			r.emit('S', t.pos, r.i, t.text)
		}
	case 'M':
		ar, ok := arities[t.text]
		if !ok && (t.text == `\genfrac` || !plain[t.text] && !tex2unicode.HasSymbol(t.text[1:])) {
			r.fail("unknown macro")
		}
		k := len(r.out)
		r.emit('M', t.pos, t.pos+len(t.text), t.text)
		for j := 0; j < len(ar); j++ {
			o, open, close := byte('A'), byte('{'), byte('}')
			if ar[j] == 'O' {
				o, open, close = 'O', '[', ']'
				r.skip()
				if r.i >= len(r.src) || r.src[r.i] != '[' {
					continue
				}
			}
			r.skip()
			l := len(r.out)
			r.emit(o, r.i, 0, "")
			r.braced(open, close)
			r.out[l].end = r.i
			r.emit(o+32, 0, 0, "")
			r.out[k].end = r.i
		}
		r.emit('m', 0, 0, "")
	}
}

// span sets the range of the group at event k to that of its contents.
func (r *ref) span(k int) {
	r.out[k].pos, r.out[k].end = -1, -1
}

// reference reads src; ok tells whether it belongs to the language.
func reference(src string) (out []ev, ok bool) {
	r := newRef(src)
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(refuse); !is {
				panic(e)
			}
			out, ok = nil, false
		}
	}()
	for {
		t := r.lex()
		if t.kind == 0 {
			return r.out, true
		}
		r.item(t)
	}
}

// flat lists the events of a tree.
func flat(out []ev, n ast.Node) []ev {
	list := func(l ast.List) {
		for _, x := range l {
			out = flat(out, x)
		}
	}
	switch n := n.(type) {
	case *ast.Word:
		return append(out, ev{'W', int(n.Pos()), int(n.End()), n.Text})
	case *ast.Literal:
		return append(out, ev{'N', int(n.Pos()), int(n.End()), n.Text})
	case *ast.Symbol:
		return append(out, ev{'S', int(n.Pos()), int(n.End()), n.Text})
	case *ast.Macro:
		out = append(out, ev{'M', int(n.Pos()), int(n.End()), n.Name.Name})
		list(n.Args)
		return append(out, ev{kind: 'm'})
	case *ast.Arg:
		out = append(out, ev{'A', int(n.Pos()), int(n.End()), ""})
		list(n.List)
		return append(out, ev{kind: 'a'})
	case *ast.OptArg:
		out = append(out, ev{'O', int(n.Pos()), int(n.End()), ""})
		list(n.List)
		return append(out, ev{kind: 'o'})
	case *ast.MathExpr:
		out = append(out, ev{'$', int(n.Pos()), int(n.End()), ""})
		list(n.List)
		return append(out, ev{kind: 'q'})
	case ast.List:
		out = append(out, ev{'L', -1, -1, ""})
		list(n)
		return append(out, ev{kind: 'l'})
	case *ast.Sub:
		out = append(out, ev{'B', int(n.Pos()), 0, ""})
		out = flat(out, n.Node)
		return append(out, ev{kind: 'b'})
	case *ast.Sup:
		out = append(out, ev{'P', int(n.Pos()), 0, ""})
		out = flat(out, n.Node)
		return append(out, ev{kind: 'p'})
	case nil:
		return append(out, ev{kind: '0'})
	}
	return append(out, ev{kind: '?'})
}
