package parse

import (
	nd "github.com/go-latex/latex/internal/verifnd"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Total":     Total,
	"Unclosed":  Unclosed,
	"Text":      Text,
	"Shape":     Shape,
	"Positions": Positions,
	"Layout":    Layout,
}

// ascii is a string of n arbitrary ASCII bytes.
func ascii(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte(0, 127)
	}
	return string(b)
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

const marks = "=<>/*-+!?':,;.()"

const nTokens = 16

// token is a piece of source: the kind is chosen, the characters are
// arbitrary within the kind.
func token(kind int) string {
	switch kind {
	case 0:
		return string([]byte{nd.ByteIn(letters)})
	case 1:
		return string([]byte{nd.Byte('0', '9')})
	case 2:
		return string([]byte{nd.ByteIn(marks)})
	case 3:
		return "{"
	case 4:
		return "}"
	case 5:
		return "["
	case 6:
		return "]"
	case 7:
		return "$"
	case 8:
		return string([]byte{nd.ByteIn("^_")})
	case 9:
		return string([]byte{nd.ByteIn(" \t\n\r")})
	case 10:
		return "%" + ascii(1) + "\n"
	case 11:
		return string([]byte{'\\', nd.ByteIn(",;:! {}()")})
	case 12:
		return `\frac`
	case 13:
		return `\sqrt`
	case 14:
		return `\mathbf`
	default:
		return `\pi`
	}
}

func tokens(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += token(nd.Choose(nTokens))
	}
	return s
}

// hole is at most one piece of source.
func hole() string {
	n := nTokens
	if nd.Param("kinds") > 0 {
		n = nd.Param("kinds")
	}
	if nd.Param("kinds") < 0 {
		return ""
	}
	k := nd.Choose(n + 1)
	if k == 0 {
		return ""
	}
	return token(holeKinds[k-1])
}

// holeKinds orders the kinds of token by how much they matter in a hole.
var holeKinds = []int{10, 9, 3, 4, 8, 7, 5, 6, 0, 1, 11, 2, 12, 13, 14, 15}

// templates have @ where a hole goes.
var templates = []string{
	`$\sqrt@[@]@{a}$`,
	`$\sqrt[a@]{@b}@$`,
	`$\frac@{a}@{b@}$`,
	`$x^@{a@}_@$`,
	`$x_@y^@z@$`,
	`\textbf@{a@}@`,
	`@$@$@`,
	`${@}{@a}@$`,
	`$\mathbf{\frac{@}{1}@}@$`,
	`$a^{b_{@}@}@$`,
	`$\sqrt[@]{\sqrt{@}}@$`,
	`a@$b@$c@`,
	`$\exp@{@}@$`,
	`$\binom{@}@{$@$}$`,
	`%@` + "\n" + `@$%"@` + "\n" + `$`,
	`$\overline{@}\hspace{@}\operatorname{@}$`,
	`$x_{$@$@}@ {@}$`,
	`$\frac{$a@$@}{b} @\tfrac{1}{@}$`,
}

func fill(t string, hole func() string) string {
	s := ""
	for i := 0; i < len(t); i++ {
		if t[i] == '@' {
			s += hole()
			continue
		}
		s += t[i : i+1]
	}
	return s
}

// Source is source, for other harnesses.
func Source() string { return source() }

// source makes the input of a harness.
func source() string {
	n := nd.Param("n")
	switch nd.Param("mode") {
	case 0: // any ASCII string
		return ascii(nd.Choose(n + 1))
	case 1: // any ASCII string in math
		return "$" + ascii(nd.Choose(n+1)) + "$"
	case 2: // any sequence of pieces in math
		return "$" + tokens(n) + "$"
	case 3: // any sequence of pieces
		return tokens(n)
	case 4: // templates with holes
		lo := nd.Param("lo")
		t := templates[lo+nd.Choose(nd.Param("hi")-lo)]
		return fill(t, hole)
	case 5: // control sequences with arbitrary names
		names := []string{"f@ac", "@qrt", "ma@hbf", "@i", "te@tit", "exp@", "alph@", "@", "@@", "in@"}
		t := `\` + names[nd.Choose(len(names))]
		s := fill(t, func() string { return string([]byte{nd.Byte(33, 127)}) })
		tails := []string{"", "{a}", "{a}{b}", "[a]{b}", " b"}
		s += tails[nd.Choose(len(tails))]
		if nd.Choose(2) == 1 {
			return "$" + s + "$"
		}
		return s
	case 6: // non-ASCII characters and arbitrary bytes
		pre := []string{"", "$", `\`, `$x^`, "%", `\pi`, "$a"}
		p := pre[nd.Choose(len(pre))]
		s := p
		for i := 0; i < n; i++ {
			switch nd.Choose(3) {
			case 0:
				s += string(nd.Rune(0x80, 0x10FFFF))
			case 1:
				s += string([]byte{nd.Byte(0x80, 0xff)})
			case 2:
				s += string([]byte{nd.Byte(32, 126)})
			}
		}
		if len(p) > 0 && p[0] == '$' {
			s += "$"
		}
		return s
	case 7: // any ASCII string inside a construct
		ctx := [][2]string{
			{`$\frac{`, `}{1}$`}, {`$\sqrt[`, `]{x}$`}, {`$x^`, `$`}, {`$x_{`, `}$`},
			{`\textbf{`, `}`}, {`${`, `}$`}, {`$\mathbf`, `{x}$`}, {`$\sqrt`, `{x}$`}, {`%`, ``},
		}
		c := ctx[nd.Choose(len(ctx))]
		return c[0] + ascii(nd.Choose(n+1)) + c[1]
	case 8: // long and deep sources, with one arbitrary byte
		if n == 0 {
			return long(nd.Choose(len(shapes)), 4)
		}
		sizes := []int{10, 18, 34, 66, 130, 258, 514}
		return long(nd.Choose(len(shapes)), sizes[nd.Choose(n)])
	}
	panic("mode")
}

// shapes are pieces repeated n times in a context: the opening and closing
// ones around @, where the arbitrary byte goes.
var shapes = [][2]string{
	{"a", ""}, {"7", ""}, {" ", ""}, {"\n", ""}, {"a ", ""}, {"$x$", ""}, {`\textbf{a}`, ""}, {`\textbf{`, "}"},
	{"%a\n", ""}, {"%", ""}, {"$", "$"},
	{"$ a", ""}, {"$ 7", ""}, {"$ {", "}"}, {"$ +b", ""}, {"$ x^2", ""}, {"$ x^{", "}"}, {`$ \frac{`, "}{1}"}, {`$ \frac{1}{`, "}"},
	{`$ \sqrt[`, "]{b}"}, {`$ \sqrt[2]{`, "}"}, {`$ \pi`, ""}, {`$ \,`, ""}, {`$ %b` + "\n", ""}, {"$ {$", "$}"},
	{`\ a`, ""}, {`$\ a`, ""}, {`$\ b`, "{a}"},
}

// long is the shape repeated n times: inside math after "$ ", as one control
// sequence after `\ ` or `$\ `.
func long(shape, n int) string {
	t := shapes[shape]
	head, tail := "", ""
	switch {
	case len(t[0]) > 2 && t[0][:2] == "$ ":
		head, tail = "$", "$"
		t[0] = t[0][2:]
	case len(t[0]) > 2 && t[0][:2] == `\ `:
		head = `\`
		t[0] = t[0][2:]
	case len(t[0]) > 2 && t[0][:2] == `$\`:
		head, tail = `$\`, "$"
		t[0] = t[0][3:]
	}
	s := head
	for i := 0; i < n; i++ {
		s += t[0]
	}
	s += string([]byte{nd.Byte(0, 127)})
	for i := 0; i < n; i++ {
		s += t[1]
	}
	return s + tail
}
