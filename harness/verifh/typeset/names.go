package typeset

import (
	"sort"

	"github.com/go-latex/latex/internal/tex2unicode"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex"
)

// operators of TeX: these have space on both sides.
var (
	allBinaries = []string{
		"+", "-", "*", `\ast`, `\bigcirc`, `\bigtriangledown`, `\bigtriangleup`, `\bullet`, `\cap`, `\cdot`, `\circ`,
		`\cup`, `\dagger`, `\diamond`, `\div`, `\mp`, `\odot`, `\ominus`, `\oplus`, `\oslash`, `\otimes`, `\pm`,
		`\sqcap`, `\sqcup`, `\star`, `\times`, `\triangleleft`, `\triangleright`, `\uplus`, `\vee`, `\wedge`, `\wr`,
	}
	allRelations = []string{
		"=", "<", ">", ":", `\approx`, `\asymp`, `\bowtie`, `\cong`, `\dashv`, `\doteq`, `\doteqdot`, `\dotplus`,
		`\dots`, `\equiv`, `\frown`, `\geq`, `\gg`, `\in`, `\leq`, `\ll`, `\mid`, `\models`, `\neq`, `\ni`,
		`\parallel`, `\perp`, `\prec`, `\preceq`, `\propto`, `\sim`, `\simeq`, `\smile`, `\sqsubset`, `\sqsubseteq`,
		`\sqsupset`, `\sqsupseteq`, `\subset`, `\subseteq`, `\succ`, `\succeq`, `\supset`, `\supseteq`, `\vdash`, `\Join`,
		`\downarrow`, `\hookleftarrow`, `\hookrightarrow`, `\leadsto`, `\leftarrow`, `\leftharpoondown`, `\leftharpoonup`,
		`\leftrightarrow`, `\longleftarrow`, `\longleftrightarrow`, `\longmapsto`, `\longrightarrow`, `\rightarrow`,
		`\mapsto`, `\nearrow`, `\nwarrow`, `\rightharpoondown`, `\rightharpoonup`, `\rightleftharpoons`, `\searrow`,
		`\swarrow`, `\uparrow`, `\updownarrow`, `\Downarrow`, `\Leftarrow`, `\Leftrightarrow`, `\Longleftarrow`,
		`\Longleftrightarrow`, `\Longrightarrow`, `\Rightarrow`, `\Uparrow`, `\Updownarrow`,
	}
	allSpaces = []string{`\,`, `\:`, `\;`, `\!`, `\ `, `\quad`, `\qquad`}
	allFuncs  = []string{
		`\arccos`, `\arcsin`, `\arctan`, `\arg`, `\cos`, `\cosh`, `\cot`, `\coth`, `\csc`, `\deg`, `\det`, `\dim`,
		`\gcd`, `\hom`, `\inf`, `\ker`, `\lg`, `\lim`, `\liminf`, `\limsup`, `\ln`, `\log`, `\max`, `\min`,
		`\sec`, `\sin`, `\sinh`, `\sup`, `\tan`, `\tanh`, `\Pr`,
	}
)

func kindOf(name string) (int, bool) {
	for k, l := range map[int][]string{kBinary: allBinaries, kRel: allRelations, kSpace: allSpaces, kFunc: allFuncs} {
		for _, n := range l {
			if n == name {
				return k, true
			}
		}
	}
	return kMacro, false
}

// plain are the known names that are simple symbols.
func plain() []string {
	var r []string
	for _, n := range tex2unicode.Symbols() {
		switch n {
		case "ldotp", "cdotp", "sqrt", "__sqrt__", "overline", "exp", "frac":
			continue
		}
		if letters(n) {
			if _, ok := kindOf(`\` + n); !ok {
				r = append(r, `\`+n)
			}
		}
	}
	sort.Strings(r)
	return r
}

func letters(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; c < 'a' || c > 'z' {
			return false
		}
	}
	return s != ""
}

// one is the source `$ before name after $` and its meaning.
func (mk *maker) around(p *piece, ctx int) []*piece {
	m := &piece{kind: kMath, pos: len(mk.src)}
	put := func(q *piece) *piece {
		q.pos = len(mk.src)
		mk.src += q.text
		return q
	}
	group := func(open, shut string, k int) {
		mk.src += open
		g := &piece{kind: k, a: []*piece{put(p)}}
		mk.src += " "
		g.a = append(g.a, put(&piece{kind: kWord, text: mk.letter()}))
		mk.src += shut
		if k == kSqrt {
			g.b, g.a = g.a, nil
		}
		m.a = append(m.a, g)
	}
	if ctx >= nCtx {
		one, two := &piece{kind: kDigit, text: mk.digit()}, &piece{kind: kDigit, text: mk.digit()}
		switch ctx {
		case nCtx: // outside math
			return []*piece{put(one), put(p), put(two)}
		case nCtx + 1: // in an argument outside math
			mk.src += `\sqrt{`
			g := &piece{kind: kSqrt, b: []*piece{put(one), put(p), put(two)}}
			mk.src += "}"
			return []*piece{g}
		}
	}
	mk.src += "$"
	switch ctx {
	case 0: // between
		m.a = append(m.a, put(&piece{kind: kWord, text: mk.letter()}), put(p))
		mk.src += " "
		m.a = append(m.a, put(&piece{kind: kWord, text: mk.letter()}))
	case 1: // at the start
		m.a = append(m.a, put(p))
		mk.src += " "
		m.a = append(m.a, put(&piece{kind: kDigit, text: mk.digit()}))
	case 2: // at the start, after a comment
		mk.src += "%x\n "
		m.a = append(m.a, put(p))
	case 3: // after what a comment ends with
		m.a = append(m.a, put(&piece{kind: kWord, text: mk.letter()}))
		mk.src += "%{\n"
		m.a = append(m.a, put(p))
	case 4: // opening a group
		m.a = append(m.a, put(&piece{kind: kDigit, text: mk.digit()}))
		group("{", "}", kGroup)
	case 5: // after a group
		mk.src += "{"
		m.a = append(m.a, &piece{kind: kGroup, a: []*piece{put(&piece{kind: kWord, text: mk.letter()})}})
		mk.src += "}"
		m.a = append(m.a, put(p))
	case 6: // opening an argument
		group(`\sqrt{`, "}", kSqrt)
	case 7: // after a delimiter
		ds := []string{"(", "<", `\langle`, `\lfloor`, `\lceil`, `\{`}
		d := &piece{kind: kDelim, text: ds[nd.Choose(len(ds))]}
		if d.text == "<" {
			d.kind = kRel
		}
		m.a = append(m.a, put(d))
		mk.src += " "
		m.a = append(m.a, put(p))
	case 8: // after a closing delimiter, and twice
		m.a = append(m.a, put(&piece{kind: kDelim, text: ")"}), put(p))
		mk.src += " "
		m.a = append(m.a, put(&piece{kind: p.kind, text: p.text, em: p.em}))
	}
	mk.src += "$"
	return []*piece{m}
}

const nCtx = 9

// Names is C14 for every known name.
func Names() {
	names := plain()
	names = append(names, allFuncs...)
	names = append(names, allBinaries...)
	names = append(names, allRelations...)
	mk := &maker{letters: true}
	n := names[nd.Choose(len(names))]
	k, _ := kindOf(n)
	ps := mk.around(&piece{kind: k, text: n}, nd.Choose(nd.Param("ctx")))
	set(newBackend(false), mk.src, refSize, ps).glyphs()
	nd.Reach("typeset")
}

// Classes is C15 for every known name.
func Classes() {
	var names []string
	switch nd.Param("names") {
	case 0:
		names = append(append(names, allBinaries...), allRelations...)
	case 1:
		names = append(append(names, allFuncs...), plain()...)
	}
	mk := &maker{}
	n := names[nd.Choose(len(names))]
	k, _ := kindOf(n)
	mk.plain = nd.Param("names") == 1
	lo := nd.Param("lo")
	ps := mk.around(&piece{kind: k, text: n}, lo+nd.Choose(nd.Param("hi")-lo))
	set(newBackend(true), mk.src, refSize, ps).across()
	nd.Reach("typeset")
}

// Spaces is C15 for every explicit space.
func Spaces() {
	mk := &maker{}
	p := &piece{kind: kSpace}
	amounts := []string{"0", "1", "2", "12", "0.5", "1.25"}
	i := nd.Choose(len(allSpaces) + len(amounts))
	if i < len(allSpaces) {
		p.text = allSpaces[i]
	} else {
		a := amounts[i-len(allSpaces)]
		p.text = `\hspace{` + a + `}`
		v := []float64{0, 1, 2, 12, 0.5, 1.25}[i-len(allSpaces)]
		p.em = &v
	}
	ps := mk.around(p, nd.Choose(nCtx+2))
	set(newBackend(true), mk.src, size(), ps).across()
	nd.Reach("typeset")
}

// Amounts is C14 for arbitrary arguments of \hspace: one number is the width,
// anything else is no width.
func Amounts() {
	n := nd.Param("n")
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteIn("015., a")
	}
	a := string(b)
	p := &piece{kind: kSpace, text: `\hspace{` + a + `}`}
	v, ok, either := amount(a)
	if either {
		return
	}
	if ok {
		p.em = &v
		mk := &maker{}
		ps := mk.around(p, 0)
		set(newBackend(true), mk.src, size(), ps).across()
		nd.Reach("typeset")
		return
	}
	box, err := mtex.Parse(`$x`+p.text+`y$`, size(), 72, newBackend(true))
	nd.Observe(a)
	nd.Assert(err != nil && box == nil, "an argument of hspace that is no number is typeset")
	nd.Reach("rejected")
}

// amount reads a number. Numbers that start or end with a dot may be refused.
func amount(s string) (v float64, ok, either bool) {
	i, j := 0, len(s)
	for i < j && s[i] == ' ' {
		i++
	}
	for i < j && s[j-1] == ' ' {
		j--
	}
	dots, digits, frac := 0, 0, 1.0
	for ; i < j; i++ {
		switch c := s[i]; {
		case c == '.':
			dots++
			either = either || digits == 0 || i == j-1
		case c >= '0' && c <= '9':
			digits++
			d := 0.0
			switch c {
			case '1':
				d = 1
			case '5':
				d = 5
			}
			v = v*10 + d
			if dots > 0 {
				frac *= 10
			}
		default:
			return 0, false, false
		}
	}
	return v / frac, digits > 0 && dots <= 1, either && digits > 0 && dots == 1
}

// Decimals is C15 for decimal numbers, inside and outside of math and at both
// ends of the expression: a dot between two digits has no space.
func Decimals() {
	mk := &maker{}
	num := ""
	switch d := "0123456789"[nd.Choose(10):][:1]; nd.Choose(3) {
	case 0:
		num = d + ".7"
	case 1:
		num = "7." + d
	case 2:
		num = "2" + d + "." + d
	}
	number := func() *piece {
		p := &piece{kind: kDigit, text: num, pos: len(mk.src)}
		mk.src += num
		return p
	}
	word := func() *piece {
		p := &piece{kind: kWord, text: "x", pos: len(mk.src)}
		mk.src += "x"
		return p
	}
	var ps []*piece
	math := func(inner ...func() *piece) {
		m := &piece{kind: kMath, pos: len(mk.src)}
		mk.src += "$"
		for _, f := range inner {
			m.a = append(m.a, f())
		}
		mk.src += "$"
		ps = append(ps, m)
	}
	switch nd.Choose(8) {
	case 0: // alone
		ps = append(ps, number())
	case 1:
		ps = append(ps, word(), number())
	case 2:
		ps = append(ps, number(), word())
	case 3:
		ps = append(ps, number())
		math(word)
	case 4:
		math(word)
		ps = append(ps, number())
	case 5:
		math(number)
	case 6:
		math(word, number, word)
	case 7:
		mk.src += `\sqrt{`
		ps = append(ps, &piece{kind: kSqrt, b: []*piece{number()}})
		mk.src += "}"
	}
	set(newBackend(true), mk.src, size(), ps).across()
	nd.Reach("typeset")
}
