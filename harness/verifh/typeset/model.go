package typeset

import (
	"strings"

	nd "github.com/go-latex/latex/internal/verifnd"
)

// kinds of pieces of an expression.
const (
	kWord    = iota // letters
	kDigit          // a digit
	kDot            // .
	kBinary         // + - * and their macros
	kRel            // = < > : and the arrows
	kDelim          // ( ) and other delimiters
	kMacro          // a symbol macro
	kSpace          // an explicit space
	kFunc           // \sin
	kFuncArg        // \exp{...}
	kGroup          // {...}
	kFrac           // \frac{...}{...}
	kTFrac
	kDFrac
	kBinom
	kSqrt
	kRoot // \sqrt[...]{...}
	kOver
	kMath  // $...$
	kBlank // a space of the text
	nKinds
)

// piece is a piece of the expression, whose meaning is known by construction.
type piece struct {
	kind int
	text string
	pos  int // offset in the source
	a, b []*piece
	em   *float64 // the amount of a custom space
}

// maker makes an arbitrary expression together with its meaning.
type maker struct {
	src     string
	kinds   []int
	width   int  // pieces of an inner list
	letters bool // they are arbitrary
	plain   bool // they are all the same
	prose   bool // in the text: blanks count
}

const lower = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func (mk *maker) letter() string {
	if mk.letters {
		return string([]byte{nd.ByteIn(lower)})
	}
	if mk.plain {
		return "x"
	}
	return []string{"x", "y"}[nd.Choose(2)]
}

func (mk *maker) digit() string {
	if mk.letters {
		return string([]byte{nd.Byte('1', '9')})
	}
	return "7"
}

var (
	binaries = []string{"+", "-", "*", `\times`, `\cdot`}
	rels     = []string{"=", "<", ":", `\leq`, `\rightarrow`}
	delims   = []string{"(", ")", `\langle`, `\lceil`, `\{`, `\}`}
	greek    = []string{`\alpha`, `\int`, `\infty`}
	spaces   = []string{`\,`, `\quad`, `\!`, `\ `}
	funcs    = []string{`\sin`, `\lim`}
)

func pick(s []string) string {
	n := nd.Param("pick")
	if n == 0 || n > len(s) {
		n = len(s)
	}
	return s[nd.Choose(n)]
}

func alnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// sep separates what comes from what has been written: alphanumeric sides
// may need it.
func (mk *maker) sep(first bool, kind int) {
	if mk.prose {
		return
	}
	n := nd.Param("seps")
	if n == 0 {
		n = 1
	}
	seps := []string{" ", "%=}\n", ""}
	switch kind {
	case kWord, kDigit:
		if !first && mk.src != "" && (kind == kWord || mk.ending() != '.') {
			// Nothing would merge it into a word, number or macro.
			if n > 2 {
				n = 2
			}
			mk.src += seps[nd.Choose(n)]
			return
		}
		seps = []string{"", " ", "%=}\n"}
	case kDot, kDelim:
		seps = []string{"", " ", "%=}\n"}
	}
	mk.src += seps[nd.Choose(n)]
}

// ending is the kind of the last character, '.' for a dot.
func (mk *maker) ending() byte {
	if strings.HasSuffix(mk.src, ".") {
		return '.'
	}
	return 0
}

// list makes n pieces, those of the kinds allowed, nested at most depth deep.
func (mk *maker) list(n, depth int, inner bool) []*piece {
	var r []*piece
	for i := 0; i < n; i++ {
		k := mk.kinds[nd.Choose(len(mk.kinds))]
		if k >= kFuncArg && k != kBlank && depth == 0 {
			k = kWord
		}
		if k == kMath && !inner {
			k = kDigit
		}
		mk.sep(i == 0, k)
		r = append(r, mk.piece(k, depth))
	}
	return r
}

func (mk *maker) arg(depth int) []*piece {
	mk.src += "{"
	r := mk.list(nd.Choose(mk.width+1), depth, true)
	mk.src += "}"
	return r
}

func (mk *maker) piece(k, depth int) *piece {
	p := &piece{kind: k, pos: len(mk.src)}
	switch k {
	case kWord:
		p.text = mk.letter()
		if mk.letters && nd.Choose(2) == 1 {
			p.text += mk.letter()
		}
	case kDigit:
		p.text = mk.digit()
		if mk.letters && nd.Choose(2) == 1 {
			p.text += mk.digit()
		}
	case kDot:
		p.text = "."
	case kBinary:
		p.text = pick(binaries)
	case kRel:
		p.text = pick(rels)
	case kDelim:
		p.text = pick(delims)
	case kMacro:
		p.text = pick(greek)
	case kSpace:
		p.text = pick(spaces)
	case kFunc:
		p.text = pick(funcs)
	case kBlank:
		p.text = " "
	}
	if p.text != "" {
		mk.src += p.text
		return p
	}
	depth--
	switch k {
	case kFuncArg:
		p.text = `\exp`
		mk.src += p.text
		p.a = mk.arg(depth)
	case kGroup:
		p.a = mk.arg(depth)
	case kMath:
		prose := mk.prose
		mk.prose = false
		mk.src += "$"
		p.a = mk.list(nd.Choose(mk.width+1), 0, false)
		mk.src += "$"
		mk.prose = prose
	case kFrac, kTFrac, kDFrac, kBinom:
		mk.src += map[int]string{kFrac: `\frac`, kTFrac: `\tfrac`, kDFrac: `\dfrac`, kBinom: `\binom`}[k]
		p.a = mk.arg(depth)
		p.b = mk.arg(depth)
	case kSqrt:
		mk.src += `\sqrt`
		p.b = mk.arg(depth)
	case kRoot:
		mk.src += `\sqrt[`
		p.a = mk.list(nd.Choose(mk.width+1), depth, true)
		mk.src += `]`
		p.b = mk.arg(depth)
	case kOver:
		mk.src += `\overline`
		p.a = mk.arg(depth)
	}
	return p
}
