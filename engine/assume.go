package main

// assumptions are what a check takes for granted, by the package of its
// harnesses.
var assumptions = map[string][]string{
	"": {
		"the encoder (engine/) interprets go/ssa as the compiler compiles it; sampled paths are compared with the real build",
		"z3 4.8.12 and cvc5 1.1.2 (asked where z3 does not answer within a second) answer correctly; answers of unknown count as inconclusive, not as held",
		"library models (engine/models.go, harness/verifshim) mean what the library documents",
		"nothing is claimed beyond the bounds of the runs",
	},
	"parse":   {"where a number ends that is directly followed by a letter, underscore or dot is not checked (text/scanner's number syntax)"},
	"tree":    {"trees have no shared or cyclic nodes; an ast.Macro has a name"},
	"boxes":   {"floats are exact reals, compared up to a relative rounding where constants combine in another order", "the metrics of the backend are arbitrary numbers, the same for the same question"},
	"typeset": {"floats are exact reals, compared up to a relative rounding where constants combine in another order", "the backend is a stub with arbitrary metrics in proportion to the size; glyphs are not empty"},
	"render":  {"golang.org/x/image (sfnt, opentype, gofont) and git.sr.ht/~sbinet/gg are stubs (stubs/): the tables of the fonts are arbitrary, drawings are recorded", "image/png.Encode is one write"},
	"names":   {"the character of each name is that of the table in harness/verifh/names/table.go (HTML entities, Unicode names)"},
	"pdf":     {"github.com/go-pdf/fpdf is a stub (stubs/fpdf): the pages, what is drawn on them and where they go are recorded", "what is drawn is counted, not looked at"},
	"hist":    {"golang.org/x/image and git.sr.ht/~sbinet/gg are stubs (stubs/)", "a write to memory that was reachable before the call, without lock, atomic or pool, counts as a race; it is confirmed with the race detector"},
}

func assume(ck *Check) []string {
	r := append([]string{}, assumptions[""]...)
	seen := map[string]bool{}
	for _, s := range ck.Quick {
		if !seen[s.Pkg] {
			seen[s.Pkg] = true
			r = append(r, assumptions[s.Pkg]...)
		}
	}
	return r
}
