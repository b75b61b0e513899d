package render

import (
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	nd "github.com/go-latex/latex/internal/verifnd"
	"golang.org/x/image/font/sfnt"
)

// FontSets: each set of fonts gives a request the font of its style, of the
// set's family.
func FontSets() {
	sfnt.World = newFaces()
	cnv := drawtex.New()
	sets := []func() *ttf.Fonts{lm.Fonts, liberation.Fonts}
	families := []string{"lmroman", "liberationserif", "go"}
	set := nd.Choose(len(families))
	var be *ttf.Backend
	if set < len(sets) {
		f := sets[set]()
		nd.Assert(f != nil && f.Rm != nil && f.It != nil && f.Bf != nil && f.BfIt != nil && f.Default != nil, "a font of the set is missing")
		nd.Assert(style(f.Rm, families[set]) == "regular", "the upright font of the set is another one")
		nd.Assert(f.Default == f.Rm || style(f.Default, families[set]) == "regular", "the default font of the set is not the upright one")
		nd.Assert(style(f.It, families[set]) == "italic", "the italic font of the set is another one")
		nd.Assert(style(f.Bf, families[set]) == "bold", "the bold font of the set is another one")
		nd.Assert(style(f.BfIt, families[set]) == "bolditalic", "the bold italic font of the set is another one")
		g := sets[set]()
		nd.Assert(*f == *g, "the set has other fonts the second time")
		be = ttf.NewFrom(cnv, g)
		nd.Reach("set")
	} else {
		be = ttf.New(cnv)
		nd.Reach("none given")
	}
	sym, typ := symbol(), types[nd.Choose(len(types))]
	fnt := font.Font{Name: "default", Type: typ, Size: 10}
	r := tex2unicode.Index(sym, true)
	want := map[*sfnt.Font]string{}
	w := &faces{upright: &sfnt.Font{}, italic: &sfnt.Font{}, bold: &sfnt.Font{}, def: &sfnt.Font{}}
	want[w.upright], want[w.italic], want[w.bold], want[w.def] = "regular", "italic", "bold", "regular"
	be.RenderGlyph(1, 2, fnt, sym, 72)
	ops := cnv.Ops()
	nd.Assert(len(ops) == 1, "a glyph is not drawn once")
	f := ops[0].(drawtex.GlyphOp).Glyph.Font
	nd.Assert(style(f, families[set]) == want[w.font(typ, r)], "the glyph of another style or family is drawn")
	nd.Observe(typ, f.ID)
}

// style is what follows the family and its size in the name of a font.
func style(f *sfnt.Font, family string) string {
	if !strings.HasPrefix(f.ID, family) {
		return "of another family"
	}
	return strings.TrimLeft(f.ID[len(family):], "0123456789")
}
