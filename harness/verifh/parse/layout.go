package parse

import (
	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	nd "github.com/go-latex/latex/internal/verifnd"
)

// bounds returns the token boundaries of src and, for each, whether it lies
// inside math; it reads src as the reference does. A boundary directly after
// a control sequence made of letters followed by a letter cannot occur.
type mark struct {
	at   int
	math bool
}

func boundaries(src string) (out []mark, ok bool) {
	r := newRef(src)
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(refuse); !is {
				panic(e)
			}
			out, ok = nil, false
		}
	}()
	math := 0
	for {
		out = append(out, mark{r.i, math%2 == 1})
		t := r.lex()
		if t.kind == 0 {
			return out, true
		}
		if t.kind == 'S' && t.text[0] == '$' {
			math++
		}
	}
}

// Layout: blanks and comments between tokens do not change the tree.
func Layout() {
	src := source()
	nd.Assume(!numeric(src))
	node, err := latex.ParseExpr(src)
	nd.Observe(src, err == nil)
	if err != nil {
		nd.Reach("rejected")
	}
	ms, ok := boundaries(src)
	nd.Assume(ok)
	b := ms[nd.Choose(len(ms))]
	extra := ""
	switch nd.Choose(6) {
	case 0:
		extra = "\n"
	case 1:
		extra = "\t"
	case 2:
		extra = "\r"
	case 3:
		extra = "%" + ascii(nd.Param("comment")) + "\n"
	case 4:
		if !b.math || err != nil {
			return
		}
		extra = " "
	case 5:
		extra = "%\"\r\n"
	}
	nd.Reach("inserted")
	changed := src[:b.at] + extra + src[b.at:]
	node2, err2 := latex.ParseExpr(changed)
	if err != nil {
		// taking it out again would turn an accepted expression into this one.
		nd.Assert(err2 != nil, "rejected after removing a blank or a comment")
		return
	}
	nd.Assert(err2 == nil, "rejected after inserting a blank or a comment")
	g1, g2 := flat(nil, node), flat(nil, node2)
	nd.Assert(len(g1) == len(g2), "another number of nodes after inserting a blank or a comment")
	for i := range g1 {
		nd.Assert(g1[i].kind == g2[i].kind, "another tree after inserting a blank or a comment")
		nd.Assert(g1[i].text == g2[i].text, "another text after inserting a blank or a comment")
	}
	_ = ast.List{}
}
