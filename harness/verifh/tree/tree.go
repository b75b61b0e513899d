// Package tree holds the checks of walking and printing syntax trees.
package tree

import (
	"strings"

	"github.com/go-latex/latex/ast"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/token"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Walk":    Walk,
	"Inspect": Inspect,
	"Print":   Print,
	"Differ":  Differ,
	"Forge":   Forge,
}

// gen builds trees by choice, of at most left more nodes.
type gen struct {
	left int
	text func() string
	nils bool // allow absent children
	pos  int
}

func (g *gen) leafPos() token.Pos {
	g.pos++
	return token.Pos(g.pos)
}

// list is up to max children.
func (g *gen) list(max int) ast.List {
	var l ast.List
	for len(l) < max && g.left > 0 {
		switch nd.Choose(2) {
		case 0:
			return l
		}
		l = append(l, g.child())
	}
	return l
}

func (g *gen) child() ast.Node {
	if g.left <= 0 {
		return nil
	}
	if g.nils && nd.Choose(4) == 0 {
		g.left--
		return nil
	}
	return g.node()
}

// operand is the child of a script.
func (g *gen) operand() ast.Node {
	if g.left <= 0 {
		if g.nils {
			return nil
		}
		return &ast.Word{WordPos: g.leafPos(), Text: "z"}
	}
	return g.child()
}

func (g *gen) node() ast.Node {
	g.left--
	switch nd.Choose(11) {
	case 0:
		return &ast.Word{WordPos: g.leafPos(), Text: g.text()}
	case 1:
		return &ast.Literal{LitPos: g.leafPos(), Text: g.text()}
	case 2:
		return &ast.Symbol{SymPos: g.leafPos(), Text: g.text()}
	case 3:
		return &ast.Ident{NamePos: g.leafPos(), Name: g.text()}
	case 4:
		return &ast.Arg{Lbrace: g.leafPos(), List: g.list(2), Rbrace: g.leafPos()}
	case 5:
		return &ast.OptArg{Lbrack: g.leafPos(), List: g.list(2), Rbrack: g.leafPos()}
	case 6:
		return &ast.MathExpr{Delim: "$", Left: g.leafPos(), List: g.list(2), Right: g.leafPos()}
	case 7:
		m := &ast.Macro{Name: &ast.Ident{NamePos: g.leafPos(), Name: g.text()}}
		m.Args = g.list(2)
		return m
	case 8:
		return &ast.Sub{UnderPos: g.leafPos(), Node: g.operand()}
	case 9:
		return &ast.Sup{HatPos: g.leafPos(), Node: g.operand()}
	default:
		return g.list(3)
	}
}

// children are the children of n, absent ones included, in order.
func children(n ast.Node) []ast.Node {
	var l []ast.Node
	switch n := n.(type) {
	case ast.List:
		l = n
	case *ast.Arg:
		l = n.List
	case *ast.OptArg:
		l = n.List
	case *ast.MathExpr:
		l = n.List
	case *ast.Macro:
		if n.Name != nil {
			l = append(l, n.Name)
		}
		l = append(l, n.Args...)
	case *ast.Sub:
		l = append(l, n.Node)
	case *ast.Sup:
		l = append(l, n.Node)
	}
	return l
}

// same tells whether a and b are the same node.
func same(a, b ast.Node) bool {
	la, aok := a.(ast.List)
	lb, bok := b.(ast.List)
	if aok != bok {
		return false
	}
	if !aok {
		return a == b
	}
	if len(la) != len(lb) {
		return false
	}
	for i := range la {
		if (la[i] == nil) != (lb[i] == nil) {
			return false
		}
		if la[i] != nil && !same(la[i], lb[i]) {
			return false
		}
	}
	return true
}

type visit struct {
	by   int // which visitor
	node ast.Node
}

// recorder is a visitor: each accepted visit makes a new one.
type recorder struct {
	id  int
	rec *record
}

type record struct {
	got  []visit
	want []bool // the answers
	next int    // visitors made
	n    int    // answers given
}

func (r *recorder) Visit(n ast.Node) ast.Visitor {
	r.rec.got = append(r.rec.got, visit{r.id, n})
	if n == nil {
		return nil
	}
	k := r.rec.n
	r.rec.n++
	if k >= len(r.rec.want) || !r.rec.want[k] {
		return nil
	}
	r.rec.next++
	return &recorder{r.rec.next, r.rec}
}

// expect lists the visits that walking n should make.
func expect(rec *record, by int, n ast.Node) {
	rec.got = append(rec.got, visit{by, n})
	k := rec.n
	rec.n++
	if k >= len(rec.want) || !rec.want[k] {
		return
	}
	rec.next++
	me := rec.next
	for _, c := range children(n) {
		if c != nil {
			expect(rec, me, c)
		}
	}
	rec.got = append(rec.got, visit{me, nil})
}

func answers() []bool {
	n := nd.Param("nodes") + 3
	w := make([]bool, n)
	for i := range w {
		w[i] = nd.Bool()
	}
	return w
}

func concrete() func() string {
	k := 0
	return func() string {
		k++
		return string([]byte{byte('a' + k - 1)})
	}
}

func root(g *gen) ast.Node {
	n := g.node()
	if nd.Choose(2) == 1 && g.left > 0 {
		// a macro without a name
		g.left--
		n = &ast.Macro{Args: ast.List{n}}
	}
	return n
}

func check(got, want []visit) {
	nd.Assert(len(got) == len(want), "another number of visits than nodes and closings")
	for i := range want {
		nd.Assert((got[i].node == nil) == (want[i].node == nil), "a closing call is missing or misplaced")
		if want[i].node != nil {
			nd.Assert(same(got[i].node, want[i].node), "nodes visited in another order")
		}
		nd.Assert(got[i].by == want[i].by, "a call was made on another visitor than the one returned")
	}
}

// Walk visits every node once, in order.
func Walk() {
	g := &gen{left: nd.Param("nodes"), text: concrete(), nils: true}
	n := root(g)
	a := answers()
	var want = &record{want: a}
	expect(want, 0, n)
	got := &record{want: a}
	ast.Walk(&recorder{0, got}, n)
	nd.Reach("walked")
	nd.Observe(len(got.got))
	check(got.got, want.got)
}

// Inspect does so with a function.
func Inspect() {
	g := &gen{left: nd.Param("nodes"), text: concrete(), nils: true}
	n := root(g)
	a := answers()
	want := &record{want: a}
	expect(want, 0, n)
	k := 0
	var got []visit
	ast.Inspect(n, func(n ast.Node) bool {
		got = append(got, visit{0, n})
		if n == nil {
			return false
		}
		k++
		return k-1 < len(a) && a[k-1]
	})
	for i := range want.got {
		want.got[i].by = 0
	}
	nd.Reach("walked")
	nd.Observe(len(got))
	check(got, want.got)
}

func printed(n ast.Node) string {
	o := new(strings.Builder)
	ast.Print(o, n)
	return o.String()
}

func kind(n ast.Node) string {
	switch n.(type) {
	case *ast.Word:
		return "Word"
	case *ast.Literal:
		return "Lit"
	case *ast.Symbol:
		return "Symbol"
	case *ast.Ident:
		return "Ident"
	case *ast.Macro:
		return "Macro"
	case *ast.MathExpr:
		return "Math"
	case *ast.Sub:
		return "Sub"
	case *ast.Sup:
		return "Sup"
	case ast.List:
		return "List"
	}
	return ""
}

func text(n ast.Node) string {
	switch n := n.(type) {
	case *ast.Word:
		return n.Text
	case *ast.Literal:
		return n.Text
	case *ast.Symbol:
		return n.Text
	case *ast.Ident:
		return n.Name
	case *ast.Macro:
		return n.Name.Name
	}
	return ""
}

// Print shows each node's kind and text, then its children's own printing,
// in order and separated.
func Print() {
	g := &gen{left: nd.Param("nodes"), text: concrete(), nils: true}
	var n ast.Node = g.node()
	s := printed(n)
	nd.Observe(s)
	nd.Reach("printed")
	prints(n, s)
}

func prints(n ast.Node, s string) {
	if n == nil {
		nd.Assert(s == "<nil>", "an absent child is not marked")
		return
	}
	at := 0
	find := func(what string, msg string) {
		i := strings.Index(s[at:], what)
		nd.Assert(i >= 0, msg)
		at += i + len(what)
	}
	find(kind(n), "the kind of a node is not shown")
	if t := text(n); t != "" {
		find(`"`+t+`"`, "the text of a node is not shown, or not quoted")
	}
	nd.Assert(at > 0 || kind(n) == "", "nothing is shown for a node")
	before := at
	cs := children(n)
	if m, ok := n.(*ast.Macro); ok {
		cs = m.Args
	}
	for i, c := range cs {
		cp := printed(c)
		prints(c, cp)
		j := strings.Index(s[at:], cp)
		nd.Assert(j >= 0, "a child is not shown, or not in order")
		if i > 0 {
			nd.Assert(j > 0, "siblings are not separated")
		}
		if i == 0 && before == 0 {
			nd.Assert(j > 0, "a group does not show where it starts")
		}
		at += j + len(cp)
	}
	if len(cs) > 0 || kind(n) == "" {
		nd.Assert(at < len(s), "a node does not show where it ends")
	}
}

// equal tells whether a and b have the same shape and texts.
func equal(a, b ast.Node) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if code(a) != code(b) {
		return false
	}
	if text(a) != text(b) {
		return false
	}
	ca, cb := children(a), children(b)
	if len(ca) != len(cb) {
		return false
	}
	for i := range ca {
		if !equal(ca[i], cb[i]) {
			return false
		}
	}
	return true
}

func code(n ast.Node) string {
	switch n.(type) {
	case *ast.Arg:
		return "{"
	case *ast.OptArg:
		return "["
	}
	return kind(n)
}

// Differ prints two trees: equal prints mean equal trees.
func Differ() {
	sym := func() string {
		n := nd.Choose(nd.Param("text")) + 1
		b := make([]byte, n)
		for i := range b {
			b[i] = nd.Byte(0, byte(nd.Param("hi")))
		}
		return string(b)
	}
	ga := &gen{left: nd.Param("nodes"), text: sym, nils: true}
	a := ga.node()
	gb := &gen{left: nd.Param("nodes2"), text: sym, nils: true}
	b := gb.node()
	sa, sb := printed(a), printed(b)
	nd.Observe(sa, sb)
	nd.Reach("printed")
	if sa == sb {
		nd.Reach("same")
		nd.Assert(equal(a, b), "different trees print the same")
	} else {
		nd.Reach("different")
		nd.Assert(!equal(a, b), "the same tree prints differently")
	}
}

// leaf is a leaf of the kind k.
func leaf(k int, text string) ast.Node {
	switch k {
	case 0:
		return &ast.Word{Text: text}
	case 1:
		return &ast.Literal{Text: text}
	case 2:
		return &ast.Symbol{Text: text}
	case 3:
		return &ast.Ident{Name: text}
	default:
		return &ast.Macro{Name: &ast.Ident{Name: text}}
	}
}

// holder is a node of the kind k with the children l.
func holder(k int, l ...ast.Node) ast.Node {
	switch k {
	case 0:
		return ast.List(l)
	case 1:
		return &ast.Arg{List: l}
	case 2:
		return &ast.OptArg{List: l}
	case 3:
		return &ast.MathExpr{Delim: "$", List: l}
	default:
		return &ast.Macro{Name: &ast.Ident{Name: "m"}, Args: l}
	}
}

// Forge prints two leaves side by side, then one leaf whose text is all that
// stands between the beginning of the first one's text and the end of the
// second one's: the two prints must differ still.
func Forge() {
	h := nd.Choose(5)
	k1, k2 := nd.Choose(5), nd.Choose(5)
	// what is printed between two texts.
	plain := printed(holder(h, leaf(k1, "qq"), leaf(k2, "zz")))
	i := strings.Index(plain, "qq")
	j := strings.LastIndex(plain, "zz")
	nd.Assert(i >= 0 && j > i, "a text is not shown, or not in order")
	between := plain[i+2 : j]
	// characters that quoting has to care about stand at its ends.
	a, b := string([]byte{nd.Byte(0, 127)}), string([]byte{nd.Byte(0, 127)})
	two := printed(holder(h, leaf(k1, a), leaf(k2, b)))
	one := printed(holder(h, leaf(k1, a+between+b)))
	nd.Observe(two, one)
	nd.Reach("printed")
	nd.Assert(two != one, "different trees print the same: a text shows as nodes")
	// and within one leaf, a text and its own quoted form.
	shown := printed(leaf(k1, a))
	i = strings.Index(printed(leaf(k1, "qq")), "qq")
	n := len(printed(leaf(k1, "qq"))) - 2
	quoted := shown[i : len(shown)-(n-i)]
	nd.Assert(quoted == a || printed(leaf(k1, quoted)) != shown, "different texts print the same: a text shows as another one's quoted form")
}
