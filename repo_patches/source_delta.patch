From ba787385665c86fbb42b0a1bf4940d32ffd464db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 01/27] fix: latex: end a comment at the end of its line,
 whatever its text

---
 scanner.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..39d3fae 100644
--- a/scanner.go
+++ b/scanner.go
@@ -174,21 +174,18 @@ func (s *texScanner) scanMacro() token.Token {
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-	wsp := s.sc.Whitespace
-	defer func() {
-		s.sc.Whitespace = wsp
-	}()
-	s.sc.Whitespace = 0
 
+	// read the raw runes: a comment isn't made of tokens (and a string
+	// token would run past the end of the line.)
 	for {
-		s.next()
-		if s.r == '\r' {
+		r := s.sc.Next()
+		if r == '\r' {
 			continue
 		}
-		if s.r == '\n' || s.r == scanner.EOF {
+		if r == '\n' || r == scanner.EOF {
 			break
 		}
-		comment.WriteString(s.sc.TokenText())
+		comment.WriteRune(r)
 	}
 	return comment.String()
 }
-- 
2.43.0


From 7c0587a0120dd3bc9f99d9d90a6ffc7e46b03d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 02/27] fix: latex: return an error instead of panicking on
 malformed input

---
 parser.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7cee11f..5fddecf 100644
--- a/parser.go
+++ b/parser.go
@@ -41,7 +41,21 @@ func newParser(x string) *parser {
 	return p
 }
 
-func (p *parser) parse() (ast.Node, error) {
+func (p *parser) parse() (node ast.Node, err error) {
+	defer func() {
+		e := recover()
+		if e == nil {
+			return
+		}
+		node = nil
+		switch e := e.(type) {
+		case error:
+			err = fmt.Errorf("latex: could not parse expression: %w", e)
+		default:
+			err = fmt.Errorf("latex: could not parse expression: %v", e)
+		}
+	}()
+
 	var nodes ast.List
 	for p.s.Next() {
 		tok := p.s.Token()
@@ -165,7 +179,7 @@ loop:
 func (p *parser) parseMacro(tok token.Token) ast.Node {
 	name := tok.Text
 	macro, ok := p.macros[name]
-	if !ok {
+	if !ok || macro == nil {
 		panic("unknown macro " + name)
 		//return nil
 	}
-- 
2.43.0


From e892c43c55edd8396d68bcea0759bed57ae99030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 03/27] fix: latex: reject expressions with an unclosed
 delimiter

---
 parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser.go b/parser.go
index 5fddecf..675cfb9 100644
--- a/parser.go
+++ b/parser.go
@@ -83,6 +83,14 @@ func (p *parser) expect(v rune) {
 	}
 }
 
+// closed panics if the input ended before the closing delimiter
+// of the construct that started at pos.
+func (p *parser) closed(what string, pos token.Pos) {
+	if p.s.tok.Kind == token.EOF {
+		panic(fmt.Errorf("unterminated %s at offset %d", what, pos))
+	}
+}
+
 func (p *parser) parseNode(tok token.Token) ast.Node {
 	switch tok.Kind {
 	case token.Comment:
@@ -172,6 +180,7 @@ loop:
 			math.List = append(math.List, node)
 		}
 	}
+	p.closed("math expression", math.Left)
 
 	return math
 }
@@ -219,6 +228,7 @@ loop:
 			arg.List = append(arg.List, node)
 		}
 	}
+	p.closed("macro argument", arg.Lbrace)
 	macro.Args = append(macro.Args, &arg)
 }
 
@@ -247,6 +257,7 @@ loop:
 			opt.List = append(opt.List, node)
 		}
 	}
+	p.closed("optional macro argument", opt.Lbrack)
 	macro.Args = append(macro.Args, &opt)
 }
 
@@ -275,6 +286,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.closed("superscript", hat.HatPos)
 		hat.Node = list
 	default:
 		hat.Node = p.parseNode(p.next())
@@ -305,6 +317,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.closed("subscript", sub.UnderPos)
 		sub.Node = list
 	default:
 		sub.Node = p.parseNode(p.next())
@@ -347,5 +360,6 @@ loop:
 			lst = append(lst, node)
 		}
 	}
+	p.closed("group", tok.Pos)
 	return lst
 }
-- 
2.43.0


From fcb1b319c3149d47ea0a7db55db065737246906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 04/27] fix: ast: End is the position after the closing
 delimiter

---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..27df9c1 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return token.Pos(int(x.Right) + len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 4ca1bf299fc1bd05b580ee4ac8711b4c8a404b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 05/27] fix: ast: do not walk absent children

---
 ast/walk.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..7fdd86e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -25,9 +25,7 @@ func Walk(v Visitor, node Node) {
 
 	switch n := node.(type) {
 	case List:
-		for _, x := range n {
-			Walk(v, x)
-		}
+		walkNodes(v, n)
 
 	case *Macro:
 		if n.Name != nil {
@@ -51,10 +49,14 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	case *Sup:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
@@ -65,7 +67,9 @@ func Walk(v Visitor, node Node) {
 
 func walkNodes(v Visitor, nodes []Node) {
 	for _, x := range nodes {
-		Walk(v, x)
+		if x != nil {
+			Walk(v, x)
+		}
 	}
 }
 
-- 
2.43.0


From 2d2061c8ad6db5cc29c2025f07134e35f1d81367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 06/27] fix: latex: skip blanks and comments before script
 operands and macro arguments

---
 parser.go  |  4 ++++
 scanner.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/parser.go b/parser.go
index 675cfb9..3660303 100644
--- a/parser.go
+++ b/parser.go
@@ -211,6 +211,7 @@ func (p *parser) parseNumber(tok token.Token) ast.Node {
 
 func (p *parser) parseMacroArg(macro *ast.Macro) {
 	var arg ast.Arg
+	p.s.skipBlanks()
 	p.expect('{')
 	arg.Lbrace = p.s.tok.Pos
 
@@ -233,6 +234,7 @@ loop:
 }
 
 func (p *parser) parseOptMacroArg(macro *ast.Macro) {
+	p.s.skipBlanks()
 	nxt := p.s.sc.Peek()
 	if nxt != '[' {
 		return
@@ -269,6 +271,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		HatPos: tok.Pos,
 	}
 
+	p.s.skipBlanks()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
@@ -300,6 +303,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		UnderPos: tok.Pos,
 	}
 
+	p.s.skipBlanks()
 	switch next := p.s.sc.Peek(); next {
 	case '{':
 		p.expect('{')
diff --git a/scanner.go b/scanner.go
index 39d3fae..aed4941 100644
--- a/scanner.go
+++ b/scanner.go
@@ -190,6 +190,22 @@ func (s *texScanner) scanComment() string {
 	return comment.String()
 }
 
+// skipBlanks skips the blanks and comments before a macro argument or
+// the operand of a script.
+func (s *texScanner) skipBlanks() {
+	for {
+		switch s.sc.Peek() {
+		case ' ', '\t', '\n', '\r':
+			s.sc.Next()
+		case '%':
+			s.sc.Next()
+			s.scanComment()
+		default:
+			return
+		}
+	}
+}
+
 // func (s *texScanner) expect(want rune) {
 // 	s.next()
 // 	if s.r != want {
-- 
2.43.0


From 792f15aeee3df6facbb204bec3573628e358c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 07/27] fix: latex: scan control sequences character-wise, so
 control spaces are kept

---
 scanner.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/scanner.go b/scanner.go
index aed4941..a628c8f 100644
--- a/scanner.go
+++ b/scanner.go
@@ -59,18 +59,7 @@ func (s *texScanner) scan() token.Token {
 			Text: s.sc.TokenText(),
 		}
 	case '\\':
-		nxt := s.sc.Peek()
-		switch nxt {
-		case ' ':
-			s.next()
-			return token.Token{
-				Kind: token.Space,
-				Pos:  pos,
-				Text: `\ `,
-			}
-		default:
-			return s.scanMacro()
-		}
+		return s.scanMacro()
 	case ' ':
 		return token.Token{
 			Kind: token.Space,
@@ -161,8 +150,23 @@ func (s *texScanner) scanMacro() token.Token {
 		macro = new(strings.Builder)
 		pos   = s.pos()
 	)
-	s.next()
-	macro.WriteString(`\` + s.sc.TokenText())
+	// a control sequence is made of a backslash and either letters or
+	// exactly one other character.
+	macro.WriteByte('\\')
+	switch r := s.sc.Next(); {
+	case r == scanner.EOF:
+		// no name.
+	case unicode.IsLetter(r):
+		macro.WriteRune(r)
+		for unicode.IsLetter(s.sc.Peek()) {
+			macro.WriteRune(s.sc.Next())
+		}
+	case r == '\t' || r == '\n' || r == '\r':
+		// control space.
+		macro.WriteByte(' ')
+	default:
+		macro.WriteRune(r)
+	}
 
 	return token.Token{
 		Kind: token.Macro,
-- 
2.43.0


From 1f286c62d7c437011f1d32c9dcb6b02524b4d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 08/27] fix: mtex: do not drop the contents of groups in math
 expressions

---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..cf965f9 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -103,7 +103,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From ed46ba4dc94cddb1105883616f634a1c52ac568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 09/27] fix: mtex: do not drop the argument of functions

---
 mtex/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index cf965f9..8fa42ec 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -287,13 +287,21 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
+	argState := state
 	state.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
 	nodes := make([]tex.Node, 0, len(fun))
 	for _, c := range fun {
 		nodes = append(nodes, tex.NewChar(string(c), state, math))
 	}
-	return tex.HListOf(nodes, true)
+	if len(macro.Args) == 0 {
+		return tex.HListOf(nodes, true)
+	}
+	elems := []tex.Node{tex.HListOf(nodes, true)}
+	for _, arg := range macro.Args {
+		elems = append(elems, p.handleNode(arg.(*ast.Arg).List, argState, math))
+	}
+	return tex.HListOf(elems, true)
 }
 
 func handleFrac(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
-- 
2.43.0


From b91e755441210e358be4e6d97656e3badceabc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 10/27] fix: mtex: look for the digits around a dot at the dot
 itself

---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 8fa42ec..f9dd466 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -91,8 +92,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -223,7 +224,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From b4c9ef68f751968d80849301affe27edb412fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 11/27] fix: mtex: do not space a binary operator that starts a
 math expression

---
 mtex/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index f9dd466..e210e0d 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/go-latex/latex"
 	"github.com/go-latex/latex/ast"
@@ -201,14 +202,15 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch {
 	case symbols.IsSpaced(sym):
 		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
-			return r != ' '
+			return !unicode.IsSpace(r)
 		})
 		prev := ""
 		if i >= 0 {
 			prev = string(p.expr[i])
 		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (len(strings.Split(p.expr[:pos], " ")) == 0 ||
+		case symbols.BinaryOperators.Has(sym) && (i < 0 ||
+			(prev == "$" && !(i > 0 && p.expr[i-1] == '\\')) ||
 			prev == "{" ||
 			symbols.LeftDelim.Has(prev)):
 			// binary operators at start of string should not be spaced
-- 
2.43.0


From 126b2c5723298a35ce9fa9635abc90d6ce990e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 12/27] fix: mtex: return an error instead of panicking on
 unsupported input

---
 mtex/parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index e210e0d..ca3523e 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -44,7 +44,21 @@ func newParser(be font.Backend) *parser {
 	return p
 }
 
-func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
+func (p *parser) parse(x string, size, dpi float64) (box tex.Node, err error) {
+	defer func() {
+		e := recover()
+		if e == nil {
+			return
+		}
+		box = nil
+		switch e := e.(type) {
+		case error:
+			err = fmt.Errorf("could not typeset latex expression %q: %w", x, e)
+		default:
+			err = fmt.Errorf("could not typeset latex expression %q: %v", x, e)
+		}
+	}()
+
 	p.expr = x
 	node, err := latex.ParseExpr(x)
 	if err != nil {
-- 
2.43.0


From f9ad98caaafb9b9c7f94dbccf3043189d849d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 13/27] fix: tex2unicode: accept non-ASCII characters in math
 mode

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..56caef2 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,7 +29,7 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
+	if utf8.RuneCountInString(v) == 1 {
 		r, _ := utf8.DecodeRune([]byte(v))
 		if r != utf8.RuneError {
 			return r
-- 
2.43.0


From 1f4d3b868d95ff40e38a4225d6b298710df8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 14/27] fix: tex2unicode: look up TeX symbols outside of math
 mode too

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 56caef2..e51f53e 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -13,7 +13,7 @@ import (
 
 // Index associates a LaTeX symbol or unicode letter to a unicode rune.
 func Index(v string, math bool) rune {
-	if !math {
+	if !math && !(len(v) > 1 && v[0] == '\\') {
 		r, _ := utf8.DecodeRune([]byte(v))
 		if r == utf8.RuneError {
 			panic(fmt.Errorf("tex: invalid rune %q", v))
-- 
2.43.0


From 4f4eab7bd43c0057d38e00ea4aa10fac92f8abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 15/27] fix: tex: stop shrinking after the documented number of
 size levels

---
 tex/box.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..5416b5b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -111,7 +111,7 @@ func newBox(w, h, d float64) *Box {
 func (*Box) Kerning(next Node) float64 { return 0 }
 
 func (box *Box) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
@@ -120,7 +120,7 @@ func (box *Box) Shrink() {
 }
 
 func (box *Box) Grow() {
-	box.size++
+	box.size--
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
@@ -231,7 +231,7 @@ func (c *Char) Kerning(next Node) float64 {
 }
 
 func (box *Char) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
 		box.width *= shrinkFactor
@@ -241,7 +241,7 @@ func (box *Char) Shrink() {
 }
 
 func (box *Char) Grow() {
-	box.size++
+	box.size--
 	box.font.Size *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
@@ -794,14 +794,14 @@ func newGlue(w, st float64, sto int, sh float64, sho int) *Glue {
 func (g *Glue) Kerning(next Node) float64 { return 0 }
 
 func (g *Glue) Shrink() {
-	g.size--
+	g.size++
 	if g.size < numSizeLevels {
 		g.width *= shrinkFactor
 	}
 }
 
 func (g *Glue) Grow() {
-	g.size++
+	g.size--
 	g.width *= growFactor
 }
 
@@ -872,14 +872,14 @@ func (k *Kern) String() string { return fmt.Sprintf("k%.02f", k.width) }
 func (k *Kern) Kerning(next Node) float64 { return 0 }
 
 func (k *Kern) Shrink() {
-	k.size--
+	k.size++
 	if k.size < numSizeLevels {
 		k.width *= shrinkFactor
 	}
 }
 
 func (k *Kern) Grow() {
-	k.size++
+	k.size--
 	k.width *= growFactor
 }
 
-- 
2.43.0


From 7b1c07d7fcdf30b284ada1ad957b8c487949ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 16/27] fix: tex: account for shifts in the width of vertical
 lists

---
 tex/box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index 5416b5b..c7c1e9b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -450,7 +450,7 @@ func (lst *List) vpackDims(width, height, depth *float64, stretch, shrink []floa
 	if math.IsInf(lst.box.width, 0) {
 		return
 	}
-	*width = math.Max(*width, lst.box.width)
+	*width = math.Max(*width, lst.box.width+lst.shift)
 }
 
 // HList is a horizontal list of boxes.
-- 
2.43.0


From cb734499e87a820802046c6e3ef030e22b0b9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 17/27] fix: tex: ship boxes and rules without depth in
 vertical lists

---
 tex/box.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index c7c1e9b..414ca6b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1151,8 +1151,8 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
-				ship.cur.v += ruleHeight
+			ship.cur.v += ruleHeight
+			if ruleHeight > 0 && ruleWidth > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From a0eadc669d463a4238a2f2fa0fc84d7eb14ae213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 18/27] fix: ast: position of lists that start or end with an
 empty group

---
 ast/ast.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 27df9c1..799fb98 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -26,17 +26,23 @@ type List []Node
 
 func (x List) isNode() {}
 func (x List) Pos() token.Pos {
-	if len(x) == 0 {
-		return -1
+	for _, n := range x {
+		// empty lists have no position.
+		if pos := n.Pos(); pos >= 0 {
+			return pos
+		}
 	}
-	return x[0].Pos()
+	return -1
 }
 
 func (x List) End() token.Pos {
-	if len(x) == 0 {
-		return -1
+	for i := len(x) - 1; i >= 0; i-- {
+		// empty lists have no position.
+		if end := x[i].End(); end >= 0 {
+			return end
+		}
 	}
-	return x[len(x)-1].End()
+	return -1
 }
 
 // Macro is a LaTeX macro.
-- 
2.43.0


From 5a543b3f49d84cdcf57eefde1e8017d8b31f46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 19/27] fix: tex: draw rules in horizontal lists from their
 height down to their depth

---
 tex/box.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index 414ca6b..ce84f74 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1059,8 +1059,9 @@ func (ship *Ship) hlistOut(box Tree) {
 			if math.IsInf(ruleDepth, 0) {
 				ruleDepth = box.Depth()
 			}
+			ruleHeight += ruleDepth
 			if ruleHeight > 0 && ruleWidth > 0 {
-				ship.cur.v = baseLine + ruleDepth
+				ship.cur.v = baseLine + ruleDepth - ruleHeight
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From c77d2f89abd307d18399c794f94fe3e8c2bb2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 20/27] fix: mtex: tell what opens a group from the tree, not
 from the source bytes

Comments, nested math and delimiters spelled as macros before a binary
operator misled the decision whether to space it.
---
 mtex/parser.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index ca3523e..84a430b 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -9,7 +9,6 @@ import (
 	"math"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/go-latex/latex"
 	"github.com/go-latex/latex/ast"
@@ -32,6 +31,7 @@ type parser struct {
 
 	expr   string
 	macros map[string]handler
+	opens  bool // whether the symbol being handled opens its group or delimiter.
 }
 
 func newParser(be font.Backend) *parser {
@@ -83,11 +83,21 @@ type visitor struct {
 	nodes []tex.Node
 	state tex.State
 	math  bool
+	opens bool // whether the next node opens its group or delimiter.
+}
+
+// handle appends the node n, spelled text, as typeset by h.
+func (v *visitor) handle(h handler, n ast.Node, text string) {
+	v.p.opens = v.opens
+	v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
+	v.opens = symbols.LeftDelim.Has(text)
 }
 
 func (v *visitor) Visit(n ast.Node) ast.Visitor {
 	switch n := n.(type) {
 	case ast.List:
+		v.opens = true
+		return v
 	case *ast.Symbol:
 		switch {
 		case v.math:
@@ -95,9 +105,12 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 			if h == nil {
 				panic("no handler for symbol [" + n.Text + "]")
 			}
-			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
+			v.handle(h, n, n.Text)
 		default:
 			v.nodes = append(v.nodes, tex.NewChar(string(n.Text), v.state, v.math))
+			if strings.TrimSpace(n.Text) != "" {
+				v.opens = symbols.LeftDelim.Has(n.Text)
+			}
 		}
 	case *ast.Word:
 		var nodes []tex.Node
@@ -105,25 +118,27 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))
 		}
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
+		v.opens = false
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
 		for i, c := range n.Text {
 			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
-			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
+			v.handle(h, n, n.Text)
 		}
 
 	case *ast.MathExpr:
 		oldm := v.math
 		oldt := v.state.Font.Type
 		v.math = true
+		v.opens = true
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
 			ast.Walk(v, x)
 		}
 		v.math = oldm
+		v.opens = false
 		v.state.Font.Type = oldt
-		return nil
 
 	case *ast.Macro:
 		if n.Name == nil {
@@ -134,16 +149,16 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		if h == nil {
 			panic(fmt.Errorf("unknown macro %q", macro))
 		}
-		v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
-		return nil
+		v.handle(h, n, macro)
 
 	case nil:
-		return v
+		// end of a group.
+		v.opens = false
 
 	default:
 		panic(fmt.Errorf("unknown ast node %T", n))
 	}
-	return v
+	return nil
 }
 
 func (p *parser) handleNode(node ast.Node, state tex.State, math bool) tex.Node {
@@ -215,18 +230,8 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	ch := tex.NewChar(sym, state, math)
 	switch {
 	case symbols.IsSpaced(sym):
-		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
-			return !unicode.IsSpace(r)
-		})
-		prev := ""
-		if i >= 0 {
-			prev = string(p.expr[i])
-		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (i < 0 ||
-			(prev == "$" && !(i > 0 && p.expr[i-1] == '\\')) ||
-			prev == "{" ||
-			symbols.LeftDelim.Has(prev)):
+		case symbols.BinaryOperators.Has(sym) && p.opens:
 			// binary operators at start of string should not be spaced
 			return ch
 		default:
-- 
2.43.0


From 9ba9436c009476cbc735b6c2056c3f6b32ac60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 21/27] fix: drawimg: report pages too large for an image
 instead of crashing

---
 drawtex/drawimg/drawimg.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..6f048eb 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -29,12 +29,20 @@ func NewRenderer(w io.Writer) *Renderer {
 	return &Renderer{w: w}
 }
 
+// maxPixels is the number of pixels of the largest image.
+const maxPixels = 1 << 28
+
 func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	var (
-		w   = width * dpi
-		h   = height * dpi
-		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
+		w = math.Ceil(width * dpi)
+		h = math.Ceil(height * dpi)
 	)
+	// each side on its own as well: the other one may be zero.
+	if !(math.Abs(w) <= maxPixels && math.Abs(h) <= maxPixels && math.Abs(w*h) <= maxPixels) {
+		return fmt.Errorf("could not create a %gx%g image: too large", w, h)
+	}
+
+	ctx := gg.NewContext(int(w), int(h))
 	// log.Printf("write: w=%g, h=%g", w, h)
 
 	if false {
-- 
2.43.0


From 30a11a27f04efacc942fc7bbdc1bf110dd34d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 22/27] fix: mtex: report fonts that fail while drawing instead
 of panicking

---
 mtex/render.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/mtex/render.go b/mtex/render.go
index d4bc351..47f7306 100644
--- a/mtex/render.go
+++ b/mtex/render.go
@@ -34,8 +34,10 @@ func Render(dst Renderer, expr string, size, dpi float64, fonts *ttf.Fonts) erro
 		return fmt.Errorf("could not parse math expression: %w", err)
 	}
 
-	var sh tex.Ship
-	sh.Call(0, 0, box.(tex.Tree))
+	err = ship(box.(tex.Tree))
+	if err != nil {
+		return fmt.Errorf("could not draw math expression: %w", err)
+	}
 
 	w := box.Width()
 	h := box.Height()
@@ -48,3 +50,24 @@ func Render(dst Renderer, expr string, size, dpi float64, fonts *ttf.Fonts) erro
 
 	return nil
 }
+
+// ship draws the box through the backend of its nodes.
+// ship reports the failures of the backend, a font that can not be read say.
+func ship(box tex.Tree) (err error) {
+	defer func() {
+		e := recover()
+		if e == nil {
+			return
+		}
+		switch e := e.(type) {
+		case error:
+			err = e
+		default:
+			err = fmt.Errorf("%v", e)
+		}
+	}()
+
+	var sh tex.Ship
+	sh.Call(0, 0, box)
+	return nil
+}
-- 
2.43.0


From 2415d917e92f2235867de4e1462c7cf71e102465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 23/27] fix: mtex: reject an argument of \hspace that is not
 one number

---
 mtex/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 84a430b..69dd126 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -298,7 +298,11 @@ func handleSpace(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 
 func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
-	arg := macro.Args[0].(*ast.Arg).List[0].(*ast.Literal).Text
+	list := macro.Args[0].(*ast.Arg).List
+	if len(list) != 1 {
+		panic(fmt.Errorf("could not parse customspace: expected 1 number, got %d nodes", len(list)))
+	}
+	arg := list[0].(*ast.Literal).Text
 	val, err := strconv.ParseFloat(arg, 64)
 	if err != nil {
 		panic(fmt.Errorf("could not parse customspace: %+v", err))
-- 
2.43.0


From cddedcbc83525590dcc08b2d0b128fb740cc8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 24/27] fix: ttf: no kerning between glyphs of different fonts

---
 font/ttf/ttf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..0c5e7b0 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,6 +251,10 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
+		if info1.font != info2.font {
+			// glyphs of another font: this font's table does not know them.
+			return 0
+		}
 		scale := fixed.Int26_6(info1.font.UnitsPerEm())
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
-- 
2.43.0


From 62b8a1f7bc25bc9bf7ef9ec4788e7c658100382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 25/27] fix: tex2unicode: drop only the leading backslash of a
 name

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index e51f53e..8d95750 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -36,7 +36,7 @@ func Index(v string, math bool) rune {
 		}
 	}
 
-	r, ok := tex2uni[strings.Replace(v, `\`, "", 1)]
+	r, ok := tex2uni[strings.TrimPrefix(v, `\`)]
 	if ok {
 		return r
 	}
-- 
2.43.0


From 183bf3bbeb2da46160850e68755e9bcad900911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 26/27] fix: tex2unicode: characters of \lnapprox, \gnapprox,
 \leftbrace and \|

---
 internal/tex2unicode/utf8.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 8d95750..eb592e6 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -87,8 +87,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
@@ -124,7 +124,7 @@ var (
 		`succnsim`:                 8937,
 		`gimel`:                    8503,
 		`vert`:                     124,
-		`|`:                        124,
+		`|`:                        0x2016,
 		`varrho`:                   1009,
 		`P`:                        182,
 		`approxident`:              8779,
@@ -607,7 +607,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From 67229962eb2984a012b9939b8d3aa5d7ec411d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 27/27] fix: tex: kerning of shrunk and grown characters uses
 their scaled advance

---
 tex/box.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index ce84f74..44ac3fd 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -237,6 +237,7 @@ func (box *Char) Shrink() {
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
 		box.depth *= shrinkFactor
+		box.metrics.Advance *= shrinkFactor
 	}
 }
 
@@ -246,6 +247,7 @@ func (box *Char) Grow() {
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
+	box.metrics.Advance *= growFactor
 }
 
 func (c *Char) Render(x, y float64) {
-- 
2.43.0

