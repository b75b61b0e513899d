#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the statements are easy to edit and diff).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Parsing is total: a tree or an error, never a panic",
  "For every input string, parsing a LaTeX expression terminates and returns either a non-nil syntax tree and a nil error, or a nil tree and a non-nil error; it never panics. An expression whose math, group, argument or option is left unclosed, or that has a stray closing brace, is rejected with an error rather than silently accepted.",
  ["inputs"],"every input string (any bytes, any nesting)",
  "The tests parse some twenty well-formed strings; they never feed a malformed one, so no rejecting path is exercised at all.",
  ["parser.go","macros.go","scanner.go"],
  [("recover-to-error in ParseExpr","parser.go:parser.parse"),("closing-delimiter loops","parser.go:parseMathExpr, parseMacroArg, parseOptMacroArg, parseSup, parseSub, parseMathLbrace")],
  ["latex.ParseExpr"])
p("C02","Parsing loses and invents no source text",
  "In the tree of every accepted expression, each word, number, symbol and macro name carries exactly the source text found at its reported byte position, and these leaves appear in source order without overlapping. Whatever source text lies between them consists only of math, group, argument and option delimiters, script markers, white space and comments; in particular a comment ends at the end of its own line, whatever it contains.",
  ["inputs"],"every accepted input string",
  "Tests compare a handful of trees (mostly without positions); a dropped, duplicated or misplaced token on any other combination of neighbours goes unseen.",
  ["scanner.go","parser.go","macros.go"],
  [("token positions and texts","scanner.go:texScanner.scan, scanMacro, scanComment"),("node construction","parser.go:parseWord, parseNumber, parseSymbol; macros.go:builtinMacro.parseMacro")],
  ["latex.ParseExpr","ast nodes"])
p("C03","The tree has the structure the LaTeX source spells out",
  "The parser accepts exactly the expressions of its LaTeX subset and gives them the right shape: $...$ encloses a math expression, {...} inside math groups, each known macro takes its declared number of braced arguments and optional bracketed argument, and ^ and _ apply to exactly the next item or brace group even when blanks or a comment come first. Unknown macros and misplaced delimiters are rejected.",
  ["inputs"],"every input string over the accepted alphabet, any nesting of groups, scripts, macros and math",
  "Twenty literal strings sample the grammar; combinations such as a comment between a script marker and its operand, a bracket inside a braced argument, or an option followed by a group are not among them.",
  ["parser.go","macros.go","scanner.go"],
  [("recursive descent","parser.go:parser.parseNode"),("macro arity table","macros.go:addBuiltinMacros"),("mode tracking","parser.go:parser.state")],
  ["latex.ParseExpr"],
  [dict(name="parser.state",meaning="normal or math mode; restored on leaving a math expression",where="parser.go")])
p("C04","Node positions delimit the node's source text",
  "For every node of an accepted expression's tree, Pos is the offset of its first character; for words, numbers, symbols, macros, braced and bracketed arguments and math expressions, End is the offset just after its last character, so that the source between Pos and End is that node's own text, delimiters included. Every child's range lies within its parent's and siblings' ranges are ordered and disjoint.",
  ["inputs"],"every accepted input string, every node of its tree",
  "The tests call End only to see that it returns, and compare Pos for six literal inputs.",
  ["ast/ast.go","parser.go"],
  [("Pos/End methods","ast/ast.go"),("delimiter positions","parser.go:parseMathExpr, parseMacroArg, parseOptMacroArg")],
  ["ast.Node.Pos","ast.Node.End"])
p("C05","Comments and line layout do not change what is parsed",
  "Inserting a comment line, a newline, a tab or a carriage return between two tokens of an accepted expression yields the same tree up to positions, and so does removing one. A space is likewise insignificant inside math mode, except as part of a control space.",
  ["inputs"],"every accepted input, every place between two tokens, every comment text",
  "One scanner test logs the tokens of a comment without checking them; the parser tests contain no comment.",
  ["scanner.go","parser.go"],
  [("white-space skipping","scanner.go:newScanner"),("comment scanning","scanner.go:scanComment")],
  ["latex.ParseExpr"])
p("C06","Walking a tree visits each node exactly once, in order",
  "Walk and Inspect call the visitor exactly once for every non-nil node, parents before children and children in source order, close every node whose children were visited with exactly one nil call made on the visitor that node's visit returned, and skip the children (and the closing call) when the visit declines. They never panic on a tree of the documented node types, including one with absent children.",
  ["inputs","programs"],"every tree of the node types, every visitor decision",
  "Five literal trees with an always-accepting visitor: no pruning, no visitor change, no absent child, no deep mix.",
  ["ast/walk.go"],
  [("Walk","ast/walk.go"),("Inspect","ast/walk.go")],
  ["ast.Walk","ast.Inspect"])
p("C07","Printing shows the whole tree and distinguishes trees",
  "Printing any tree of the documented node types writes a rendering that contains every node's kind and quoted text in order with its nesting, separates siblings, marks absent children as <nil> and never panics; trees that differ in shape or text (positions and the math delimiter apart) print differently.",
  ["inputs"],"every tree of the node types, every leaf text",
  "Twelve literal trees are printed; the empty and mixed argument lists, absent children and nested groups are not.",
  ["ast/ast.go"],[("Print","ast/ast.go:Print")],["ast.Print"])
p("C08","Horizontal packing encloses its contents",
  "Packing a horizontal list gives it the width asked for (exactly, or its contents' natural width plus the extra), where the natural width is the sum of its children's widths, and a height and depth that are the largest of zero and its children's, children that are boxes counted after their vertical shift and running (infinite) boxes not at all. This holds after any sequence of repackings.",
  ["inputs","histories"],"every list of boxes, characters, accents, rules, kerns, glue and nested lists, with arbitrary dimensions and shifts, and every sequence of packings",
  "About forty literal lists of positive round dimensions, packed once at natural size; no negative dimension, no shift, no exact packing, no repacking.",
  ["tex/box.go"],[("HPack","tex/box.go:HList.HPack"),("hpackDims","tex/box.go")],["tex.HListOf","HList.HPack","Width/Height/Depth"])
p("C09","Vertical packing stacks its contents",
  "Packing a vertical list gives it the height asked for (exactly, or its natural height plus the extra), where the natural height is the sum of its children's heights and of the depths of all but the last one that sits against the bottom, plus any part of that last depth beyond the given limit; its depth is that last depth, capped by the limit, and its width is the largest of zero and its children's finite widths counted from their shift. This holds after any sequence of repackings.",
  ["inputs","histories"],"every list of boxes, rules, kerns, glue and nested lists, with arbitrary dimensions and shifts, any depth limit, every sequence of packings",
  "A few literal lists at natural size with an infinite depth limit; no finite limit, no exact packing, no shift.",
  ["tex/box.go"],[("VPack","tex/box.go:VList.VPack"),("vpackDims","tex/box.go")],["tex.VListOf","VList.VPack","Width/Height/Depth"])
p("C10","Glue takes up exactly the slack",
  "When a list is packed to a size other than its natural one, it stretches (or shrinks) only if it has stretchable (shrinkable) glue, it uses only the highest order of infinity present in the needed direction, and its glue setting times the total glue of that order equals the difference; otherwise its glue is left unset. A list packed to its natural size sets no glue, whatever it was packed to before.",
  ["inputs","histories"],"every mix of glue kinds, every target size, every sequence of packings",
  "Tests build glue but never look at the glue sign, order or setting.",
  ["tex/box.go"],[("setGlue","tex/box.go:List.setGlue"),("determineOrder","tex/box.go")],["Tree.GlueSign","Tree.GlueOrder","Tree.GlueSet"])
p("C11","Shipping draws every glyph and rule once, where packing put it",
  "Shipping a box draws each character and accent of the tree exactly once, in order, at the sum of what precedes it on its line and on the baseline of its box displaced by the shifts and heights of the boxes that contain it, and draws each non-empty rule once with its own size, running dimensions replaced by those of the enclosing box. What follows a box continues from its far edge on the unchanged baseline, and moving the origin moves every drawing by the same amount; shipping the same tree again draws the same.",
  ["inputs","histories"],"every tree of nested horizontal and vertical lists with arbitrary dimensions, shifts and glue",
  "The only test inspects three final cursor coordinates on five literal trees; no drawing call's coordinates are looked at except through four rendered images.",
  ["tex/box.go"],[("Ship.Call","tex/box.go:Ship.Call"),("hlistOut","tex/box.go"),("vlistOut","tex/box.go")],["tex.Ship.Call","font.Backend.RenderGlyph","font.Backend.RenderRectFilled"],
  [dict(name="Ship.cur",meaning="pen position relative to the origin",where="tex/box.go")])
p("C12","Shrinking and growing scale a whole subtree together",
  "Shrinking (growing) any node multiplies its width, height, depth, shift and font size by the same factor as every node below it, each exactly once, so that the box still encloses its contents; growth undoes a shrink up to rounding, and after the documented number of size levels further shrinking changes nothing.",
  ["inputs","histories"],"every node kind and tree, every sequence of shrinks and grows",
  "Only fractions and roots in a few golden expressions shrink anything, at most two levels; growing is never tested.",
  ["tex/box.go"],[("Shrink/Grow","tex/box.go: Box, Char, Accent, List, Glue, Kern, Rule")],["tex.Node.Shrink","tex.Node.Grow"],
  [dict(name="size",meaning="number of size levels below the original",where="tex/box.go")])
p("C13","Building lists kerns between neighbours and never alters its input",
  "Building a kerned horizontal list keeps every element in order and puts after each one a kern of exactly the amount that element asks for given its successor (none when it is zero; for a character, its advance beyond its width plus the font's kerning with a character or accent that follows, in the size it was shrunk or grown to), while an unkerned list holds exactly the elements; centred lists put stretch-and-shrink glue on both sides. No list constructor changes the slice it was given, and later changes to that slice do not show in the list.",
  ["inputs","histories"],"every sequence of nodes and kerning answers of the font",
  "Only the total width of two literal kerned lists is checked.",
  ["tex/box.go"],[("kern","tex/box.go:HList.kern"),("ListOf","tex/box.go"),("HCentered/VCentered","tex/box.go")],["tex.HListOf","tex.ListOf","tex.VListOf","tex.HCentered","tex.VCentered","Tree.Nodes"])
p("C14","Typesetting shows every symbol once, in the right style",
  "Typesetting and shipping an accepted expression of the supported subset draws each letter, digit, operator and symbol macro of the source exactly once in reading order, including those inside groups and macro arguments: inside math with the italic math font, function names upright, outside math with the upright text font. The style in force after a math expression or macro is the one in force before it.",
  ["inputs"],"every expression of words, numbers, operators, symbol macros, function names, groups, fractions, roots, binomials, overlines and math switches",
  "Twenty-four literal expressions are checked for total width, height and depth only; a lost or restyled glyph shows only if it changes one of those numbers.",
  ["mtex/parser.go","mtex/macros.go","mtex/symbols/set.go"],
  [("visitor","mtex/parser.go:visitor.Visit"),("handler dispatch","mtex/parser.go:parser.handler")],["mtex.Parse","tex.Ship.Call","font.Backend.RenderGlyph"],
  [dict(name="visitor.math / visitor.state.Font.Type",meaning="current style, saved and restored around math",where="mtex/parser.go")])
p("C15","Operators, punctuation and explicit spaces get their TeX spacing",
  "In math, relations, arrows and binary operators have a fifth of the font's em of space on both sides, except a binary operator that opens the math, a brace group or an argument, or follows a left delimiter, which has none; a full stop is followed by a fifth of an em unless it is a decimal separator between two digits, which has no space in math or outside; each explicit space macro, in math or outside, is exactly its documented fraction of that em (the math font's). This does not depend on what else the expression contains.",
  ["inputs"],"every operator, punctuation mark and space macro in every context",
  "Five literal expressions contain such a symbol, each in one context; a context that changes the spacing elsewhere in the expression is never tried.",
  ["mtex/parser.go","mtex/symbols/symbols_gen.go"],
  [("handleSymbol","mtex/parser.go"),("handleSpace","mtex/parser.go"),("handleCustomSpace","mtex/parser.go")],["mtex.Parse","tex.Ship.Call"])
p("C16","Fractions, roots, binomials and overlines are laid out soundly",
  "A fraction is as wide as the wider of its two (text-style shrunk, display-style full-size) parts plus its trailing space, draws its numerator above and its denominator below one bar of full width and line thickness, both centred, with the bar's position fixed by the font alone; a binomial has the same stacking without bar between two parentheses sized to the stack. A root or overline draws one bar over its whole body, the body on the surrounding baseline, and a root index twice shrunk before the sign.",
  ["inputs"],"every font metrics and every pair of contents",
  "Eight literal expressions in one fixed font are compared for total width, height and depth.",
  ["mtex/parser.go","tex/box.go"],
  [("genfrac","mtex/parser.go"),("handleSqrt","mtex/parser.go"),("handleOverline","mtex/parser.go"),("autoSizedDelimiter","mtex/parser.go"),("AutoHeightChar","tex/box.go")],["mtex.Parse","tex.Ship.Call"])
p("C17","Typesetting and rendering report failure as an error",
  "For every input string, typesetting and rendering return either a result or a non-nil error and never panic, whether the expression is malformed, uses a construct that is not supported, or names a symbol the font has no mapping for. When the expression cannot be typeset, nothing is handed to the output renderer, and an error from the output renderer is reported to the caller.",
  ["inputs","fault_sequences"],"every input string, every renderer failure",
  "No test passes a malformed or unsupported expression, and no test renderer ever fails.",
  ["mtex/parser.go","mtex/render.go"],
  [("error reporting","mtex/parser.go:parser.parse; mtex/render.go:Render")],["mtex.Parse","mtex.Render"])
p("C18","Rendering hands the renderer the whole page it needs",
  "Rendering passes the output renderer, exactly once, every drawing of the typeset expression in order at the positions its layout assigns, a page whose width and height in inches are the layout's width and its height plus positive depth (in points, height rounded up to a whole point) divided by 72, and the caller's resolution unchanged. Layout itself does not depend on the requested resolution, and the image renderer maps every drawing to pixels by the factor resolution/72 on an image of the page size in pixels rounded up.",
  ["inputs","configurations"],"every expression, font size, resolution and font",
  "Four expressions are rendered with a renderer that ignores the page size; sixteen golden images fix one size and one resolution.",
  ["mtex/render.go","drawtex/canvas.go","drawtex/drawimg/drawimg.go"],
  [("Render","mtex/render.go"),("Canvas log","drawtex/canvas.go"),("pixel mapping","drawtex/drawimg/drawimg.go")],["mtex.Render","drawtex.Canvas.Ops","drawimg.Renderer.Render"])
p("C19","Font metrics are consistent and depend only on the request",
  "The TrueType backend's metrics for a symbol depend only on the symbol, font, resolution and mode asked for, not on earlier requests; they satisfy width = xmax - xmin, height = ymax - ymin and top = ymax, scale in proportion to the font size (as does the thickness of lines, to size and resolution), take letters (of the basic multilingual plane) of an italic request from the italic font and every other character of that plane from the upright one, and mark as slanted exactly italic glyphs and integral signs. Advances, bounds, kerning and x-height are the font's own values scaled to the size and resolution. Kerning between different fonts or sizes, or absent from the font, is zero.",
  ["inputs","histories","configurations"],"every symbol, font, size, resolution, mode and sequence of requests, for any font's glyph data",
  "Six ASCII letters at one size in one style are compared with stored metrics, each on first request; no repeated or interleaved request, no other size, no kerning.",
  ["font/ttf/ttf.go","internal/tex2unicode/utf8.go"],
  [("glyph cache","font/ttf/ttf.go:Backend.getInfo"),("font selection","font/ttf/ttf.go:Backend.getGlyph"),("Kern","font/ttf/ttf.go")],["ttf.Backend.Metrics","ttf.Backend.Kern","ttf.Backend.RenderGlyph"],
  [dict(name="Backend.glyphs",meaning="cache of glyph data per request",where="font/ttf/ttf.go")])
p("C20","Every known symbol name maps to its character",
  "Looking up a symbol in math mode gives, for a single character, that character itself (the minus sign for a hyphen) and, for a known name (with its backslash or without), the character of that name; in text mode it gives the string's first character, a known name with its backslash standing for the same character in both modes. The name list, the membership test and the lookup agree on which names are known, and anything else (the empty string and the replacement character U+FFFD included) is refused.",
  ["inputs"],"every string and both modes",
  "Forty literal symbols are looked up; agreement of the list, membership and lookup over all names, and non-ASCII characters in math, are not tested.",
  ["internal/tex2unicode/utf8.go"],[("Index","internal/tex2unicode/utf8.go"),("HasSymbol/Symbols","internal/tex2unicode/utf8.go")],["tex2unicode.Index","tex2unicode.HasSymbol","tex2unicode.Symbols"])
p("C21","Symbol sets behave as sets and classify consistently",
  "A set built from any strings contains exactly those strings, lists them once each in increasing order, and a union contains exactly the members of its parts without changing them. A symbol is spaced exactly when it is a binary operator, a relation or an arrow.",
  ["inputs","histories"],"every list of strings, every symbol",
  "Nine literal symbols are classified; sets and unions are not tested directly.",
  ["mtex/symbols/set.go","mtex/symbols/symbols.go"],[("Set, UnionOf","mtex/symbols/set.go"),("IsSpaced","mtex/symbols/symbols.go")],["symbols.NewSet","symbols.UnionOf","symbols.Set.Has","symbols.Set.Keys","symbols.IsSpaced"])
p("C22","Separate calls do not influence each other",
  "Parsing, typesetting or rendering an expression gives the same result whatever was parsed, typeset or rendered before (successfully or not), and calls on separate inputs and backends may run concurrently: none of them writes memory that another one can reach without synchronisation.",
  ["histories","schedules","inputs"],"every pair of calls, in sequence or concurrently",
  "Each test makes one call per case with its own backend; the race detector sees no concurrent call.",
  ["parser.go","macros.go","mtex/parser.go","mtex/macros.go","mtex/render.go","font/ttf/ttf.go"],
  [("per-call parser","parser.go:newParser; mtex/parser.go:newParser"),("read-only tables","mtex/macros.go:builtinMacros; internal/tex2unicode/utf8.go:tex2uni")],["latex.ParseExpr","mtex.Parse","mtex.Render"])
p("C23","The drawing log and token kinds are faithful",
  "A canvas lists exactly the glyphs and rectangles drawn on it, in order, with the values given. Every token kind has its own distinct name, the identifier it is declared with, any other value is named by its number, and naming never panics.",
  ["inputs","histories"],"every sequence of drawing calls, every kind value",
  "The name of one kind is tested; the canvas is only seen through renderings.",
  ["drawtex/canvas.go","token/kind_string.go","token/token.go"],[("Canvas","drawtex/canvas.go"),("Kind.String","token/kind_string.go")],["drawtex.Canvas.Ops","token.Kind.String"])
p("C24","A node draws what it measures",
  "A character node is as wide as its glyph's ink (a space as wide as its advance), as high as the ink's top and as deep as its bottom, and rendering draws that glyph once, in the state's font and resolution, with its origin at the given point; an accent reserves exactly the box of its ink, whose lower left corner rendering puts at the given point, also after being shrunk or grown. Rules, boxes and kerns have the dimensions asked for; a horizontal rule extends half its thickness (the font's line thickness when none is given) above and below. An auto-sized delimiter is scaled so that it spans the height and depth asked for, or by the factor given, and reaches down to that depth.",
  ["inputs","histories"],"every glyph's metrics, font, size and resolution, any requested dimension",
  "Box tests use one font's recorded metrics for a few characters and never render an accent or an auto-sized delimiter on its own.",
  ["tex/box.go"],
  [("Char, Accent","tex/box.go"),("Rule, HRule, VRule, HBox, VBox, Kern","tex/box.go"),("AutoHeightChar","tex/box.go")],["tex.NewChar","tex.NewAccent","tex.HRule","tex.VRule","tex.HBox","tex.VBox","tex.NewKern","tex.AutoHeightChar"])
p("C25","Each font set provides its own family's styles",
  "Each of the three sets of fonts (Go, which is used when none is given, Latin Modern and Liberation) provides the upright, italic, bold and bold italic fonts of one family, each under its own style and the upright one by default, the same at each call, also when first asked for concurrently. A backend made from a set draws a glyph in the set's font of the style requested.",
  ["configurations","inputs","schedules"],"every font set, style and symbol",
  "No test uses the Latin Modern or Liberation set's bold, italic or bold italic fonts, and none asks for a set concurrently.",
  ["font/lm/lm.go","font/liberation/liberation.go","font/ttf/ttf.go"],
  [("Fonts","font/lm/lm.go; font/liberation/liberation.go"),("New, NewFrom","font/ttf/ttf.go")],["lm.Fonts","liberation.Fonts","ttf.New","ttf.NewFrom"])
p("C26","A canvas written as PDF fills one page of the size asked for",
  "Writing a canvas as PDF gives one document, under the name given, with a single page of exactly the width and height asked for (in points, when both are positive, whichever is larger) that shows every glyph and rectangle of the canvas; the canvas is not changed, earlier writes do not show, and a document that could not be written is reported as an error, never as success.",
  ["inputs","faults","histories"],"every canvas, positive page size, file name and write failure",
  "The package has no tests.",
  ["drawtex/drawpdf/drawpdf.go"],[("Write","drawtex/drawpdf/drawpdf.go")],["drawpdf.Write"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
