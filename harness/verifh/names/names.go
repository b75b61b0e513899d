// Package names holds the harnesses on symbols' names and sets.
package names

import (
	"unicode/utf8"

	"github.com/go-latex/latex/internal/tex2unicode"
	nd "github.com/go-latex/latex/internal/verifnd"
	"github.com/go-latex/latex/mtex/symbols"
)

// Registry names the harnesses for native replay.
var Registry = map[string]func(){
	"Known":  Known,
	"Lookup": Lookup,
	"Near":   Near,
	"Sets":   Sets,
	"Spaced": Spaced,
}

// index is what a lookup gives, or that it is refused.
func index(v string, math bool) (r rune, ok bool) {
	defer func() {
		if recover() != nil {
			r, ok = 0, false
		}
	}()
	return tex2unicode.Index(v, math), true
}

// Known: every known name has its character.
func Known() {
	i := nd.Choose(len(known))
	k := known[i]
	math := nd.Choose(2) == 1
	nd.Observe(k.name, math)
	r, ok := index(`\`+k.name, math)
	nd.Assert(ok && r == k.char, "a name does not give its character")
	nd.Assert(tex2unicode.HasSymbol(k.name), "a name is not known")
	n := 0
	list := tex2unicode.Symbols()
	for _, s := range list {
		if s == k.name {
			n++
		}
	}
	nd.Assert(n == 1, "a name is not listed once")
	if i == 0 {
		for j, s := range list {
			nd.Assert(tex2unicode.HasSymbol(s), "a listed name is not known")
			r, ok := index(`\`+s, true)
			nd.Assert(ok && utf8.ValidRune(r) && r != 0, "a listed name has no character")
			q, ok := index(`\`+s, false)
			nd.Assert(ok && q == r, "a name depends on the mode")
			for _, t := range list[j+1:] {
				nd.Assert(s != t, "a name is listed twice")
			}
		}
		nd.Reach("listed")
	}
	nd.Reach("known")
}

// Lookup: arbitrary short strings.
func Lookup() {
	n := nd.Choose(nd.Param("n") + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte(0, 255)
	}
	judge(string(b), nd.Choose(2) == 1)
}

// Near: known names with one byte replaced, added or dropped.
func Near() {
	k := known[nd.Param("from")+nd.Choose(nd.Param("to")-nd.Param("from"))]
	v := `\` + k.name
	at := nd.Choose(len(v))
	c := string([]byte{nd.Byte(0, 127)})
	switch nd.Choose(3) {
	case 0:
		v = v[:at] + c + v[at+1:]
	case 1:
		v = v[:at] + c + v[at:]
	case 2:
		v = v[:at] + v[at+1:]
	}
	judge(v, true)
}

func judge(v string, math bool) {
	r, ok := index(v, math)
	nd.Observe(v, math, ok)
	if v == "" {
		nd.Assert(!ok, "nothing has a character")
		return
	}
	c, size := utf8.DecodeRuneInString(v)
	first := c != utf8.RuneError
	name := v
	if v[0] == '\\' && len(v) > 1 {
		name = v[1:]
	} else if !math {
		nd.Assert(ok == first, "text without a first character is accepted, or with one refused")
		nd.Assert(!ok || r == c, "text does not give its first character")
		nd.Reach("text")
		return
	}
	if v == "-" {
		nd.Assert(ok && r == 0x2212, "a hyphen is not a minus sign")
		nd.Reach("minus")
		return
	}
	if size == len(v) && first {
		nd.Assert(ok && r == c, "a character does not give itself")
		nd.Reach("char")
		return
	}
	has := tex2unicode.HasSymbol(name)
	nd.Assert(ok == has, "the lookup and the membership test do not agree")
	for _, k := range known {
		if len(k.name) == len(name) && k.name == name {
			nd.Assert(ok && r == k.char, "a name does not give its character")
			nd.Reach("name")
			return
		}
	}
	// further names may be added
	listed := false
	for _, s := range tex2unicode.Symbols() {
		if len(s) == len(name) && s == name {
			listed = true
		}
	}
	nd.Assert(listed == has, "the list and the membership test do not agree")
	nd.Reach("other")
}

func word() string {
	n := nd.Choose(nd.Param("len") + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte('a', 'z')
	}
	return string(b)
}

func in(x string, s []string) bool {
	r := false
	for _, y := range s {
		if len(x) == len(y) {
			r = nd.Or(r, x == y)
		}
	}
	return r
}

func same(s symbols.Set, list []string, probe string) {
	keys := s.Keys()
	for i := range keys {
		nd.Assert(in(keys[i], list), "a set lists what it was not built from")
		nd.Assert(i == 0 || keys[i-1] < keys[i], "the members are not in increasing order, once each")
	}
	for _, x := range list {
		nd.Assert(s.Has(x), "a set has lost a member")
		nd.Assert(in(x, keys), "a set does not list a member")
	}
	nd.Assert(s.Has(probe) == in(probe, list), "a set has members it was not built from, or not those")
}

// Sets: sets and unions have exactly the members they were built from.
func Sets() {
	probe := word()
	var parts []symbols.Set
	var lists [][]string
	var all []string
	np := nd.Choose(nd.Param("parts") + 1)
	for i := 0; i < np; i++ {
		var l []string
		for j := nd.Choose(nd.Param("n") + 1); j > 0; j-- {
			l = append(l, word())
		}
		parts = append(parts, symbols.NewSet(l...))
		lists = append(lists, l)
		all = append(all, l...)
	}
	u := symbols.UnionOf(parts...)
	same(u, all, probe)
	for i, p := range parts {
		same(p, lists[i], probe)
	}
	nd.Assert(len(u.Keys()) == len(u), "a set does not list all members")
	// a union is a set of its own
	u["#"] = struct{}{}
	for i, p := range parts {
		nd.Assert(!p.Has("#"), "a union shares its members with its parts")
		p["%"] = struct{}{}
		nd.Assert(!u.Has("%"), "a union shares its members with its parts")
		_ = i
	}
	nd.Reach("sets")
}

// Spaced: a symbol is spaced exactly when it is a binary operator, a relation
// or an arrow.
func Spaced() {
	var s string
	if nd.Param("n") > 0 {
		b := make([]byte, nd.Choose(nd.Param("n")+1))
		for i := range b {
			b[i] = nd.Byte(0, 127)
		}
		s = string(b)
	} else {
		var all []string
		for _, x := range []symbols.Set{symbols.BinaryOperators, symbols.RelationSymbols, symbols.ArrowSymbols, symbols.PunctuationSymbols, symbols.LeftDelim, symbols.RightDelim, symbols.FunctionNames} {
			all = append(all, x.Keys()...)
		}
		s = all[nd.Choose(len(all))]
	}
	nd.Observe(s)
	want := symbols.BinaryOperators.Has(s) || symbols.RelationSymbols.Has(s) || symbols.ArrowSymbols.Has(s)
	nd.Assert(symbols.IsSpaced(s) == want, "spaced although no operator, relation or arrow, or not although it is")
	nd.Assert(symbols.SpacedSymbols.Has(s) == want, "the set of spaced symbols is not that of operators, relations and arrows")
	nd.Reach("spaced")
}
