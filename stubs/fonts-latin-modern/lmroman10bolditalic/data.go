// Package lmroman10bolditalic stands in for the font of that name.
package lmroman10bolditalic

// TTF is the name of the font.
var TTF = []byte("lmroman10bolditalic")
