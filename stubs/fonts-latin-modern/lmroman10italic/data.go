// Package lmroman10italic stands in for the font of that name.
package lmroman10italic

// TTF is the name of the font.
var TTF = []byte("lmroman10italic")
