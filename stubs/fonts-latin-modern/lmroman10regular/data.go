// Package lmroman10regular stands in for the font of that name.
package lmroman10regular

// TTF is the name of the font.
var TTF = []byte("lmroman10regular")
