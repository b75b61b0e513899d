// Package lmroman12regular stands in for the font of that name.
package lmroman12regular

// TTF is the name of the font.
var TTF = []byte("lmroman12regular")
