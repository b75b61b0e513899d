// Package lmroman17regular stands in for the font of that name.
package lmroman17regular

// TTF is the name of the font.
var TTF = []byte("lmroman17regular")
