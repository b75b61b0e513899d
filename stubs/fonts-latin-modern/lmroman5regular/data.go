// Package lmroman5regular stands in for the font of that name.
package lmroman5regular

// TTF is the name of the font.
var TTF = []byte("lmroman5regular")
