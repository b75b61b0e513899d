// Package lmroman6regular stands in for the font of that name.
package lmroman6regular

// TTF is the name of the font.
var TTF = []byte("lmroman6regular")
