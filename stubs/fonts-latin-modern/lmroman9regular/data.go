// Package lmroman9regular stands in for the font of that name.
package lmroman9regular

// TTF is the name of the font.
var TTF = []byte("lmroman9regular")
