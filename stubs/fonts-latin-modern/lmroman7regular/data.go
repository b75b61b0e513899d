// Package lmroman7regular stands in for the font of that name.
package lmroman7regular

// TTF is the name of the font.
var TTF = []byte("lmroman7regular")
