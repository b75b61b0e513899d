// Package lmromanslant10regular stands in for the font of that name.
package lmromanslant10regular

// TTF is the name of the font.
var TTF = []byte("lmromanslant10regular")
