// Package lmromanslant17regular stands in for the font of that name.
package lmromanslant17regular

// TTF is the name of the font.
var TTF = []byte("lmromanslant17regular")
