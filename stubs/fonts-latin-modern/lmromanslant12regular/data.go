// Package lmromanslant12regular stands in for the font of that name.
package lmromanslant12regular

// TTF is the name of the font.
var TTF = []byte("lmromanslant12regular")
