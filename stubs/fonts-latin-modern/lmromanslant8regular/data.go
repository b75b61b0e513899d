// Package lmromanslant8regular stands in for the font of that name.
package lmromanslant8regular

// TTF is the name of the font.
var TTF = []byte("lmromanslant8regular")
