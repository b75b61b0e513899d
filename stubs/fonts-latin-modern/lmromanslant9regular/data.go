// Package lmromanslant9regular stands in for the font of that name.
package lmromanslant9regular

// TTF is the name of the font.
var TTF = []byte("lmromanslant9regular")
