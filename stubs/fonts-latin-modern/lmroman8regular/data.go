// Package lmroman8regular stands in for the font of that name.
package lmroman8regular

// TTF is the name of the font.
var TTF = []byte("lmroman8regular")
