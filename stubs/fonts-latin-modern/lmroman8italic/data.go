// Package lmroman8italic stands in for the font of that name.
package lmroman8italic

// TTF is the name of the font.
var TTF = []byte("lmroman8italic")
