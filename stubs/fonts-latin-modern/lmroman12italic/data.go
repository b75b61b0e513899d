// Package lmroman12italic stands in for the font of that name.
package lmroman12italic

// TTF is the name of the font.
var TTF = []byte("lmroman12italic")
