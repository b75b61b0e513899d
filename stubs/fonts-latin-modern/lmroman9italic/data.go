// Package lmroman9italic stands in for the font of that name.
package lmroman9italic

// TTF is the name of the font.
var TTF = []byte("lmroman9italic")
