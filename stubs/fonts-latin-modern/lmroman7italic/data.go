// Package lmroman7italic stands in for the font of that name.
package lmroman7italic

// TTF is the name of the font.
var TTF = []byte("lmroman7italic")
