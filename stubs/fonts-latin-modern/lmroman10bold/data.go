// Package lmroman10bold stands in for the font of that name.
package lmroman10bold

// TTF is the name of the font.
var TTF = []byte("lmroman10bold")
