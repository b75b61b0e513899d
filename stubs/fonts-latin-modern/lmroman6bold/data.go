// Package lmroman6bold stands in for the font of that name.
package lmroman6bold

// TTF is the name of the font.
var TTF = []byte("lmroman6bold")
