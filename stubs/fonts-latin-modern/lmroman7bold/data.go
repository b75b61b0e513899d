// Package lmroman7bold stands in for the font of that name.
package lmroman7bold

// TTF is the name of the font.
var TTF = []byte("lmroman7bold")
