// Package lmroman5bold stands in for the font of that name.
package lmroman5bold

// TTF is the name of the font.
var TTF = []byte("lmroman5bold")
