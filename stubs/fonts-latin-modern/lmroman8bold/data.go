// Package lmroman8bold stands in for the font of that name.
package lmroman8bold

// TTF is the name of the font.
var TTF = []byte("lmroman8bold")
