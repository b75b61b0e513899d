// Package lmroman9bold stands in for the font of that name.
package lmroman9bold

// TTF is the name of the font.
var TTF = []byte("lmroman9bold")
