// Package lmromanslant10bold stands in for the font of that name.
package lmromanslant10bold

// TTF is the name of the font.
var TTF = []byte("lmromanslant10bold")
