// Package lmmonolt10bold stands in for the font of that name.
package lmmonolt10bold

// TTF is the name of the font.
var TTF = []byte("lmmonolt10bold")
