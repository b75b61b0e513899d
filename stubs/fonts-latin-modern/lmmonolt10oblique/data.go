// Package lmmonolt10oblique stands in for the font of that name.
package lmmonolt10oblique

// TTF is the name of the font.
var TTF = []byte("lmmonolt10oblique")
