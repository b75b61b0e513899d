// Package lmromandunh10oblique stands in for the font of that name.
package lmromandunh10oblique

// TTF is the name of the font.
var TTF = []byte("lmromandunh10oblique")
