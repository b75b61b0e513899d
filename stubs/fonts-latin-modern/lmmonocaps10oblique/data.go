// Package lmmonocaps10oblique stands in for the font of that name.
package lmmonocaps10oblique

// TTF is the name of the font.
var TTF = []byte("lmmonocaps10oblique")
