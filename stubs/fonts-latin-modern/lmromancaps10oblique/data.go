// Package lmromancaps10oblique stands in for the font of that name.
package lmromancaps10oblique

// TTF is the name of the font.
var TTF = []byte("lmromancaps10oblique")
