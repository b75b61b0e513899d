// Package lmromandemi10oblique stands in for the font of that name.
package lmromandemi10oblique

// TTF is the name of the font.
var TTF = []byte("lmromandemi10oblique")
