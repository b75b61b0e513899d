// Package lmmonoltcond10oblique stands in for the font of that name.
package lmmonoltcond10oblique

// TTF is the name of the font.
var TTF = []byte("lmmonoltcond10oblique")
