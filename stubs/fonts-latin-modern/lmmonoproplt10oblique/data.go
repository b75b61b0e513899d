// Package lmmonoproplt10oblique stands in for the font of that name.
package lmmonoproplt10oblique

// TTF is the name of the font.
var TTF = []byte("lmmonoproplt10oblique")
