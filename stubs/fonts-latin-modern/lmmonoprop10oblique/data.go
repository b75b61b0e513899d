// Package lmmonoprop10oblique stands in for the font of that name.
package lmmonoprop10oblique

// TTF is the name of the font.
var TTF = []byte("lmmonoprop10oblique")
