// Package lmsansdemicond10oblique stands in for the font of that name.
package lmsansdemicond10oblique

// TTF is the name of the font.
var TTF = []byte("lmsansdemicond10oblique")
