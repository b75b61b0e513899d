// Package lmsans9oblique stands in for the font of that name.
package lmsans9oblique

// TTF is the name of the font.
var TTF = []byte("lmsans9oblique")
