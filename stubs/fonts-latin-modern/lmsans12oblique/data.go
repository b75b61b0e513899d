// Package lmsans12oblique stands in for the font of that name.
package lmsans12oblique

// TTF is the name of the font.
var TTF = []byte("lmsans12oblique")
