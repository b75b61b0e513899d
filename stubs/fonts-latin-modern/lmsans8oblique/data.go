// Package lmsans8oblique stands in for the font of that name.
package lmsans8oblique

// TTF is the name of the font.
var TTF = []byte("lmsans8oblique")
