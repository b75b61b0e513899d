// Package lmsans10oblique stands in for the font of that name.
package lmsans10oblique

// TTF is the name of the font.
var TTF = []byte("lmsans10oblique")
