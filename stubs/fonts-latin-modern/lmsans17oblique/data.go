// Package lmsans17oblique stands in for the font of that name.
package lmsans17oblique

// TTF is the name of the font.
var TTF = []byte("lmsans17oblique")
