// Package lmsansquot8oblique stands in for the font of that name.
package lmsansquot8oblique

// TTF is the name of the font.
var TTF = []byte("lmsansquot8oblique")
