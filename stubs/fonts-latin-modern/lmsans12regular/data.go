// Package lmsans12regular stands in for the font of that name.
package lmsans12regular

// TTF is the name of the font.
var TTF = []byte("lmsans12regular")
