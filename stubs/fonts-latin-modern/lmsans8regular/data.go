// Package lmsans8regular stands in for the font of that name.
package lmsans8regular

// TTF is the name of the font.
var TTF = []byte("lmsans8regular")
