// Package lmsans10regular stands in for the font of that name.
package lmsans10regular

// TTF is the name of the font.
var TTF = []byte("lmsans10regular")
