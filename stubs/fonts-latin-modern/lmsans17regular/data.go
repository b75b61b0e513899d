// Package lmsans17regular stands in for the font of that name.
package lmsans17regular

// TTF is the name of the font.
var TTF = []byte("lmsans17regular")
