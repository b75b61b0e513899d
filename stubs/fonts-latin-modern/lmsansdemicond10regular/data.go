// Package lmsansdemicond10regular stands in for the font of that name.
package lmsansdemicond10regular

// TTF is the name of the font.
var TTF = []byte("lmsansdemicond10regular")
