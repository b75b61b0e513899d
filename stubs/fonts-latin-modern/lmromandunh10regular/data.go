// Package lmromandunh10regular stands in for the font of that name.
package lmromandunh10regular

// TTF is the name of the font.
var TTF = []byte("lmromandunh10regular")
