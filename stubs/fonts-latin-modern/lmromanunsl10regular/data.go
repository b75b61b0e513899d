// Package lmromanunsl10regular stands in for the font of that name.
package lmromanunsl10regular

// TTF is the name of the font.
var TTF = []byte("lmromanunsl10regular")
