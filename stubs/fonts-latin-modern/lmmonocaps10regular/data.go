// Package lmmonocaps10regular stands in for the font of that name.
package lmmonocaps10regular

// TTF is the name of the font.
var TTF = []byte("lmmonocaps10regular")
