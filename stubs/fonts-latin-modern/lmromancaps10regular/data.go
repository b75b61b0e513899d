// Package lmromancaps10regular stands in for the font of that name.
package lmromancaps10regular

// TTF is the name of the font.
var TTF = []byte("lmromancaps10regular")
