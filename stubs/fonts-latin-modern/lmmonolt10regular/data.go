// Package lmmonolt10regular stands in for the font of that name.
package lmmonolt10regular

// TTF is the name of the font.
var TTF = []byte("lmmonolt10regular")
