// Package lmmonoltcond10regular stands in for the font of that name.
package lmmonoltcond10regular

// TTF is the name of the font.
var TTF = []byte("lmmonoltcond10regular")
