// Package lmmonoproplt10regular stands in for the font of that name.
package lmmonoproplt10regular

// TTF is the name of the font.
var TTF = []byte("lmmonoproplt10regular")
