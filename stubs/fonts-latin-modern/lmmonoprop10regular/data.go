// Package lmmonoprop10regular stands in for the font of that name.
package lmmonoprop10regular

// TTF is the name of the font.
var TTF = []byte("lmmonoprop10regular")
