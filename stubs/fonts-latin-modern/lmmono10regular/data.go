// Package lmmono10regular stands in for the font of that name.
package lmmono10regular

// TTF is the name of the font.
var TTF = []byte("lmmono10regular")
