// Package lmmono12regular stands in for the font of that name.
package lmmono12regular

// TTF is the name of the font.
var TTF = []byte("lmmono12regular")
