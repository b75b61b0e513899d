// Package lmmono8regular stands in for the font of that name.
package lmmono8regular

// TTF is the name of the font.
var TTF = []byte("lmmono8regular")
