// Package lmmono9regular stands in for the font of that name.
package lmmono9regular

// TTF is the name of the font.
var TTF = []byte("lmmono9regular")
