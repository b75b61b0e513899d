// Package lmsans9regular stands in for the font of that name.
package lmsans9regular

// TTF is the name of the font.
var TTF = []byte("lmsans9regular")
