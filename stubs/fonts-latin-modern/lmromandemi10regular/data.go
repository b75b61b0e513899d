// Package lmromandemi10regular stands in for the font of that name.
package lmromandemi10regular

// TTF is the name of the font.
var TTF = []byte("lmromandemi10regular")
