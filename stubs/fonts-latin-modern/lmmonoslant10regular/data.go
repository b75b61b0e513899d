// Package lmmonoslant10regular stands in for the font of that name.
package lmmonoslant10regular

// TTF is the name of the font.
var TTF = []byte("lmmonoslant10regular")
