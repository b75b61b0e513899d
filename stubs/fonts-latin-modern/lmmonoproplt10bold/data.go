// Package lmmonoproplt10bold stands in for the font of that name.
package lmmonoproplt10bold

// TTF is the name of the font.
var TTF = []byte("lmmonoproplt10bold")
