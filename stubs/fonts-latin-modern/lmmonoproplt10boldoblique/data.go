// Package lmmonoproplt10boldoblique stands in for the font of that name.
package lmmonoproplt10boldoblique

// TTF is the name of the font.
var TTF = []byte("lmmonoproplt10boldoblique")
