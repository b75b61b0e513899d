// Package lmmonolt10boldoblique stands in for the font of that name.
package lmmonolt10boldoblique

// TTF is the name of the font.
var TTF = []byte("lmmonolt10boldoblique")
