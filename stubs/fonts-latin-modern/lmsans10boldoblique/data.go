// Package lmsans10boldoblique stands in for the font of that name.
package lmsans10boldoblique

// TTF is the name of the font.
var TTF = []byte("lmsans10boldoblique")
