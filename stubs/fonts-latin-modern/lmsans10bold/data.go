// Package lmsans10bold stands in for the font of that name.
package lmsans10bold

// TTF is the name of the font.
var TTF = []byte("lmsans10bold")
