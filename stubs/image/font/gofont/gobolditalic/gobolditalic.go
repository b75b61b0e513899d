// Package gobolditalic stands in for the Go font of that name.
package gobolditalic

// TTF is the name of the font.
var TTF = []byte("gobolditalic")
