// Package goregular stands in for the Go font of that name.
package goregular

// TTF is the name of the font.
var TTF = []byte("goregular")
