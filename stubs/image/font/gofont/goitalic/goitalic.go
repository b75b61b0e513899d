// Package goitalic stands in for the Go font of that name.
package goitalic

// TTF is the name of the font.
var TTF = []byte("goitalic")
