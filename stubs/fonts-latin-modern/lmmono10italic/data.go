// Package lmmono10italic stands in for the font of that name.
package lmmono10italic

// TTF is the name of the font.
var TTF = []byte("lmmono10italic")
