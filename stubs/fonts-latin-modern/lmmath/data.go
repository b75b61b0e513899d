// Package lmmath stands in for the font of that name.
package lmmath

// TTF is the name of the font.
var TTF = []byte("lmmath")
