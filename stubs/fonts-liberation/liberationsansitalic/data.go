// Package liberationsansitalic stands in for the font of that name.
package liberationsansitalic

// TTF is the name of the font.
var TTF = []byte("liberationsansitalic")
