// Package liberationserifbolditalic stands in for the font of that name.
package liberationserifbolditalic

// TTF is the name of the font.
var TTF = []byte("liberationserifbolditalic")
