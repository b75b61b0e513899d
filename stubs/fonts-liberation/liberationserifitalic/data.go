// Package liberationserifitalic stands in for the font of that name.
package liberationserifitalic

// TTF is the name of the font.
var TTF = []byte("liberationserifitalic")
