// Package liberationserifregular stands in for the font of that name.
package liberationserifregular

// TTF is the name of the font.
var TTF = []byte("liberationserifregular")
