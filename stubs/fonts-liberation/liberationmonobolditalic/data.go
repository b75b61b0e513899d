// Package liberationmonobolditalic stands in for the font of that name.
package liberationmonobolditalic

// TTF is the name of the font.
var TTF = []byte("liberationmonobolditalic")
