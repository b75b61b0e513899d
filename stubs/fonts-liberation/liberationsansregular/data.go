// Package liberationsansregular stands in for the font of that name.
package liberationsansregular

// TTF is the name of the font.
var TTF = []byte("liberationsansregular")
