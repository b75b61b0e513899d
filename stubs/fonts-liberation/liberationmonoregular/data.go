// Package liberationmonoregular stands in for the font of that name.
package liberationmonoregular

// TTF is the name of the font.
var TTF = []byte("liberationmonoregular")
