// Package liberationmonobold stands in for the font of that name.
package liberationmonobold

// TTF is the name of the font.
var TTF = []byte("liberationmonobold")
