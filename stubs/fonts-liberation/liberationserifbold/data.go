// Package liberationserifbold stands in for the font of that name.
package liberationserifbold

// TTF is the name of the font.
var TTF = []byte("liberationserifbold")
