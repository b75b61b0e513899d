// Package liberationmonoitalic stands in for the font of that name.
package liberationmonoitalic

// TTF is the name of the font.
var TTF = []byte("liberationmonoitalic")
