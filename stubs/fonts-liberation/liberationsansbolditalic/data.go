// Package liberationsansbolditalic stands in for the font of that name.
package liberationsansbolditalic

// TTF is the name of the font.
var TTF = []byte("liberationsansbolditalic")
