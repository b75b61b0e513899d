// Package liberationsansbold stands in for the font of that name.
package liberationsansbold

// TTF is the name of the font.
var TTF = []byte("liberationsansbold")
