// Package gobold stands in for the Go font of that name.
package gobold

// TTF is the name of the font.
var TTF = []byte("gobold")
