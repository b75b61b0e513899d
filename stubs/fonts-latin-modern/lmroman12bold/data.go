// Package lmroman12bold stands in for the font of that name.
package lmroman12bold

// TTF is the name of the font.
var TTF = []byte("lmroman12bold")
