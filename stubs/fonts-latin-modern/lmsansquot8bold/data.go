// Package lmsansquot8bold stands in for the font of that name.
package lmsansquot8bold

// TTF is the name of the font.
var TTF = []byte("lmsansquot8bold")
