// Package lmsansquot8regular stands in for the font of that name.
package lmsansquot8regular

// TTF is the name of the font.
var TTF = []byte("lmsansquot8regular")
