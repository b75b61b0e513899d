// Package lmsansquot8boldoblique stands in for the font of that name.
package lmsansquot8boldoblique

// TTF is the name of the font.
var TTF = []byte("lmsansquot8boldoblique")
