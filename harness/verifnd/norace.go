//go:build !race

package verifnd

// Race tells that the race detector is compiled in.
const Race = false
