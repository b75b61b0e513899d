// Package verifnd holds the intrinsics of the checks: the symbolic engine
// gives them their meaning; natively, they replay recorded values.
package verifnd

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
)

// Val is a recorded nondeterministic value.
type Val struct {
	T string `json:"t"`
	V string `json:"v"`
}

var (
	vals   []Val
	pos    int
	params map[string]int
	// Obs are the observations of the current run.
	Obs []string
	// Known are the known deviations met in the current run.
	Known []string
)

// AssertFail is the panic of a failed assertion.
type AssertFail struct{ Msg string }

// AssumeFail is the panic of a failed assumption.
type AssumeFail struct{ Msg string }

// Dead is set once the run has left the recorded one, even where the code
// under test recovers from the panic.
var Dead *AssumeFail

func die(a AssumeFail) {
	Dead = &a
	panic(a)
}

// Start prepares a native run.
func Start(v []Val, p map[string]int) {
	vals, pos, params = v, 0, p
	Obs, Known, Dead = nil, nil, nil
}

// Lenient makes missing values be the lowest of their range.
var Lenient bool

func more() bool { return !Lenient || pos < len(vals) }

func pop(t string) string {
	if pos >= len(vals) {
		die(AssumeFail{"no more recorded values"})
	}
	v := vals[pos]
	if v.T != t {
		die(AssumeFail{"recorded value " + strconv.Itoa(pos) + " has kind " + v.T + ", want " + t})
	}
	pos++
	return v.V
}

func popInt(t string) int64 {
	s := pop(t)
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			die(AssumeFail{"bad value " + s})
		}
		n = int64(u)
	}
	return n
}

// Byte is any byte in [lo, hi].
func Byte(lo, hi byte) byte {
	if !more() {
		return lo
	}
	return byte(popInt("b"))
}

// ByteIn is any byte of set.
func ByteIn(set string) byte {
	if !more() {
		return set[0]
	}
	return byte(popInt("b"))
}

// Rune is any rune in [lo, hi].
func Rune(lo, hi rune) rune {
	if !more() {
		return lo
	}
	return rune(popInt("r"))
}

// Bits is any 64-bit value.
func Bits() uint64 {
	if !more() {
		return 0
	}
	return uint64(popInt("w"))
}

// Bool is any boolean.
func Bool() bool {
	if !more() {
		return false
	}
	return pop("t") == "true"
}

// Float is any number in [lo, hi].
func Float(lo, hi float64) float64 {
	if !more() {
		return lo
	}
	f, err := strconv.ParseFloat(pop("f"), 64)
	if err != nil {
		die(AssumeFail{err.Error()})
	}
	return f
}

// Int is any integer in [lo, hi].
func Int(lo, hi int) int {
	if !more() {
		return lo
	}
	return int(popInt("i"))
}

// Choose is any of 0..n-1, explored one by one.
func Choose(n int) int {
	if !more() {
		return 0
	}
	return int(popInt("c"))
}

// Assume restricts the exploration to c.
func Assume(c bool) {
	if !c {
		die(AssumeFail{"assumption"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if Dead != nil {
		panic(*Dead)
	}
	if !c {
		panic(AssertFail{msg})
	}
}

// Suspect asserts that nothing is suspected; what is does not end the path,
// and counts where the real build shows it (symbolic engine only).
func Suspect(what, msg string) {}

// AssertKnown asserts c, except for the known deviation id where quirk holds.
func AssertKnown(id string, c, quirk bool, msg string) {
	if Dead != nil {
		panic(*Dead)
	}
	if c {
		return
	}
	if !quirk {
		panic(AssertFail{msg})
	}
	for _, k := range Known {
		if k == id {
			return
		}
	}
	Known = append(Known, id)
}

const eps = 1e-6

// FEq compares numbers up to rounding.
func FEq(a, b float64) bool {
	return a == b || math.Abs(a-b) <= eps*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// FNear is FEq for numbers that are computed from constants in another order.
func FNear(a, b float64) bool { return FEq(a, b) }

// FLe is a <= b up to rounding.
func FLe(a, b float64) bool { return a <= b || FEq(a, b) }

// Observe records values of the run.
func Observe(v ...any) {
	var s []string
	for _, x := range v {
		s = append(s, obs(x))
	}
	Obs = append(Obs, strings.Join(s, "\x1f"))
}

func obs(x any) string {
	switch x := x.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.QuoteToASCII(x)
	case float64:
		return fmt.Sprintf("f%.17g", x)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprintf("%d", x)
	case []string:
		var s []string
		for _, e := range x {
			s = append(s, obs(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%v", x)
}

// Reach marks a point that some path must reach.
func Reach(tag string) {}

// Param is a bound of the harness.
func Param(name string) int { return params[name] }

// And, Or and Implies do not branch.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// SetWatch starts or stops recording writes to memory that existed before
// the run (symbolic engine only).
func SetWatch(on bool) {}

// SharedWrites names the writes recorded (symbolic engine only).
func SharedWrites() string { return "" }

// SetMapOrder makes maps be iterated backwards (symbolic engine only; really,
// the order is arbitrary).
func SetMapOrder(backwards bool) {}

// Stress runs f in several goroutines at once, where the race detector is
// compiled in.
func Stress(f func()) {
	if !Race {
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}
