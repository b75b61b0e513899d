// Package verifshim holds plain implementations of library functions that
// the standard library writes in assembly or with architecture-specific
// tricks; the engine executes these instead.
package verifshim

import (
	"errors"
	"image"
	"io"
)

// PNG is image/png.Encode without the encoding.
func PNG(w io.Writer, m image.Image) error {
	if b := m.Bounds(); b.Dx() <= 0 || b.Dy() <= 0 {
		return errors.New("png: invalid format: invalid image size")
	}
	_, err := w.Write([]byte("png"))
	return err
}


func Index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func BIndex(s, sub []byte) int {
	return Index(string(s), string(sub))
}

func Count(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for {
		i := Index(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

func CountByte(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func BIndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func IndexRune(s string, r rune) int {
	for i, c := range s {
		if c == r {
			return i
		}
	}
	return -1
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		err = errors.Unwrap(err)
	}
	return target == nil
}

func SortStrings(x []string) {
	// heap sort
	n := len(x)
	down := func(i, n int) {
		for {
			c := 2*i + 1
			if c >= n {
				return
			}
			if c+1 < n && x[c] < x[c+1] {
				c++
			}
			if !(x[i] < x[c]) {
				return
			}
			x[i], x[c] = x[c], x[i]
			i = c
		}
	}
	for i := n/2 - 1; i >= 0; i-- {
		down(i, n)
	}
	for i := n - 1; i > 0; i-- {
		x[0], x[i] = x[i], x[0]
		down(0, i)
	}
}

func Itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	u := uint(n)
	if neg {
		u = -u
	}
	var b [24]byte
	i := len(b)
	for u > 0 {
		i--
		b[i] = '0' + byte(u%10)
		u /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}
