package fw

import (
	"math/bits"

	"pgregory.net/rapid"
)

// rapid's integer and choice generators prefer small values. These are uniform (made of single bits) and still shrink
// towards the first choice.

var boolGen = rapid.Bool()

func bitsOf(t *rapid.T, label string, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if boolGen.Draw(t, label) {
			v |= 1
		}
	}
	return v
}

// Uni draws from [0, n).
func Uni(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	b := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		b += 4
	}
	return int(bitsOf(t, label, b) % uint64(n))
}

// Rng draws from [lo, hi].
func Rng(t *rapid.T, label string, lo, hi int) int { return lo + Uni(t, label, hi-lo+1) }

// Pick draws an element.
func Pick[T any](t *rapid.T, label string, s []T) T { return s[Uni(t, label, len(s))] }

// Chance is true in about num of den cases.
func Chance(t *rapid.T, label string, num, den int) bool { return Uni(t, label, den) >= den-num }

// Byte draws a uniform byte.
func Byte(t *rapid.T, label string) byte { return byte(bitsOf(t, label, 8)) }

// Bytes draws a byte string of length in [lo, hi].
func Bytes(t *rapid.T, label string, lo, hi int) string {
	n := Rng(t, label+"Len", lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(t, label)
	}
	return string(b)
}

// Word draws a short lower-case word.
func Word(t *rapid.T, label string, lo, hi int) string {
	n := Rng(t, label+"Len", lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[Uni(t, label, 36)]
	}
	return string(b)
}

// Seq draws between lo and hi values.
func Seq[T any](t *rapid.T, label string, lo, hi int, f func(t *rapid.T) T) []T {
	n := Rng(t, label+"N", lo, hi)
	out := make([]T, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, f(t))
	}
	return out
}
