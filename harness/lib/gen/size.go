package gen

import (
	"math"
	"math/rand/v2"
	"strings"

	"verif/harness/lib/dict"
)

// Size returns a number of any magnitude in the range, often a round one or one next to it.
func Size(r *rand.Rand, lo, hi int) int {
	if n, ok := DictSize(r, lo, hi); ok {
		return n
	}
	n := int(math.Exp(math.Log(float64(lo)) + r.Float64()*(math.Log(float64(hi)+1)-math.Log(float64(lo)))))
	switch r.IntN(4) {
	case 0:
		// a power of two, or half way to the next one
		p := 1
		for p*2 <= n {
			p *= 2
		}
		if r.IntN(3) == 0 {
			p += p / 2
		}
		n = p + r.IntN(3) - 1
	case 1:
		// multiples of 10, 100, 1000...
		p := 1
		for p*10 <= n {
			p *= 10
		}
		n = n/p*p + r.IntN(3) - 1
	}
	return min(max(n, lo), hi)
}

// DictSize is, sometimes, a number of the source that is being checked.
func DictSize(r *rand.Rand, lo, hi int) (int, bool) {
	d := dict.Get()
	if r.IntN(6) == 0 || d.Fresh(lo, hi) && r.IntN(3) == 0 {
		return d.Int(r, lo, hi)
	}
	return 0, false
}

// TextOfSize returns a string of about that many bytes.
func TextOfSize(r *rand.Rand, n int) string {
	var b strings.Builder
	b.Grow(n + 4)
	special := r.IntN(3) == 0
	for b.Len() < n {
		if special && r.IntN(50) == 0 {
			b.WriteRune(runes[r.IntN(len(runes))])
		} else {
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[r.IntN(64)])
		}
	}
	return b.String()
}

// Large makes one part of a document large.
type Large struct {
	Dim  string
	Size int
	used bool
}

var Dims = []string{"spans", "tags", "text", "data", "processes", "references", "unknown", "depth"}

// NewLarge picks what is to be large, and how large.
func NewLarge(r *rand.Rand, scale int) *Large {
	l := &Large{Dim: Dims[r.IntN(len(Dims))]}
	switch l.Dim {
	case "text":
		l.Size = Size(r, 1000, 2_000_000*scale)
	case "spans":
		l.Size = Size(r, 100, 3000*scale)
	case "depth":
		// the standard library does not read what is nested deeper
		l.Size = Size(r, 100, 9000)
	default:
		l.Size = Size(r, 20, 5000*scale)
	}
	return l
}

// take returns the size if this is the part that should be large, at most once.
func (d *doc) take(dim string) (int, bool) {
	l := d.o.Large
	if l == nil || l.used || l.Dim != dim {
		return 0, false
	}
	l.used = true
	return l.Size, true
}
