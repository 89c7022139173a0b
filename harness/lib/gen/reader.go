package gen

import (
	"fmt"
	"io"
	"math/rand/v2"
)

// Reader delivers data in chunks.
type Reader struct {
	data []byte
	size func() int

	// return io.EOF together with the last bytes
	eofWithData bool
	// sometimes return (0, nil)
	zero *rand.Rand

	// fail with this error after all data was delivered, instead of EOF.
	Err error

	// number of bytes delivered so far
	Delivered int

	Name string
}

func (r *Reader) end() error {
	if r.Err != nil {
		return r.Err
	}
	return io.EOF
}

func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.end()
	}
	if r.zero != nil && r.zero.IntN(4) == 0 {
		return 0, nil
	}
	n := r.size()
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.Delivered += n
	if len(r.data) == 0 && r.eofWithData {
		return n, r.end()
	}
	return n, nil
}

// NewReader returns a reader with a random way to split the data.
func NewReader(rng *rand.Rand, data []byte) *Reader {
	r := &Reader{data: data}
	// encoding/json looks at all of an unfinished value with every read (and the race detector makes that slow), so that
	// large documents come in larger pieces.
	least := 1 + len(data)/20_000
	switch mode := rng.IntN(8); mode {
	case 0:
		r.Name = "bytewise"
		r.size = func() int { return least }
	case 1:
		k := least + rng.IntN(64)
		r.Name = fmt.Sprintf("fixed(%d)", k)
		r.size = func() int { return k }
	case 2:
		r.Name = "random(16)"
		sub := rand.New(rand.NewPCG(rng.Uint64(), 1))
		r.size = func() int { return least + sub.IntN(16) }
	case 3:
		r.Name = "random(3000)"
		sub := rand.New(rand.NewPCG(rng.Uint64(), 1))
		r.size = func() int { return least + sub.IntN(3000) }
	case 4:
		// split the text once
		k := rng.IntN(len(data) + 1)
		r.Name = fmt.Sprintf("split(%d)", k)
		first := true
		r.size = func() int {
			if first && k > 0 {
				first = false
				return k
			}
			return 1 << 30
		}
	case 5:
		k := 8192 - 8 + rng.IntN(16)
		r.Name = fmt.Sprintf("fixed(%d)", k)
		r.size = func() int { return k }
	default:
		r.Name = "whole"
		r.size = func() int { return 1 << 30 }
	}
	if rng.IntN(3) == 0 {
		r.Name += "+eof"
		r.eofWithData = true
	}
	if rng.IntN(6) == 0 {
		r.Name += "+zero"
		r.zero = rand.New(rand.NewPCG(rng.Uint64(), 2))
	}
	return r
}

// SplitAt returns a reader that delivers the data in two parts.
func SplitAt(data []byte, at int, eofWithData bool) *Reader {
	first := true
	return &Reader{
		data: data, eofWithData: eofWithData, Name: fmt.Sprintf("split(%d)", at),
		size: func() int {
			if first && at > 0 {
				first = false
				return at
			}
			return 1 << 30
		},
	}
}

// Whole returns a reader that delivers as much as possible, and then fails with the given error.
func Whole(data []byte, err error, withData bool) *Reader {
	return &Reader{data: data, Err: err, eofWithData: withData, Name: "whole", size: func() int { return 1 << 30 }}
}

// With sets the error returned at the end.
func (r *Reader) With(err error) *Reader { r.Err = err; return r }
