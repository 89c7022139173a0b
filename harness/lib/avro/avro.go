// Package avro is an independent reader and writer for the avro record of a span:
// id, trace, parent: long; name, service: string; timestamp, duration, cs, cr, ss, sr: long; tags: map<string>.
package avro

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type decoder struct {
	b   []byte
	err error
}

func (d *decoder) long() int64 {
	// avro longs are zig zag varints, as the signed varints of encoding/binary
	v, n := binary.Varint(d.b)
	if n <= 0 {
		if d.err == nil {
			d.err = errors.New("broken long")
		}
		d.b = nil
		return 0
	}
	d.b = d.b[n:]
	return v
}

func (d *decoder) str() string {
	n := d.long()
	if d.err == nil && (n < 0 || n > int64(len(d.b))) {
		d.err = fmt.Errorf("broken string length %d", n)
	}
	if d.err != nil {
		return ""
	}
	s := string(d.b[:n])
	d.b = d.b[n:]
	return s
}

// Decode returns the span and the number of bytes it occupies.
func Decode(data []byte) (proxy.Span, int, error) {
	d := &decoder{b: data}
	var s proxy.Span
	s.Id = proxy.Id(d.long())
	s.Trace = proxy.Id(d.long())
	s.Parent = proxy.Id(d.long())
	s.Name = d.str()
	s.Service = d.str()
	s.Timestamp = proxy.Timestamp(d.long())
	s.Duration = time.Duration(d.long())
	s.Timings.CS = proxy.Timestamp(d.long())
	s.Timings.CR = proxy.Timestamp(d.long())
	s.Timings.SS = proxy.Timestamp(d.long())
	s.Timings.SR = proxy.Timestamp(d.long())
	s.Tags = map[string]string{}
	for d.err == nil {
		n := d.long()
		if n == 0 {
			break
		}
		if n < 0 {
			n = -n
			size := d.long()
			if d.err == nil && (size < 0 || size > int64(len(d.b))) {
				d.err = fmt.Errorf("broken block size %d", size)
			}
		}
		for ; n > 0 && d.err == nil; n-- {
			key := d.str()
			s.Tags[key] = d.str()
		}
	}
	return s, len(data) - len(d.b), d.err
}

// Encode writes the span, where the tags are split into random blocks.
func Encode(s proxy.Span, rng *rand.Rand) (data []byte, blocks int) {
	var b []byte
	long := func(v int64) { b = binary.AppendVarint(b, v) }
	str := func(v string) { long(int64(len(v))); b = append(b, v...) }
	long(int64(s.Id))
	long(int64(s.Trace))
	long(int64(s.Parent))
	str(s.Name)
	str(s.Service)
	long(int64(s.Timestamp))
	long(int64(s.Duration))
	long(int64(s.Timings.CS))
	long(int64(s.Timings.CR))
	long(int64(s.Timings.SS))
	long(int64(s.Timings.SR))

	var keys []string
	for key := range s.Tags {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for len(keys) > 0 {
		n := 1 + rng.IntN(len(keys))
		main := b
		b = nil
		for _, key := range keys[:n] {
			str(key)
			str(s.Tags[key])
		}
		block := b
		b = main
		if rng.IntN(2) == 0 {
			long(int64(-n))
			long(int64(len(block)))
		} else {
			long(int64(n))
		}
		b = append(b, block...)
		keys = keys[n:]
		blocks++
	}
	long(0)
	return b, blocks
}

// Garbage returns something that is not a span, good is a good encoding.
func Garbage(rng *rand.Rand, good []byte) []byte {
	for {
		var b []byte
		switch rng.IntN(5) {
		case 0:
		case 1:
			b = append(b, good[:rng.IntN(len(good))]...)
		case 2:
			b = make([]byte, rng.IntN(40))
			for i := range b {
				b[i] = 0xff
			}
		case 3:
			b = []byte(`[{"id":"1"}]`)
		default:
			b = append(b, good...)
			n := min(16, len(b)-1)
			b[n] = 0xff
			b = b[:n+1]
		}
		if _, _, err := Decode(b); err != nil {
			return b
		}
	}
}
