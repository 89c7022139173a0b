package c13

import (
	"fmt"
	"hash"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/cache"

	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

type held struct {
	got  string
	want string // independent copy
}

var shared = func() []string {
	var res []string
	for i := 0; i < 400; i++ {
		res = append(res, fmt.Sprintf("shared-%d-%s", i, strings.Repeat("s", i%50)))
	}
	// equal prefixes and lengths
	for i := 0; i < 100; i++ {
		res = append(res, fmt.Sprintf("prefix-%04d", i))
	}
	return append(res, "", "a", "\x00", "\xff\xfe", "ä")
}()

// similar are texts that a cache might take for each other: they have the same value of some
// well-known hash function, or differ in a single byte.
var similar []string

func makeSimilar(r *rep.R) {
	rng := r.Rand("similar")
	castagnoli, koopman := crc32.MakeTable(crc32.Castagnoli), crc32.MakeTable(crc32.Koopman)
	sum := func(h hash.Hash32) func(string) uint32 {
		return func(s string) uint32 { h.Reset(); h.Write([]byte(s)); return h.Sum32() }
	}
	times := func(seed, factor uint32, xor bool) func(string) uint32 {
		return func(s string) uint32 {
			h := seed
			for i := 0; i < len(s); i++ {
				if h *= factor; xor {
					h ^= uint32(s[i])
				} else {
					h += uint32(s[i])
				}
			}
			return h
		}
	}
	fold := func(h hash.Hash64) func(string) uint32 {
		return func(s string) uint32 { h.Reset(); h.Write([]byte(s)); return uint32(h.Sum64()) }
	}
	hashes := []struct {
		name string
		sum  func(string) uint32
	}{
		{"fnv32", sum(fnv.New32())}, {"fnv32a", sum(fnv.New32a())}, {"low half of fnv64", fold(fnv.New64())}, {"low half of fnv64a", fold(fnv.New64a())},
		{"crc32", sum(crc32.NewIEEE())}, {"crc32c", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }},
		{"crc32k", func(s string) uint32 { return crc32.Checksum([]byte(s), koopman) }}, {"adler32", sum(adler32.New())},
		{"times 31", times(0, 31, false)}, {"times 33", times(5381, 33, false)}, {"times 33 xor", times(5381, 33, true)}, {"times 131", times(0, 131, false)},
	}
	for _, h := range hashes {
		seen := map[uint32]string{}
		found := 0
		for i := 0; i < 400_000 && found < 12; i++ {
			s := fmt.Sprintf("%016x", rng.Uint64())
			v := h.sum(s)
			if other, ok := seen[v]; ok && other != s {
				similar = append(similar, other, s)
				found++
				r.Count("pairs with the same hash", 1)
			}
			seen[v] = s
		}
		r.Need("pairs with the same hash", 12)
	}
	// the same characters in another order
	for _, n := range []int{2, 8, 20, 100} {
		b := []byte(gen.TextOfSize(rng, n))
		for k := 0; k < 4; k++ {
			rng.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			similar = append(similar, string(b))
		}
	}
	for _, n := range []int{3, 15, 16, 17, 32, 33, 64, 65, 100, 256, 257, 300, 1000, 2000, 4100, 20000} {
		base := []byte(gen.TextOfSize(rng, n))
		similar = append(similar, string(base))
		for k := 0; k < 8; k++ {
			at := []int{0, n - 1, n / 2, n / 3, 7, 8, 15, 16}[k]
			if at >= n {
				at = rng.IntN(n)
			}
			other := append([]byte(nil), base...)
			other[at] ^= 1 + byte(rng.IntN(3))
			similar = append(similar, string(other))
		}
	}
}

func text(rng *rand.Rand) string {
	if rng.IntN(10) == 0 {
		// one and then another one that is next to it
		at := rng.IntN(len(similar))
		return similar[min(len(similar)-1, at+rng.IntN(2))]
	}
	if rng.IntN(1500) == 0 {
		return gen.TextOfSize(rng, gen.Size(rng, 5000, 300_000))
	}
	switch rng.IntN(8) {
	case 0, 1, 2, 3:
		return shared[rng.IntN(len(shared))]
	case 4:
		return gen.Text(rng)
	case 5:
		return fmt.Sprintf("%x", rng.Uint64())
	case 6:
		return strings.Repeat(fmt.Sprintf("%08x", rng.Uint32()), 1+rng.IntN(200))
	default:
		// not utf-8
		b := make([]byte, 1+rng.IntN(40))
		for i := range b {
			b[i] = byte(rng.IntN(256))
		}
		return string(b)
	}
}

func worker(r *rep.R, id int, steps int) {
	rng := r.Rand("worker", id)
	var keep []held
	buf := make([]byte, 0, 40000)

	check := func(h held, when string) {
		if h.got != h.want {
			r.Violate("changed", fmt.Sprintf("%s: interned string is %.200q instead of %.200q", when, h.got, h.want), map[string]any{"got": h.got, "want": h.want})
		}
	}

	for i := 0; i < steps; i++ {
		want := strings.Clone(text(rng))
		var got, api string
		switch rng.IntN(4) {
		case 0, 1:
			api = "StringForByteSliceCopy"
			// the buffer is used again for the next text.
			buf = append(buf[:0], want...)
			if len(want) == 0 && rng.IntN(2) == 0 {
				got = cache.StringForByteSliceCopy(nil)
			} else {
				got = cache.StringForByteSliceCopy(buf)
			}
			check(held{got, want}, api)
			if rng.IntN(2) == 0 {
				for k := range buf {
					buf[k] = '#'
				}
			}
		case 2:
			api = "StringForByteSliceNoCopy"
			// the bytes now belong to the cache
			got = cache.StringForByteSliceNoCopy([]byte(want))
		case 3:
			api = "String"
			got = cache.String(strings.Clone(want))
		}
		check(held{got, want}, api)
		r.Eval(rep.Hash(want), len(want) > 0)
		r.Count(api, 1)
		r.Count("bytes interned", len(want))

		if len(keep) < 3000 {
			keep = append(keep, held{got, want})
		} else {
			at := rng.IntN(len(keep))
			check(keep[at], "later")
			keep[at] = held{got, want}
			r.Count("strings inspected again", 1)
		}
		r.Progress("intern")
	}
	for _, h := range keep {
		check(h, "at the end")
		r.Count("strings inspected again", 1)
	}
}

// volume interns so much that nothing of the beginning is in the cache any more, and looks at the results again and again.
func volume(r *rep.R) {
	rng := r.Rand("volume")
	var keep []held
	for total := 0; total < r.N(80_000_000, 1_000_000_000); {
		n := gen.Size(rng, 100, 20_000)
		var want string
		switch rng.IntN(4) {
		case 0:
			want = gen.TextOfSize(rng, n)
		default:
			// cheap ones
			word := fmt.Sprintf("%016x", rng.Uint64())
			want = strings.Repeat(word, 1+n/len(word))
		}
		var got string
		switch rng.IntN(3) {
		case 0:
			got = cache.String(strings.Clone(want))
		case 1:
			got = cache.StringForByteSliceCopy([]byte(want))
		case 2:
			got = cache.StringForByteSliceNoCopy([]byte(want))
		}
		if got != want {
			r.Violate("changed", fmt.Sprintf("interned string is %.200q instead of %.200q", got, want), nil)
		}
		if len(keep) < 400 {
			keep = append(keep, held{got, want})
		}
		if at := rng.IntN(len(keep)); keep[at].got != keep[at].want {
			r.Violate("changed", fmt.Sprintf("later: interned string is %.200q instead of %.200q", keep[at].got, keep[at].want), nil)
			return
		} else if rng.IntN(100) == 0 {
			keep[at] = held{got, want}
		}
		total += len(want)
		r.Progress("volume")
		r.Eval(rep.Hash(want), true)
		r.Count("bytes interned in large volumes", len(want))
	}
	for _, h := range keep {
		if h.got != h.want {
			r.Violate("changed", fmt.Sprintf("at the end: interned string is %.200q instead of %.200q", h.got, h.want), nil)
		}
	}
}

func Test(t *testing.T) {
	rep.Run(t, "C13", "8 goroutines intern shared, similar, random and non-utf-8 strings through all three entry points under the race detector, far beyond the size of the cache; callers overwrite their buffers; results are compared with independent copies immediately and later; non-trivial: not the empty string", func(r *rep.R) {
		r.WatchCPU(300 * time.Second)
		r.Need("bytes interned", 12_000_000)
		r.Need("strings inspected again", 10000)
		r.Sample(shared[:5])
		makeSimilar(r)

		// in pairs, so that one is still there when the other one comes
		for round := 0; round < 3; round++ {
			for i := 1; i < len(similar); i++ {
				for k := 0; k < 6; k++ {
					want := similar[i-1+k%2]
					var got string
					switch (round + k/2) % 3 {
					case 0:
						got = cache.String(strings.Clone(want))
					case 1:
						got = cache.StringForByteSliceCopy([]byte(want))
					case 2:
						got = cache.StringForByteSliceNoCopy([]byte(want))
					}
					r.Eval(rep.Hash(want), true)
					r.Count("similar strings", 1)
					if got != want {
						r.Violate("changed", fmt.Sprintf("interned string is %.200q instead of %.200q", got, want), map[string]any{"got": got, "want": want})
					}
				}
			}
		}
		// one that is larger than the cache, with others around it
		for _, n := range []int{1 << 20, 5<<20 - 200, 5 << 20, 6 << 20} {
			want := strings.Repeat("x", n-1) + "y"
			for k := 0; k < 3; k++ {
				if got := cache.StringForByteSliceCopy([]byte(want)); got != want {
					r.Violate("changed", fmt.Sprintf("interned string of %d bytes is different", n), nil)
				}
				if got := cache.String(fmt.Sprint("after ", n, k)); got != fmt.Sprint("after ", n, k) {
					r.Violate("changed", fmt.Sprintf("interned string is %q after one of %d bytes", got, n), nil)
				}
			}
			r.Count("huge strings", 1)
		}
		volume(r)
		worker(r, 100, r.N(8000, 100000))
		var wg sync.WaitGroup
		for id := 0; id < 8; id++ {
			wg.Add(1)
			go func() { defer wg.Done(); worker(r, id, r.N(12000, 200000)) }()
		}
		wg.Wait()
	})
}
