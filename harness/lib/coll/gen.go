package coll

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
)

// Ids hands out distinct non-zero ids of all kinds.
type Ids struct {
	rng  *rand.Rand
	used map[proxy.Id]bool
}

func NewIds(rng *rand.Rand) *Ids { return &Ids{rng, map[proxy.Id]bool{0: true}} }

func (g *Ids) Next() proxy.Id {
	for {
		var id proxy.Id
		switch g.rng.IntN(10) {
		case 0:
			id = proxy.Id([]int64{1, -1, 2, -2, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32, 1<<32 + 1, 1 << 48}[g.rng.IntN(11)])
		case 1, 2:
			id = proxy.Id(g.rng.IntN(5000)) - 2500
		case 3:
			// differ in a part only
			id = proxy.Id(0x1234_5678_0000_0000 + g.rng.Int64N(4096))
		case 4:
			id = proxy.Id(g.rng.Int64N(4096)<<48 | 0x77)
		default:
			id = proxy.Id(g.rng.Uint64())
		}
		if !g.used[id] {
			g.used[id] = true
			return id
		}
	}
}

// Times are those of spans that are neither before 2020 nor need corrections.
const Base = proxy.Timestamp(1_700_000_000_000_000_000)

// RootParent picks how a span tells that it is the root.
func RootParent(rng *rand.Rand, ids *Ids, self proxy.Id) proxy.Id {
	switch rng.IntN(4) {
	case 0:
		return 0
	case 1:
		return ids.Next()
	default:
		return self
	}
}

// Tree returns n spans that form a tree, parents first, without timings.
func Tree(rng *rand.Rand, ids *Ids, trace proxy.Id, n int) []proxy.Span {
	if n == 0 {
		return nil
	}
	res := make([]proxy.Span, 0, n)
	shape := rng.IntN(4)
	for i := 0; i < n; i++ {
		s := proxy.Span{Trace: trace, Id: ids.Next()}
		if i == 0 {
			if rng.IntN(3) == 0 && trace != 0 && !ids.used[trace] {
				// the root has the id of the trace
				s.Id = trace
				ids.used[trace] = true
			}
			s.Parent = RootParent(rng, ids, s.Id)
		} else {
			switch shape {
			case 0:
				s.Parent = res[i-1].Id
			case 1:
				s.Parent = res[0].Id
			case 2:
				s.Parent = res[max(0, i-1-rng.IntN(4))].Id
			default:
				s.Parent = res[rng.IntN(i)].Id
			}
		}
		s.Name = fmt.Sprintf("n-%s-%s", trace, s.Id)
		s.Service = fmt.Sprintf("s%d", rng.IntN(9))
		s.Timestamp = Base + proxy.Timestamp(rng.Int64N(3_600_000_000_000))
		s.Duration = time.Duration(rng.Int64N(5_000_000_000))
		if rng.IntN(2) == 0 {
			s.AddTag("mark", s.Name)
		}
		Vary(rng, &s)
		res = append(res, s)
	}
	return res
}

// Vary gives some spans other names, services, tags and times. The times need no corrections.
func Vary(rng *rand.Rand, s *proxy.Span) {
	switch rng.IntN(30) {
	case 26, 27, 28:
		for range 1 + rng.IntN(3) {
			s.AddTag(gen.RealTag(rng))
		}
	case 0:
		s.Name = gen.Text(rng)
	case 1:
		s.Service = gen.Text(rng)
	case 2, 3:
		for range 1 + rng.IntN(4) {
			s.AddTag(gen.Text(rng), gen.Text(rng))
		}
	case 4:
		// any time from 2020 on
		s.Timestamp = Y2020 + 10_000_000 + proxy.Timestamp(rng.Int64N(80*365*24*3600_000_000_000))
	case 5:
		s.Duration = []time.Duration{0, 1, 999, 1000, 1001, time.Hour, 100 * 24 * time.Hour}[rng.IntN(7)]
	case 7:
		s.Duration = -[]time.Duration{1, 999, 1000, 1_000_000, time.Second, time.Hour, 100 * 24 * time.Hour}[rng.IntN(7)]
	case 6:
		if d, ok := dict.Get().Duration(rng, 1, 1000*time.Hour); ok {
			s.Duration = d
		}
	}
}

// Moments gives a span some of the four moments of a call, but not all of them.
func Moments(rng *rand.Rand, s *proxy.Span) {
	known := rng.IntN(15)
	for i, at := range []*proxy.Timestamp{&s.Timings.CS, &s.Timings.SR, &s.Timings.SS, &s.Timings.CR} {
		if known>>i&1 != 0 {
			*at = s.Timestamp + proxy.Timestamp(i)*proxy.Timestamp(rng.Int64N(1_000_000))
		}
	}
}

// Center is the id of the span that all others of a large trace are children of. In many traces it is that of the trace.
// All ids from nine to ten million are left to the others.
func Center(trace proxy.Id) proxy.Id {
	if uint64(trace)%3 > 0 && (trace < 9_000_000 || trace > 10_000_000) {
		return trace
	}
	return 10_000_000
}

// Star returns span number i of a trace in which all are children of number 0.
func Star(trace proxy.Id, i int) proxy.Span {
	s := proxy.Span{Trace: trace, Id: proxy.Id(10_000_000 - i), Parent: Center(trace), Name: "n", Timestamp: Base, Duration: 1e6}
	if i == 0 {
		s.Id = s.Parent
	}
	return s
}
