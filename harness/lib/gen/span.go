package gen

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func anyInt(r *rand.Rand) int64 {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return []int64{1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 63, 64, -64, -65, 127, 128, 8191, 8192}[r.IntN(14)]
	case 2:
		return -r.Int64N(1 << 40)
	default:
		return int64(r.Uint64()) >> r.IntN(64)
	}
}

// AnySpan returns a span with any values in its fields.
func AnySpan(r *rand.Rand) proxy.Span {
	s := proxy.Span{
		Id: proxy.Id(anyInt(r)), Trace: proxy.Id(anyInt(r)), Parent: proxy.Id(anyInt(r)),
		Name: Text(r), Service: Text(r),
		Timestamp: proxy.Timestamp(anyInt(r)), Duration: time.Duration(anyInt(r)),
	}
	if r.IntN(2) == 0 {
		s.Timings = proxy.Timings{CS: proxy.Timestamp(anyInt(r)), CR: proxy.Timestamp(anyInt(r)), SS: proxy.Timestamp(anyInt(r)), SR: proxy.Timestamp(anyInt(r))}
	}
	n := 0
	switch r.IntN(6) {
	case 0:
	case 1:
		s.Tags = map[string]string{}
	case 2:
		n = r.IntN(150)
	default:
		n = r.IntN(12)
	}
	for ; n > 0; n-- {
		if r.IntN(3) == 0 {
			s.AddTag(RealTag(r))
		} else {
			s.AddTag(Text(r), Text(r))
		}
	}
	return s
}

// LargeSpan returns a span with many tags or long texts.
func LargeSpan(r *rand.Rand, scale int) proxy.Span {
	s := AnySpan(r)
	text := func() string { return TextOfSize(r, Size(r, 1000, 1_000_000*scale)) }
	switch r.IntN(8) {
	case 0:
		s.Name = text()
	case 1:
		s.Service = text()
	case 2:
		s.AddTag("long", text())
	case 3:
		s.AddTag(text(), "long")
	default:
		s.Tags = nil
		for n := Size(r, 20, 5000*scale); n > 0; n-- {
			s.AddTag(fmt.Sprint(n), words[r.IntN(len(words))])
		}
	}
	return s
}
