package c17

import (
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

func stamp(rng *rand.Rand) proxy.Timestamp {
	return coll.Base + proxy.Timestamp(rng.Int64N(3600_000_000_000))
}

// before returns a time before 2020
func before(rng *rand.Rand) proxy.Timestamp {
	switch rng.IntN(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 6:
		return coll.Y2020 - proxy.Timestamp(1+rng.Int64N(1+int64(1)<<rng.IntN(22)))
	case 7:
		return coll.Y2020 - 1
	case 2:
		return -proxy.Timestamp(rng.Int64N(1e18))
	case 3:
		// milliseconds taken for microseconds or nanoseconds
		return coll.Base / []proxy.Timestamp{1000, 1000_000}[rng.IntN(2)]
	case 4:
		return coll.Y2020 - proxy.Timestamp(2_000_001+rng.Int64N(1e12))
	default:
		return proxy.Timestamp(rng.Int64N(int64(coll.Y2020) - 10_000_000))
	}
}

func skew(rng *rand.Rand) int64 {
	if rng.IntN(6) == 0 {
		if d, ok := dict.Get().Duration(rng, 1, 10000*time.Hour); ok {
			return (int64(d) + rng.Int64N(7) - 3) * (1 - 2*rng.Int64N(2))
		}
	}
	switch rng.IntN(5) {
	case 0:
		return rng.Int64N(2000) - 1000
	case 1:
		return rng.Int64N(2e9) - 1e9
	case 2:
		return rng.Int64N(2e13) - 1e13
	case 3:
		// about a year
		return rng.Int64N(6e16) - 3e16
	default:
		return (rng.Int64N(2000) - 1000) * 1_000_000
	}
}

func timings(rng *rand.Rand) (t proxy.Timings) {
	t.CS = stamp(rng)
	t.CR = t.CS + proxy.Timestamp(rng.Int64N(1+int64(1)<<rng.IntN(40)))
	t.SR = t.CS + proxy.Timestamp(skew(rng))
	t.SS = t.SR + proxy.Timestamp(rng.Int64N(1+int64(1)<<rng.IntN(40)))
	switch rng.IntN(20) {
	case 0:
		// all before 2020
		d := proxy.Timestamp(3e17)
		t.CS, t.CR, t.SR, t.SS = t.CS-d, t.CR-d, t.SR-d, t.SS-d
	case 1:
		t.CR = t.CS
	case 2:
		t.SR, t.SS = t.CS, t.CR
	case 3:
		// received before it was sent
		t.CS, t.CR = t.CR, t.CS
	case 4:
		t.SR, t.SS = t.SS, t.SR
	case 5:
		t.CS, t.CR, t.SR, t.SS = t.CR, t.CS, t.SS, t.SR
	}
	return t
}

// drop removes at least one of the timings.
func drop(rng *rand.Rand, t proxy.Timings) proxy.Timings {
	mask := rng.IntN(15)
	if mask&1 == 0 {
		t.CS = 0
	}
	if mask&2 == 0 {
		t.CR = 0
	}
	if mask&4 == 0 {
		t.SR = 0
	}
	if mask&8 == 0 {
		t.SS = 0
	}
	return t
}

type expect struct {
	spans map[proxy.Id]proxy.Span
	kind  coll.Kind
	cands []proxy.Span
}

func newTrace(rng *rand.Rand, trace proxy.Id) expect {
	ids := coll.NewIds(rng)
	n := 1 + rng.IntN(12)
	switch rng.IntN(12) {
	case 0, 1:
		n = 1 + rng.IntN(80)
	case 2:
		n = 1
	case 3:
		if rng.IntN(20) == 0 {
			n = gen.Size(rng, 10, 2000)
		}
	}
	spans := coll.Tree(rng, ids, trace, n)
	style := rng.IntN(4)
	for i := range spans {
		s := &spans[i]
		s.Timestamp = stamp(rng)
		switch k := rng.IntN(10); {
		case style == 3, k < 5:
			s.Timings = timings(rng)
			if rng.IntN(3) > 0 {
				s.Timestamp, s.Duration = s.Timings.CS, time.Duration(s.Timings.CR-s.Timings.CS)
			}
		case k < 7:
			s.Timings = drop(rng, timings(rng))
		}
		if style != 2 && rng.IntN(8) == 0 {
			s.Timestamp = before(rng)
		}
		if rng.IntN(30) == 0 {
			s.Timestamp = coll.Y2020 + proxy.Timestamp(rng.Int64N(1+int64(1)<<rng.IntN(22)))
		}
	}
	if rng.IntN(4) == 0 {
		// some that end up around the beginning of 2020 only when they are moved
		all := map[proxy.Id]proxy.Span{}
		for _, s := range spans {
			all[s.Id] = s
		}
		times := coll.Correct(all, spans[0].Id)
		for i := range spans {
			s := &spans[i]
			if w := times[s.Id]; s.Timings == (proxy.Timings{}) && !w.FromParent && rng.IntN(3) == 0 {
				s.Timestamp = coll.Y2020 + s.Timestamp - proxy.Timestamp(w.Start2/2) + proxy.Timestamp((rng.Int64N(1+int64(1)<<rng.IntN(22)))*(1-2*rng.Int64N(2)))
			}
		}
	}
	if n > 2 && rng.IntN(4) == 0 {
		// the root is not reported, its children are
		missing := spans[0].Id
		spans = spans[1:]
		if rng.IntN(2) == 0 {
			for i := range spans {
				if rng.IntN(4) == 0 {
					spans[i].Parent = missing
				}
			}
		}
	}
	if rng.IntN(15) == 0 {
		// a cycle that is not connected to the root
		a, b := ids.Next(), ids.Next()
		spans = append(spans,
			proxy.Span{Trace: trace, Id: a, Parent: b, Name: "a", Timestamp: stamp(rng), Duration: 5},
			proxy.Span{Trace: trace, Id: b, Parent: a, Name: "b", Timestamp: stamp(rng), Duration: 7})
	}
	x := expect{spans: map[proxy.Id]proxy.Span{}}
	for _, s := range spans {
		x.spans[s.Id] = s
	}
	x.kind, x.cands = coll.Classify(x.spans)
	return x
}

func episode(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	traceIds := coll.NewIds(rng)
	var arrivals []coll.Arrival
	want := map[proxy.Id]expect{}

	for n := 0; n < 80; n++ {
		trace := traceIds.Next()
		x := newTrace(rng, trace)
		want[trace] = x
		var spans []proxy.Span
		for _, s := range x.spans {
			spans = append(spans, s)
		}
		rng.Shuffle(len(spans), func(i, k int) { spans[i], spans[k] = spans[k], spans[i] })
		for _, s := range spans {
			arrivals = append(arrivals, coll.Arrival{At: time.Duration(rng.IntN(3000)) * time.Millisecond, Span: s})
		}
	}

	for _, e := range coll.Run(t, arrivals, 20*time.Second, 0) {
		if len(e.Spans) == 0 {
			continue
		}
		trace := e.Spans[0].Trace
		x, ok := want[trace]
		if !ok || x.kind == coll.NoRoot {
			continue // decided by other properties
		}
		got, _ := coll.Index(e.Spans)

		root := x.cands[0].Id
		all := map[proxy.Id]proxy.Span{}
		for id, s := range x.spans {
			all[id] = s
		}
		if x.kind == coll.SharedParent {
			root = x.cands[0].Parent
			fake, ok := got[root]
			if !ok {
				continue
			}
			r.Count("traces with synthesized root", 1)
			all[root] = fake
		}
		times := coll.Correct(all, root)
		if coll.NearBoundary(times) {
			r.Count("skipped, too close to 2020", 1)
			continue
		}

		for id, in := range x.spans {
			s, ok := got[id]
			if !ok {
				continue
			}
			w := times[id]
			full := in.Timings.CS != 0 && in.Timings.CR != 0 && in.Timings.SR != 0 && in.Timings.SS != 0
			moved := w.Start2 != 2*int64(in.Timestamp)
			r.Eval(rep.Hash(w.Depth, full, moved, w.FromParent, in.Timestamp < coll.Y2020, in.Timings), moved || full || w.FromParent)
			r.Count("spans compared", 1)
			if moved && !full && !w.FromParent {
				r.Count("spans shifted by their ancestors", 1)
			}
			if full {
				r.Count("spans with client and server timings", 1)
			}
			if d := w.Start2/2 - int64(coll.Y2020); w.Depth > 0 && !w.FromParent && d < 2_000_000 {
				r.Count("spans that start just after the beginning of 2020", 1)
			}
			if w.FromParent && in.Timestamp < coll.Y2020 && in.Timestamp > coll.Y2020-1_000_000 {
				r.Count("spans that start just before the beginning of 2020", 1)
			}
			if w.FromParent {
				r.Count("spans that take the start of their parent", 1)
			}
			r.Distinct("depths", uint64(w.Depth))

			witness := func() any {
				return map[string]any{"episode": seq, "trace": trace.String(), "root": root.String(), "span": in, "emitted": s,
					"wantStartHalfNs": w, "input": x.spans, "output": e.Spans}
			}
			if diff := coll.SameFields(s, in); diff != "" {
				r.Violate("field", fmt.Sprintf("span %s was altered: %s", id, diff), witness())
				continue
			}
			if s.Duration != w.Dur {
				r.Violate("duration", fmt.Sprintf("span %s lasts %s instead of %s", id, s.Duration, w.Dur), witness())
				continue
			}
			if w.FromParent {
				if p := got[w.Parent].Timestamp; s.Timestamp != p {
					r.Violate("before2020", fmt.Sprintf("span %s with a start before 2020 starts at %d instead of that of its parent, %d", id, s.Timestamp, p), witness())
				}
				continue
			}
			if d := 2*int64(s.Timestamp) - w.Start2; d < -2*int64(w.Depth+2) || d > 2*int64(w.Depth+2) {
				r.Violate("start", fmt.Sprintf("span %s (depth %d) starts at %d, which is %s off", id, w.Depth, s.Timestamp, time.Duration(d/2)), witness())
			}
		}
		if seq == 0 && len(x.spans) < 5 && len(x.spans) > 2 {
			r.Sample(map[string]any{"input": x.spans, "output": e.Spans})
		}
	}
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C17", "random span trees (chains, stars, mixed, also without their root or with an unconnected cycle) with full, partial and no timings, skews from nanoseconds to a year and times before 2020, compared with an exact reference in half nanoseconds; distinct by depth, kind and timings; non-trivial: the span is corrected or has all timings", func(r *rep.R) {
		r.WatchCPU(120 * time.Second)
		r.Need("spans shifted by their ancestors", 2000)
		r.Need("spans with client and server timings", 5000)
		r.Need("spans that take the start of their parent", 1000)
		r.Need("traces with synthesized root", 100)
		r.Need("spans that start just after the beginning of 2020", 200)
		r.Need("spans that start just before the beginning of 2020", 200)
		r.Assume("sums of two roundings to a nanosecond per level are tolerated")
		for seq := 0; seq < r.N(150, 5000); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			episode(t, r, seq)
		}
	})
}
