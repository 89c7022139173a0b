package c15

import (
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

const quiet = 8 * time.Second

// group is a set of spans that has to come out together.
type group struct {
	trace       proxy.Id
	ids         map[proxy.Id]string
	first, last time.Duration
	arrivals    []coll.Arrival
	maxGap      time.Duration
	duplicates  int
	emitted     []coll.Emitted
}

func ms(rng *rand.Rand, from, to int) time.Duration {
	return time.Duration(from)*time.Millisecond + time.Duration(rng.Int64N(int64(to-from)*int64(time.Millisecond)))
}

// newGroup schedules the spans of one group.
func newGroup(rng *rand.Rand, ids *coll.Ids, trace proxy.Id, start time.Duration, large bool) *group {
	n := 1 + rng.IntN(12)
	style := rng.IntN(6)
	switch rng.IntN(30) {
	case 0, 1, 2:
		n = 1 + rng.IntN(120)
	case 3:
		n = 300 + rng.IntN(300)
	}
	if large {
		n = gen.Size(rng, 700, 8192)
		style = 5
	}
	spans := coll.Tree(rng, ids, trace, n)
	for i := range spans {
		if rng.IntN(3) == 0 {
			// what else is known about a span does not matter
			coll.Moments(rng, &spans[i])
		}
	}
	rng.Shuffle(len(spans), func(i, k int) { spans[i], spans[k] = spans[k], spans[i] })

	g := &group{trace: trace, ids: map[proxy.Id]string{}, first: start, last: start}
	send := append([]proxy.Span(nil), spans...)
	for _, s := range spans {
		g.ids[s.Id] = s.Name
		if rng.IntN(8) == 0 {
			// reported more than once
			at := rng.IntN(len(send) + 1)
			send = append(send[:at:at], append([]proxy.Span{s}, send[at:]...)...)
			g.duplicates++
		}
	}

	at := start
	pauses := map[int]bool{}
	for k := 0; k < 4 && style == 5; k++ {
		pauses[[]int{1 + rng.IntN(len(send)), len(send) - 1 - rng.IntN(min(len(send), 8))}[rng.IntN(2)]] = true
	}
	for i, s := range send {
		if i > 0 {
			var gap time.Duration
			switch style {
			case 0: // all at once
			case 1:
				gap = ms(rng, 0, 300)
			case 2: // a few long pauses
				if rng.IntN(3) == 0 {
					gap = ms(rng, 6500, 7995)
				}
			case 3:
				gap = ms(rng, 0, 7995)
			case 5:
				// at any position
				if pauses[i] {
					gap = ms(rng, 6500, 7995)
				}
			case 4:
				// just inside
				if i < 5 {
					gap = ms(rng, 7900, 7998)
				}
			}
			if at+gap-start > 31500*time.Millisecond {
				gap = 0
			}
			g.maxGap = max(g.maxGap, gap)
			at += gap
		}
		g.arrivals = append(g.arrivals, coll.Arrival{At: at, Span: s})
		g.last = at
	}
	return g
}

// episode has some traces of all kinds, and a crowd of small ones
func episode(t *testing.T, r *rep.R, seq int, crowd int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	traceIds := coll.NewIds(rng)

	var arrivals []coll.Arrival
	groups := map[proxy.Id][]*group{}
	var end time.Duration

	for n := crowd; n > 0; n-- {
		// they all go quiet at about the same time
		trace := traceIds.Next()
		g := &group{trace: trace, ids: map[proxy.Id]string{}, first: 30 * time.Second}
		root := proxy.Span{Trace: trace, Id: trace, Parent: trace, Name: "alone", Timestamp: coll.Base, Duration: 1e6}
		g.ids[root.Id] = root.Name
		g.last = g.first + ms(rng, 0, 90)
		g.arrivals = []coll.Arrival{{At: g.last, Span: root}}
		groups[trace] = []*group{g}
		arrivals = append(arrivals, g.arrivals...)
		end = max(end, g.last)
		r.Count("traces that go quiet together", 1)
	}

	large := 0
	if crowd == 0 && seq%2 == 0 {
		large = 1
	}
	for n := 1 + rng.IntN(200); n > 0; n-- {
		trace := traceIds.Next()
		// span ids need to be unique in the trace only
		ids := coll.NewIds(rng)
		start := ms(rng, 0, 20000)
		for k := 1 + rng.IntN(6)/4 + rng.IntN(20)/19; k > 0; k-- {
			g := newGroup(rng, ids, trace, start, large > 0)
			if large > 0 {
				large--
				r.Count("large traces with pauses", 1)
				r.Distinct("sizes of large traces", uint64(len(g.ids)))
			}
			groups[trace] = append(groups[trace], g)
			arrivals = append(arrivals, g.arrivals...)
			end = max(end, g.last)

			// spans to be ignored, that must not keep the trace either
			for rng.IntN(2) == 0 {
				bad := proxy.Span{Trace: trace, Name: "invalid"}
				if rng.IntN(3) == 0 {
					bad = proxy.Span{Id: ids.Next(), Parent: g.arrivals[0].Span.Id, Name: "invalid"}
				}
				arrivals = append(arrivals, coll.Arrival{At: g.first + ms(rng, 0, 40000), Span: bad})
				r.Count("invalid spans", 1)
			}
			start = g.last + ms(rng, 8600, 12000)
		}
	}

	res := coll.Run(t, arrivals, end+25*time.Second, []int{0, 1, 256}[rng.IntN(3)])

	for _, e := range res {
		fail := func(sig, format string, args ...any) {
			var want []any
			if len(e.Spans) > 0 {
				for _, g := range groups[e.Spans[0].Trace] {
					for _, a := range g.arrivals {
						want = append(want, fmt.Sprintf("%s id=%s parent=%s", a.At, a.Span.Id, a.Span.Parent))
					}
				}
			}
			r.Violate(sig, fmt.Sprintf("at %s: ", e.At)+fmt.Sprintf(format, args...), map[string]any{"episode": seq, "emitted": e, "arrivals": want})
		}
		if len(e.Spans) == 0 {
			fail("empty", "an empty trace was emitted")
			continue
		}
		trace := e.Spans[0].Trace
		byId, dup := coll.Index(e.Spans)
		if dup != "" {
			fail("duplicate", "trace %s: %s", trace, dup)
			continue
		}

		// the group is identified by any of its spans
		var g *group
		for _, c := range groups[trace] {
			for id := range c.ids {
				if _, ok := byId[id]; ok {
					g = c
				}
			}
		}
		if g == nil {
			fail("foreign", "trace %s with unknown spans was emitted", trace)
			continue
		}
		if len(g.emitted) > 0 {
			fail("split", "trace %s (first span %s, last span %s, longest pause %s) was emitted a second time, after %s", trace, g.first, g.last, g.maxGap, g.emitted[0].At)
			continue
		}
		g.emitted = append(g.emitted, e)

		for id, s := range byId {
			if s.Trace != trace {
				fail("foreign", "trace %s contains span %s of trace %s", trace, id, s.Trace)
			} else if name, ok := g.ids[id]; !ok {
				fail("foreign", "trace %s contains span %s (%q) that does not belong there", trace, id, s.Name)
			} else if name != s.Name {
				fail("foreign", "span %s has name %q instead of %q", id, s.Name, name)
			}
		}
		if len(byId) != len(g.ids) {
			fail("incomplete", "trace %s has %d spans instead of %d", trace, len(byId), len(g.ids))
		}
		if wait := e.At - g.last; wait < quiet {
			fail("early", "trace %s emitted %s after its last span", trace, wait)
		} else if wait > quiet+500*time.Millisecond {
			fail("late", "trace %s emitted %s after its last span", trace, wait)
		} else {
			r.Count("emitted traces", 1)
			r.Count("emitted spans", len(byId))
		}
	}

	for trace, gs := range groups {
		for _, g := range gs {
			shape := rep.Hash(len(g.ids), g.maxGap/(100*time.Millisecond), (g.last-g.first)/(250*time.Millisecond), g.duplicates)
			r.Eval(shape, len(g.ids) > 1)
			if len(gs) > 1 {
				r.Count("groups of a trace that came back", 1)
			}
			if g.maxGap > 7*time.Second {
				r.Count("groups with pauses above 7 s", 1)
			}
			if len(g.emitted) == 0 {
				r.Violate("lost", fmt.Sprintf("trace %s with %d spans (first at %s, last at %s) was never emitted", trace, len(g.ids), g.first, g.last), g.arrivals)
			}
		}
	}
	if seq == 3 {
		for trace, gs := range groups {
			var times []string
			for _, a := range gs[0].arrivals {
				times = append(times, fmt.Sprintf("%s %s", a.At, a.Span.Id))
			}
			if len(times) > 3 && len(times) < 12 && len(gs[0].emitted) > 0 {
				r.Sample(map[string]any{"trace": trace.String(), "arrivals": times, "emittedAt": gs[0].emitted[0].At.String()})
			}
		}
	}
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C15", "episodes with up to 200 concurrent traces in virtual time, each a random tree whose spans arrive in random order with pauses of up to 7.998 s, duplicates, invalid spans in between, traces that come back later, and up to 25 000 traces that go quiet at the same time; distinct by size, longest pause, extent and duplicates; non-trivial: more than one span", func(r *rep.R) {
		r.WatchCPU(120 * time.Second)
		r.Need("emitted traces", 1000)
		r.Need("groups with pauses above 7 s", 200)
		r.Need("invalid spans", 200)
		r.Need("large traces with pauses", 40)
		r.Need("traces that go quiet together", 20_000)
		r.Need("groups of a trace that came back", 100)
		for seq := 0; seq < r.N(120, 3000); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			crowd := 0
			if seq%10 == 9 {
				crowd = []int{1000, 3000, 10_000, 25_000}[seq/10%4]
			}
			episode(t, r, seq, crowd)
		}
	})
}
