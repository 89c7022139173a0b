package c21

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/rep"
)

// group is a set of spans that leaves the collector together.
type group struct {
	kind     string // name of the counter
	arrivals []coll.Arrival
	// when the group may leave
	from, to time.Duration
	first    time.Duration
	distinct int
	// arrivals that meet a span with the same id
	merged []time.Duration
	// arrivals after the trace was cut off
	black []time.Duration
}

func ms(rng *rand.Rand, n int) time.Duration {
	return time.Duration(rng.Int64N(int64(n)*int64(time.Millisecond) + 1))
}

func (g *group) send(spans []proxy.Span, at func(i int) time.Duration) {
	ids := map[proxy.Id]bool{}
	last := time.Duration(0)
	for i, s := range spans {
		t := at(i)
		if i == 0 {
			g.first = t
		}
		last = max(last, t)
		g.arrivals = append(g.arrivals, coll.Arrival{At: t, Span: s})
		if ids[s.Id] {
			g.merged = append(g.merged, t)
		}
		ids[s.Id] = true
	}
	g.distinct = len(ids)
	g.from, g.to = last+8*time.Second, last+8500*time.Millisecond
}

func (g *group) stragglers(rng *rand.Rand, trace proxy.Id, from time.Duration) {
	for n := rng.IntN(8); n > 0; n-- {
		from += ms(rng, 5000)
		g.black = append(g.black, from)
		g.arrivals = append(g.arrivals, coll.Arrival{At: from, Span: proxy.Span{Trace: trace, Id: proxy.Id(1 + rng.IntN(100)), Name: "late"}})
	}
}

// quiet trace with or without root
func quiet(rng *rand.Rand, trace proxy.Id, start time.Duration) *group {
	ids := coll.NewIds(rng)
	spans := coll.Tree(rng, ids, trace, 1+rng.IntN(20))
	g := &group{kind: "traces.finished"}
	switch rng.IntN(4) {
	case 0:
		// a second root
		spans = append(spans, proxy.Span{Trace: trace, Id: ids.Next(), Parent: ids.Next(), Timestamp: coll.Base})
	case 1:
		// only a missing root
		p := ids.Next()
		spans = []proxy.Span{{Trace: trace, Id: ids.Next(), Parent: p, Timestamp: coll.Base}, {Trace: trace, Id: ids.Next(), Parent: p, Timestamp: coll.Base}}
	case 2:
		a := ids.Next()
		b := ids.Next()
		if rng.IntN(3) == 0 {
			// nothing but a cycle
			spans = []proxy.Span{{Trace: trace, Id: a, Parent: b}, {Trace: trace, Id: b, Parent: a}}
		}
	}
	for i := range spans {
		if rng.IntN(4) == 0 {
			coll.Moments(rng, &spans[i])
		}
	}
	in, _ := coll.Index(spans)
	if kind, _ := coll.Classify(in); kind == coll.NoRoot {
		g.kind = "traces.noroot"
	}
	for n := rng.IntN(4); n > 0; n-- {
		spans = append(spans, spans[rng.IntN(len(spans))])
	}
	rng.Shuffle(len(spans), func(i, k int) { spans[i], spans[k] = spans[k], spans[i] })
	at, step := start, 1+rng.IntN(800)
	g.send(spans, func(int) time.Duration {
		at += ms(rng, step)
		return at
	})
	return g
}

func star(trace proxy.Id, i int) proxy.Span {
	return coll.Star(trace, i)
}

func large(rng *rand.Rand, trace proxy.Id, start time.Duration) *group {
	g := &group{kind: "traces.toolarge"}
	var spans []proxy.Span
	n := 8193 + rng.IntN(3)*rng.IntN(3000)
	for i := 0; i < n; i++ {
		spans = append(spans, star(trace, i))
		if rng.IntN(200) == 0 {
			spans = append(spans, star(trace, rng.IntN(i+1)))
		}
	}
	g.send(spans, func(int) time.Duration { return start })
	g.from, g.to = start, start+300*time.Millisecond
	g.stragglers(rng, trace, start+400*time.Millisecond)
	return g
}

func endless(rng *rand.Rand, trace proxy.Id, start time.Duration) *group {
	g := &group{kind: "traces.tooold"}
	var spans []proxy.Span
	for i := 0; i < 7; i++ {
		spans = append(spans, star(trace, i-rng.IntN(2)*i/2))
	}
	// at 0, 6, ... 36 s
	g.send(spans, func(i int) time.Duration { return start + time.Duration(i)*6*time.Second })
	g.from, g.to = start+40*time.Second, start+40300*time.Millisecond
	g.stragglers(rng, trace, start+40500*time.Millisecond)
	return g
}

func diff(before map[string]int64) map[string]int64 {
	now := coll.Counts()
	for name := range now {
		now[name] -= before[name]
	}
	return now
}

func episode(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	ids := coll.NewIds(rng)
	var groups []*group
	// everything arrives in a few bursts
	for burst := 0; burst < 4; burst++ {
		start := time.Duration(burst)*12*time.Second + ms(rng, 2000)
		for n := rng.IntN(60); n >= 0; n-- {
			groups = append(groups, quiet(rng, ids.Next(), start+ms(rng, 1000)))
		}
		if rng.IntN(3) == 0 {
			groups = append(groups, large(rng, ids.Next(), start+ms(rng, 1000)))
		}
		for n := rng.IntN(6); n > 0; n-- {
			groups = append(groups, endless(rng, ids.Next(), start))
		}
	}

	var arrivals []coll.Arrival
	var end time.Duration
	for _, g := range groups {
		arrivals = append(arrivals, g.arrivals...)
		end = max(end, g.to)
	}
	for n := rng.IntN(30); n > 0; n-- {
		arrivals = append(arrivals, coll.Arrival{At: ms(rng, 40000), Span: proxy.Span{Trace: proxy.Id(rng.IntN(2)), Name: "invalid"}})
	}
	sort.SliceStable(arrivals, func(i, k int) bool { return arrivals[i].At < arrivals[k].At })
	end = max(end, arrivals[len(arrivals)-1].At) + 10*time.Second

	// points in time at which everything is certain
	var points []time.Duration
	next := 0
	for c := 500 * time.Millisecond; c < end; c += 50*time.Millisecond + ms(rng, 100) {
		ok := true
		for next < len(arrivals) && arrivals[next].At <= c {
			next++
		}
		if next > 0 && c-arrivals[next-1].At < 450*time.Millisecond {
			ok = false
		}
		for _, g := range groups {
			if c >= g.from-time.Millisecond && c <= g.to+450*time.Millisecond {
				ok = false
			}
		}
		if ok {
			points = append(points, c)
		}
	}
	points = append(points, end)

	before := coll.Counts()
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		next := 0
		for _, c := range points {
			for next < len(arrivals) && arrivals[next].At <= c {
				b.Until(arrivals[next].At)
				b.Send(arrivals[next].Span)
				next++
			}
			b.Until(c)
			synctest.Wait()

			want := map[string]int64{}
			for _, name := range coll.Counters {
				want[name] = 0
			}
			var traces, spans int64
			for _, g := range groups {
				if c > g.to {
					want[g.kind]++
				} else if g.first <= c {
					traces++
					for id, seen := 0, (map[proxy.Id]bool{}); id < len(g.arrivals); id++ {
						if a := g.arrivals[id]; a.At <= c && !seen[a.Span.Id] {
							seen[a.Span.Id] = true
							spans++
						}
					}
				}
				for _, at := range g.merged {
					if at <= c {
						want["spans.merged"]++
					}
				}
				for _, at := range g.black {
					if at <= c {
						want["blacklist.span.received"]++
					}
				}
			}
			got := diff(before)
			r.Eval(rep.Hash(seq, c, fmt.Sprint(want), traces, spans), len(groups) > 0)
			r.Count("points in time compared", 1)
			if traces > 0 {
				r.Count("points in time with held traces", 1)
			}
			for _, name := range coll.Counters {
				if got[name] != want[name] {
					r.Violate("counter:"+name, fmt.Sprintf("at %s, %s was counted %d times instead of %d", c, name, got[name], want[name]), map[string]any{"episode": seq, "want": want, "got": got})
				}
			}
			if g := coll.Gauge("traces.partial.count"); g != traces {
				r.Violate("gauge:traces", fmt.Sprintf("at %s, gauge says %d traces are held, but it is %d", c, g, traces), map[string]any{"episode": seq})
			}
			if g := coll.Gauge("traces.partial.span.count"); g != spans {
				r.Violate("gauge:spans", fmt.Sprintf("at %s, gauge says %d spans are held, but it is %d", c, g, spans), map[string]any{"episode": seq})
			}
			if r.Violated() {
				break
			}
		}
		var emitted int64
		for _, e := range b.Stop() {
			if len(e.Spans) > 0 {
				emitted++
			}
		}
		if got := diff(before)["traces.finished"]; got != emitted {
			r.Violate("counter:traces.finished", fmt.Sprintf("%d traces counted as finished, but %d were emitted", got, emitted), map[string]any{"episode": seq})
		}
	})
	for _, g := range groups {
		r.Count(g.kind, 1)
		r.Count("merged", len(g.merged))
		r.Count("spans after the cut", len(g.black))
	}
	if seq == 0 {
		r.Sample(fmt.Sprintf("%d groups, %d arrivals, compared at %v", len(groups), len(arrivals), points))
	}
}

// overload makes the collector discard traces.
func overload(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("overload", seq)
	coll.Verbose(r, seq)
	used := map[int]bool{}
	var sizes []int
	sum := 0
	want := 100_001 + rng.IntN(40_000)
	for sum < want {
		n := 1 + rng.IntN(6000)
		if !used[n] {
			used[n] = true
			sizes = append(sizes, n)
			sum += n
		}
	}
	before := coll.Counts()
	var emitted int64
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		time.Sleep(30 * time.Millisecond)
		merged := int64(0)
		for i, n := range sizes {
			for k := 0; k < n; k++ {
				b.Give(star(proxy.Id(i+1), k))
			}
			for k := 0; k < i%3; k++ {
				b.Give(star(proxy.Id(i+1), rng.IntN(n)))
				merged++
			}
		}
		time.Sleep(500 * time.Millisecond)
		synctest.Wait()

		all := append([]int(nil), sizes...)
		sort.Sort(sort.Reverse(sort.IntSlice(all)))
		rest := sum
		var traces, spans int64
		for _, n := range all {
			if rest >= 100_000 {
				rest -= n
				traces++
				spans += int64(n)
			}
		}
		got := diff(before)
		r.Eval(rep.Hash("overload", sum, len(sizes)), true)
		r.Count("traces.discarded", int(traces))
		w := map[string]any{"sizes": sizes, "got": got}
		if got["traces.discarded"] != traces {
			r.Violate("counter:traces.discarded", fmt.Sprintf("%d traces counted as discarded instead of %d", got["traces.discarded"], traces), w)
		}
		if got["spans.discarded"] != spans {
			r.Violate("counter:spans.discarded", fmt.Sprintf("%d spans counted as discarded instead of %d", got["spans.discarded"], spans), w)
		}
		if got["spans.merged"] != merged {
			r.Violate("counter:spans.merged", fmt.Sprintf("%d spans counted as merged instead of %d", got["spans.merged"], merged), w)
		}
		if g := coll.Gauge("traces.partial.count"); g != int64(len(sizes))-traces {
			r.Violate("gauge:traces", fmt.Sprintf("gauge says %d traces are held, but it is %d", g, int64(len(sizes))-traces), w)
		}
		if g := coll.Gauge("traces.partial.span.count"); g != int64(rest) {
			r.Violate("gauge:spans", fmt.Sprintf("gauge says %d spans are held, but it is %d", g, rest), w)
		}
		time.Sleep(20 * time.Second)
		synctest.Wait()
		got = diff(before)
		if g, s := coll.Gauge("traces.partial.count"), coll.Gauge("traces.partial.span.count"); g != 0 || s != 0 {
			r.Violate("gauge:end", fmt.Sprintf("gauges say %d traces and %d spans are held at the end", g, s), w)
		}
		for range b.Stop() {
			emitted++
		}
		if got["traces.finished"] != emitted || got["traces.finished"]+got["traces.discarded"] != int64(len(sizes)) || got["traces.noroot"]+got["traces.toolarge"]+got["traces.tooold"] != 0 {
			r.Violate("counter:sum", fmt.Sprintf("of %d traces, %d were emitted, but the counters say %v", len(sizes), emitted, got), w)
		}
	})
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C21", "bursts of traces that finish, lack a root, are too large, never end or are discarded, with duplicates and stragglers, in virtual time; all counters and gauges are compared with the reference at every point in time at which nothing is about to happen", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("points in time compared", 1000)
		r.Need("points in time with held traces", 300)
		for _, name := range []string{"traces.finished", "traces.noroot", "traces.toolarge", "traces.tooold", "traces.discarded"} {
			r.Need(name, 5)
		}
		for _, name := range coll.Counters {
			if _, ok := coll.Counts()[name]; !ok {
				r.Abort("there is no counter %s", name)
			}
		}
		for seq := 0; seq < r.N(40, 800); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			episode(t, r, seq)
		}
		for seq := 0; seq < r.N(6, 80); seq++ {
			r.Progress(fmt.Sprintf("overload %d", seq))
			overload(t, r, seq)
		}
	})
}
