package c19

import (
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// plan is what is sent for one trace, and what may come out.
type plan struct {
	trace    proxy.Id
	what     string
	arrivals []coll.Arrival
	cut      bool // never to be seen
	rootless bool // another span will stand for the root
	late     int  // spans sent after it was cut off
	ids      map[proxy.Id]bool
	last     time.Duration
}

func (p *plan) add(at time.Duration, s proxy.Span) {
	p.arrivals = append(p.arrivals, coll.Arrival{At: at, Span: s})
	p.ids[s.Id] = true
	p.last = max(p.last, at)
}

// star returns span number i of a trace whose spans are all children of number 0.
func star(trace proxy.Id, i int) proxy.Span {
	s := coll.Star(trace, i)
	s.Name = fmt.Sprintf("%s-%d", trace, i)
	if uint64(trace)%3 > 0 && (i < 20 || i%100 == 0) {
		// what is known about it does not matter
		rng := rand.New(rand.NewPCG(uint64(trace), uint64(i)))
		if rng.IntN(2) == 0 {
			coll.Moments(rng, &s)
		}
		if uint64(trace)%3 == 1 {
			s.AddTag(gen.RealTag(rng))
			coll.Vary(rng, &s)
		}
	}
	return s
}

func newPlan(trace proxy.Id, what string, cut bool) *plan {
	return &plan{trace: trace, what: what, cut: cut, ids: map[proxy.Id]bool{}}
}

// stragglers sends more spans after the trace was cut off.
func (p *plan) stragglers(rng *rand.Rand, n int, from time.Duration, much bool) {
	at := from
	for k := 0; k < 1+rng.IntN(4); k++ {
		for i := 0; i < 1+rng.IntN(3); i++ {
			p.add(at, star(p.trace, n))
			n++
			p.late++
		}
		at += time.Duration(rng.IntN(25_000)) * time.Millisecond
	}
	if much {
		// there is no time after which a trace may come back
		for _, later := range []time.Duration{time.Minute, 10 * time.Minute, 3 * time.Hour} {
			at += time.Duration(rng.Int64N(int64(later)))
			p.add(at, star(p.trace, n))
			n++
			p.late++
		}
	}
}

// large gets more spans than allowed
func large(rng *rand.Rand, trace proxy.Id, n int) *plan {
	p := newPlan(trace, fmt.Sprintf("%d spans", n), true)
	start := time.Duration(rng.IntN(3000)) * time.Millisecond
	at := start
	style := rng.IntN(4)
	for i := 0; i < n; i++ {
		switch style {
		case 1: // the last one comes late
			if i == 8192 {
				at += time.Duration(rng.IntN(7900)) * time.Millisecond
			}
		case 2:
			if i%2000 == 1999 {
				at += time.Duration(rng.IntN(1000)) * time.Millisecond
			}
		case 3: // in pieces smaller than the time between two looks
			if i%700 == 699 {
				at += time.Duration(rng.IntN(30)) * time.Millisecond
			}
		}
		p.add(at, star(trace, i))
		if rng.IntN(10) == 0 && n < 20000 {
			p.add(at, star(trace, rng.IntN(i+1)))
		}
	}
	p.stragglers(rng, n, at+time.Duration(150+rng.IntN(20_000))*time.Millisecond, rng.IntN(3) == 0)
	p.what += fmt.Sprintf(", style %d", style)
	return p
}

// endless never goes quiet until five quiet periods have passed.
func endless(rng *rand.Rand, trace proxy.Id, more, much bool) *plan {
	p := newPlan(trace, "endless", true)
	start := time.Duration(rng.IntN(3000)) * time.Millisecond
	at := start
	n := 0
	gap := []int{500, 3000, 7900}[rng.IntN(3)]
	for {
		p.add(at, star(trace, n))
		n++
		next := at + time.Duration(gap/2+rng.IntN(gap/2))*time.Millisecond
		if next-start > 39500*time.Millisecond {
			break
		}
		at = next
	}
	if at-start < 33*time.Second {
		at = start + 33*time.Second + time.Duration(rng.IntN(500))*time.Millisecond
		p.add(at, star(trace, n))
		n++
	}
	p.what += fmt.Sprintf(", gap up to %d ms, last after %s", gap, at-start)
	if more {
		p.stragglers(rng, n, start+40500*time.Millisecond+time.Duration(rng.IntN(20_000))*time.Millisecond, much)
	} else {
		// or it just goes on
		for t := start + 40*time.Second; t < start+70*time.Second; t += time.Duration(1+rng.IntN(7000)) * time.Millisecond {
			p.add(t, star(trace, n))
			p.late++
			n++
		}
	}
	return p
}

// within stays within all the limits
func within(rng *rand.Rand, trace proxy.Id, n int, dups int) *plan {
	p := newPlan(trace, fmt.Sprintf("%d spans with %d duplicates", n, dups), false)
	first := 0
	if rng.IntN(3) == 0 {
		// the root is missing
		first = 1
		p.rootless = true
		p.what += " without root"
	}
	at := time.Duration(rng.IntN(3000)) * time.Millisecond
	start := at
	pause := rng.IntN(3)
	order := make([]int, n)
	for i := range order {
		order[i] = first + i
	}
	if rng.IntN(2) == 0 {
		rng.Shuffle(n, func(i, k int) { order[i], order[k] = order[k], order[i] })
	}
	for k, i := range order {
		p.add(at, star(trace, i))
		for dups > 0 && rng.IntN(n) < dups/(n-k)+1 {
			p.add(at, star(trace, order[rng.IntN(k+1)]))
			dups--
		}
		if pause > 0 && rng.IntN(1+n/6) == 0 {
			if step := time.Duration(rng.IntN(7900)) * time.Millisecond; at+step-start < 31*time.Second {
				at += step
			}
		}
	}
	return p
}

func play(t *testing.T, r *rep.R, name string, plans []*plan) {
	r.Progress(name)
	var arrivals []coll.Arrival
	byTrace := map[proxy.Id]*plan{}
	var end time.Duration
	for _, p := range plans {
		arrivals = append(arrivals, p.arrivals...)
		byTrace[p.trace] = p
		end = max(end, p.last)
	}

	seen := map[proxy.Id][]coll.Emitted{}
	for _, e := range coll.Run(t, arrivals, end+60*time.Second, 0) {
		if len(e.Spans) > 0 {
			seen[e.Spans[0].Trace] = append(seen[e.Spans[0].Trace], e)
		}
	}
	for _, p := range plans {
		r.Eval(rep.Hash(p.what), true)
		out := seen[p.trace]
		desc := fmt.Sprintf("trace %s (%s)", p.trace, p.what)
		var witness []string
		for _, e := range out {
			witness = append(witness, fmt.Sprintf("emitted at %s with %d spans", e.At, len(e.Spans)))
		}
		if p.cut {
			r.Count("traces to be cut off", 1)
			r.Count("spans sent after the cut", p.late)
			if len(out) > 0 {
				sig := "cut-emitted"
				r.Violate(sig, desc+" had to be cut off, but was emitted", map[string]any{"run": name, "emitted": witness, "lastArrival": p.last.String()})
			}
			continue
		}
		r.Count("traces within the limits", 1)
		r.Count("spans of traces within the limits", len(p.ids))
		if len(out) != 1 {
			r.Violate("within", fmt.Sprintf("%s is within the limits, but was emitted %d times", desc, len(out)), map[string]any{"run": name, "emitted": witness})
			continue
		}
		got, dup := coll.Index(out[0].Spans)
		want := len(p.ids)
		if p.rootless && want > 1 {
			want++
			r.Count("traces within the limits without root", 1)
		}
		for id := range p.ids {
			if _, ok := got[id]; !ok && dup == "" {
				dup = fmt.Sprintf("(span %s is missing)", id)
			}
		}
		if dup != "" || len(got) != want {
			r.Violate("within", fmt.Sprintf("%s was emitted with %d of %d spans %s", desc, len(got), len(p.ids), dup), map[string]any{"run": name})
		}
	}
}

// underLoad holds so many spans that the quiet period is shorter, and with it the time after which a trace is cut off.
func underLoad(t *testing.T, r *rep.R, rng *rand.Rand, held int, quiet time.Duration) {
	r.Progress(fmt.Sprintf("under load of %d", held))
	ids := coll.NewIds(rng)
	var arrivals []coll.Arrival
	sizes := map[proxy.Id]int{}

	// there is always as much as arrives within a quiet period
	end := 7*quiet + 15*time.Second
	perSlice := held / int(quiet/(100*time.Millisecond))
	for at := time.Duration(0); at < end; at += 100 * time.Millisecond {
		for rest := perSlice; rest > 0; {
			n := min(rest, 50+rng.IntN(400))
			rest -= n
			id := ids.Next()
			sizes[id] = n
			for i := range n {
				arrivals = append(arrivals, coll.Arrival{At: at, Span: star(id, i)})
			}
		}
	}

	begin := 10 * time.Second // when the load is there
	cut := map[proxy.Id]bool{}
	for range 30 {
		id := ids.Next()
		n := 0
		at := begin + time.Duration(rng.IntN(1000))*time.Millisecond
		stop := at + 5*quiet + time.Duration(300+rng.Int64N(int64(quiet)/1e6))*time.Millisecond
		if cut[id] = rng.IntN(2) == 0; !cut[id] {
			stop = at + 3*quiet + time.Duration(rng.Int64N(int64(quiet)/1e6))*time.Millisecond - 500*time.Millisecond
		}
		for at < stop {
			arrivals = append(arrivals, coll.Arrival{At: at, Span: star(id, n)})
			n++
			at += quiet/4 + time.Duration(rng.Int64N(int64(quiet)/2))
		}
		if cut[id] {
			arrivals = append(arrivals, coll.Arrival{At: stop, Span: star(id, n)})
			n++
		}
		sizes[id] = n
	}

	emitted := map[proxy.Id][]coll.Emitted{}
	for _, e := range coll.Run(t, arrivals, 20*time.Second, 0) {
		if len(e.Spans) > 0 {
			emitted[e.Spans[0].Trace] = append(emitted[e.Spans[0].Trace], e)
		}
	}
	for id, n := range sizes {
		out := emitted[id]
		c, probe := cut[id]
		r.Eval(rep.Hash("load", held, n, c, probe), probe)
		switch {
		case c:
			r.Count("traces cut off under load", 1)
			if len(out) > 0 {
				r.Violate("cut-emitted", fmt.Sprintf("trace %s was not quiet for five quiet periods (of %s, with about %d spans held), but was emitted at %s", id, quiet, held, out[0].At), map[string]any{"held": held})
			}
		case len(out) != 1 || len(out[0].Spans) != n:
			what := fmt.Sprintf("trace %s of %d spans, with about %d spans held, was emitted %d times", id, n, held, len(out))
			if len(out) > 0 {
				what += fmt.Sprintf(" with %d spans", len(out[0].Spans))
			}
			r.Violate("within", what, map[string]any{"held": held, "probe": probe})
		case probe:
			r.Count("traces within the limits under load", 1)
		}
	}
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C19", "traces with 8193 to 131 073 (thorough: 140 000) spans in bursts and pieces, traces that never go quiet for 40 s, a thousand traces cut off at the same time, all followed by stragglers (for up to hours), next to traces of up to 8192 spans (with duplicates) and 31 s, in virtual time; distinct by kind, size and style", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("spans sent after the cut", 2000)
		r.Need("traces within the limits", 300)
		r.Need("traces cut off under load", 20)
		r.Need("traces within the limits under load", 20)
		r.Need("traces within the limits without root", 50)

		small := func(rng *rand.Rand, ids *coll.Ids, n int) (res []*plan) {
			for ; n > 0; n-- {
				res = append(res, within(rng, ids.Next(), 1+rng.IntN(30), rng.IntN(20)))
			}
			return res
		}

		// keeping the spans sorted may take a time that is quadratic in the size
		sizes := []int{8193, 8194, 9000, 16384, 16385, 32768, 32769, 65535, 65536, 65537, 131073}
		if r.Thorough {
			sizes = append(sizes, 10000, 32767, 40000, 70000, 73728, 131072, 140000)
		}
		for round := 0; round < r.N(1, 3); round++ {
			for i, n := range sizes {
				rng := r.Rand("large", round, i)
				ids := coll.NewIds(rng)
				plans := append(small(rng, ids, 10), large(rng, ids.Next(), n))
				play(t, r, fmt.Sprintf("large %d", n), plans)
			}
		}
		for seq := 0; seq < r.N(12, 60); seq++ {
			rng := r.Rand("limit", seq)
			ids := coll.NewIds(rng)
			n := []int{8192, 8191, 8192, 8192, 4097, 8000}[seq%6]
			plans := append(small(rng, ids, 10), within(rng, ids.Next(), n, []int{0, 0, 500, 9000, 9000, 60000}[seq%6]))
			plans = append(plans, large(rng, ids.Next(), 8193+rng.IntN(10)))
			play(t, r, fmt.Sprintf("limit %d", n), plans)
		}
		for seq := 0; seq < r.N(20, 400); seq++ {
			rng := r.Rand("endless", seq)
			ids := coll.NewIds(rng)
			plans := small(rng, ids, 20)
			for i := 0; i < 40; i++ {
				plans = append(plans, endless(rng, ids.Next(), rng.IntN(3) > 0, seq%5 == 0))
			}
			play(t, r, "endless", plans)
		}

		for round := 0; round < r.N(1, 10); round++ {
			for i, held := range []int{50_000, 70_000, 90_000} {
				underLoad(t, r, r.Rand("load", round, i), held, []time.Duration{6, 4, 2}[i]*time.Second)
			}
		}

		// a collector that runs for days, with some traces cut off at any time
		for seq := 0; seq < r.N(1, 4); seq++ {
			rng := r.Rand("days", seq)
			ids := coll.NewIds(rng)
			plans := small(rng, ids, 20)
			runs := r.N(60, 240) * 3600
			for i := 0; i < 900; i++ {
				p := newPlan(ids.Next(), "one of many endless traces within days", true)
				start := time.Duration(rng.IntN(runs)) * time.Second
				n := 0
				for at := start; at <= start+36*time.Second; at += 6 * time.Second {
					p.add(at, star(p.trace, n))
					n++
				}
				at := start + 41*time.Second
				for _, pause := range []time.Duration{time.Second, 10 * time.Second, time.Minute, time.Hour, 6 * time.Hour, 30 * time.Hour} {
					at += time.Duration(rng.Int64N(int64(pause)))
					p.add(at, star(p.trace, n))
					p.late++
					n++
				}
				plans = append(plans, p)
			}
			for i := 0; i < 200; i++ {
				p := within(rng, ids.Next(), 1+rng.IntN(10), 0)
				shift := time.Duration(rng.IntN(runs)) * time.Second
				p.last += shift
				for k := range p.arrivals {
					p.arrivals[k].At += shift
				}
				plans = append(plans, p)
			}
			play(t, r, "days", plans)
			r.Count("hours of a collector", runs/3600)
		}

		// as many traces as have to be remembered
		for seq := 0; seq < r.N(2, 20); seq++ {
			rng := r.Rand("many", seq)
			ids := coll.NewIds(rng)
			plans := small(rng, ids, 20)
			for i := 0; i < 1000; i++ {
				p := newPlan(ids.Next(), "one of 1000 endless traces", true)
				start := time.Duration(0)
				if seq%2 == 1 {
					start = time.Duration(rng.IntN(20_000)) * time.Millisecond
				}
				n := 0
				for at := start; at <= start+36*time.Second; at += 6 * time.Second {
					p.add(at, star(p.trace, n))
					n++
				}
				p.stragglers(rng, n, start+41*time.Second+time.Duration(rng.IntN(60_000))*time.Millisecond, false)
				plans = append(plans, p)
			}
			play(t, r, "thousand", plans)
		}
		r.Sample("1000 endless traces at the same time, followed by stragglers for up to two minutes")
	})
}
