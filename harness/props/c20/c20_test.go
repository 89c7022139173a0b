package c20

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

const limit = 100_000

// mood is what the traces of a run have in common
var mood func(s *proxy.Span)

func setMood(r *rep.R, rng *rand.Rand) {
	mood = nil
	switch rng.IntN(4) {
	case 0:
		key, value := gen.RealTag(rng)
		if rng.IntN(2) == 0 {
			key, value = "error", []string{"true", "1", "timeout"}[rng.IntN(3)]
		}
		mood = func(s *proxy.Span) { s.AddTag(key, value) }
		r.Count("runs with a tag in all traces", 1)
	case 1:
		name, service := gen.Text(rng), gen.Text(rng)
		mood = func(s *proxy.Span) { s.Name, s.Service = name, service }
		r.Count("runs with a name for all traces", 1)
	}
}

// star is always the same span for a trace and a number.
func star(trace proxy.Id, i int) proxy.Span {
	s := coll.Star(trace, i)
	if i%400 == 0 {
		// some have a content
		rng := rand.New(rand.NewPCG(uint64(trace), uint64(i)))
		if rng.IntN(2) == 0 {
			coll.Moments(rng, &s)
		}
		switch {
		case rng.IntN(3) > 0:
			s.AddTag(gen.RealTag(rng))
			if rng.IntN(3) == 0 {
				s.AddTag("error", "true")
			}
		default:
			coll.Vary(rng, &s)
		}
		if mood != nil {
			mood(&s)
		}
	}
	return s
}

func expected(held int) time.Duration {
	switch {
	case held >= 80_000:
		return 2 * time.Second
	case held >= 60_000:
		return 4 * time.Second
	case held >= 40_000:
		return 6 * time.Second
	}
	return 8 * time.Second
}

// load holds a number of spans for a while and measures how long a single span has to wait.
// With a trickle, other small traces arrive all the time, so that there is always something that is held.
func load(t *testing.T, r *rep.R, rng *rand.Rand, held, repeats int, trickle bool) {
	setMood(r, rng)
	r.Progress(fmt.Sprintf("load %d %t", held, trickle))
	probe := proxy.Id(-1)
	later := proxy.Id(-2)
	var sent = map[proxy.Id]time.Duration{}
	var res []coll.Emitted
	want := expected(held)
	sizes := map[proxy.Id]int{}

	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		b.Until(time.Duration(rng.IntN(100)) * time.Millisecond)

		stop, stopped := make(chan struct{}), make(chan struct{})
		pauses := rand.New(rand.NewPCG(rng.Uint64(), 1))
		go func() {
			defer close(stopped)
			for id := proxy.Id(-1000); trickle; id-- {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(100+pauses.IntN(1500)) * time.Millisecond):
					b.Send(star(id, 0))
				}
			}
		}()

		rest := held - 1
		for id := proxy.Id(1); rest > 0; id++ {
			n := min(rest, 1+rng.IntN(8192))
			if rest > 20000 {
				n = max(n, 4000)
			}
			sizes[id] = n
			for k := 0; k < repeats; k++ {
				for i := 0; i < n; i++ {
					b.Give(star(id, i))
				}
			}
			rest -= n
		}

		b.Until(time.Duration(300+rng.IntN(400)) * time.Millisecond)
		sent[probe] = b.Now()
		b.Send(star(probe, 0))

		// keep the load for as long as the span has to wait
		for b.Now() < sent[probe]+want+600*time.Millisecond {
			time.Sleep(200 * time.Millisecond)
			for id := range sizes {
				b.Send(star(id, 0))
			}
		}

		// without load
		time.Sleep(10 * time.Second)
		sent[later] = b.Now()
		b.Send(star(later, 0))
		time.Sleep(10 * time.Second)
		close(stop)
		<-stopped
		res = b.Stop()
	})

	at := map[proxy.Id]time.Duration{}
	for _, e := range res {
		if len(e.Spans) == 0 {
			continue
		}
		id := e.Spans[0].Trace
		at[id] = e.At
		if n, ok := sizes[id]; ok && n != len(e.Spans) {
			r.Violate("incomplete", fmt.Sprintf("with %d spans held, a trace of %d spans was emitted with %d spans", held, n, len(e.Spans)), nil)
		}
	}
	verify := func(id proxy.Id, what string, want time.Duration) {
		r.Eval(rep.Hash(what, held, repeats, trickle), true)
		r.Count("probes of the quiet period", 1)
		w := map[string]any{"held": held, "repeats": repeats, "trickle": trickle, "want": want.String()}
		got, ok := at[id]
		if !ok {
			r.Violate("quiet-period", fmt.Sprintf("%s with %d spans held was not emitted", what, held), w)
			return
		}
		if d := got - sent[id]; d < want || d > want+500*time.Millisecond {
			r.Violate("quiet-period", fmt.Sprintf("%s with %d spans held was emitted after %s instead of %s", what, held, d, want), w)
		}
	}
	verify(probe, "span under load", want)
	verify(later, "span after the load", 8*time.Second)
	r.Sample(fmt.Sprintf("%d spans held in %d traces: wait %s", held, len(sizes)+1, at[probe]-sent[probe]))
	for id, n := range sizes {
		if _, ok := at[id]; !ok {
			r.Violate("lost", fmt.Sprintf("with %d spans held, a trace of %d spans was discarded or lost", held, n), nil)
			break
		}
	}
}

// profile lets the load go up and down, and measures how long a span has to wait at each of the levels.
func profile(t *testing.T, r *rep.R, rng *rand.Rand, levels []int) {
	setMood(r, rng)
	r.Progress(fmt.Sprintf("profile %v", levels))
	type probe struct {
		sent  time.Duration
		level int
	}
	probes := map[proxy.Id]probe{}
	sizes := map[proxy.Id]int{}
	var released []proxy.Id // quiet long before they would have been cut off
	var res []coll.Emitted
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		b.Until(time.Duration(rng.IntN(100)) * time.Millisecond)
		type trace struct {
			id    proxy.Id
			since time.Duration
		}
		var live []trace
		next, held := proxy.Id(1), 0
		keep := func(d time.Duration) {
			for end := b.Now() + d; b.Now() < end; {
				time.Sleep(200 * time.Millisecond)
				for _, x := range live {
					b.Send(star(x.id, 0))
				}
			}
		}
		grow := func(to int) {
			for held < to {
				n := min(to-held, 500+rng.IntN(7500))
				switch rng.IntN(8) {
				case 0:
					n = 1
				case 1, 2, 3:
					n = min(to-held, 1+rng.IntN(60))
				}
				for i := 0; i < n; i++ {
					b.Give(star(next, i))
				}
				sizes[next] = n
				live = append(live, trace{next, b.Now()})
				held += n
				next++
			}
		}
		for k, level := range levels {
			if level > held {
				grow(level)
			} else {
				before := expected(held)
				rng.Shuffle(len(live), func(i, k int) { live[i], live[k] = live[k], live[i] })
				sort.SliceStable(live, func(i, k int) bool { return sizes[live[i].id] > 60 && sizes[live[k].id] <= 60 })
				// never less than that
				stay := live[:0:0]
				for _, x := range live {
					if held-sizes[x.id] < level {
						stay = append(stay, x)
						continue
					}
					if b.Now()+before+600*time.Millisecond-x.since < 5*before {
						released = append(released, x.id)
					}
					held -= sizes[x.id]
				}
				live = stay
				keep(before + 600*time.Millisecond)
			}
			keep(300 * time.Millisecond)
			want := expected(held + 1)
			if slices.ContainsFunc(live, func(x trace) bool { return b.Now()+want+time.Second-x.since > 5*want }) {
				// they would be cut off
				r.Count("profiles that took too long", 1)
				break
			}
			id := proxy.Id(-1 - k)
			probes[id] = probe{b.Now(), held + 1}
			b.Send(star(id, 0))
			keep(want + 600*time.Millisecond)
		}
		time.Sleep(10 * time.Second)
		res = b.Stop()
	})
	at := map[proxy.Id]time.Duration{}
	for _, e := range res {
		if len(e.Spans) == 0 {
			continue
		}
		id := e.Spans[0].Trace
		at[id] = e.At
		if n, ok := sizes[id]; ok && n != len(e.Spans) {
			r.Violate("incomplete", fmt.Sprintf("at levels %v, a trace of %d spans was emitted with %d spans", levels, n, len(e.Spans)), nil)
		}
	}
	for id, p := range probes {
		want := expected(p.level)
		r.Eval(rep.Hash("profile", id, p.level, fmt.Sprint(levels)), true)
		r.Count("probes at levels that follow others", 1)
		r.Distinct("levels that follow others", uint64(p.level))
		w := map[string]any{"levels": levels, "held": p.level, "want": want.String()}
		got, ok := at[id]
		if !ok {
			r.Violate("quiet-period", fmt.Sprintf("a span was not emitted with %d spans held", p.level), w)
		} else if d := got - p.sent; d < want || d > want+500*time.Millisecond {
			r.Violate("quiet-period", fmt.Sprintf("a span was emitted after %s instead of %s, with %d spans held", d, want, p.level), w)
		}
	}
	for _, id := range released {
		if _, ok := at[id]; !ok {
			r.Violate("lost", fmt.Sprintf("at levels %v, a trace of %d spans was discarded or lost", levels, sizes[id]), nil)
			break
		}
	}
}

type held struct {
	id   proxy.Id
	size int
}

// overload sends more spans than may be held in some waves, one second apart.
func overload(t *testing.T, r *rep.R, rng *rand.Rand, name string, waves [][]int) {
	setMood(r, rng)
	r.Progress("overload " + name)
	var all [][]held
	next := proxy.Id(1)
	sizes := map[proxy.Id]int{}
	total := 0
	for _, w := range waves {
		var hs []held
		for _, n := range w {
			hs = append(hs, held{next, n})
			sizes[next] = n
			next++
			total += n
		}
		rng.Shuffle(len(hs), func(i, k int) { hs[i], hs[k] = hs[k], hs[i] })
		all = append(all, hs)
	}

	var res []coll.Emitted
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		b.Until(37 * time.Millisecond)
		for k, hs := range all {
			b.Until(time.Duration(k)*time.Second + 37*time.Millisecond)
			for _, h := range hs {
				for i := 0; i < h.size; i++ {
					b.Give(star(h.id, i))
				}
			}
		}
		time.Sleep(30 * time.Second)
		res = b.Stop()
	})

	emitted := map[proxy.Id]int{}
	for _, e := range res {
		if len(e.Spans) > 0 {
			id := e.Spans[0].Trace
			emitted[id]++
			if emitted[id] > 1 || len(e.Spans) != sizes[id] {
				r.Violate("torn", fmt.Sprintf("trace of %d spans was emitted with %d spans", sizes[id], len(e.Spans)), map[string]any{"run": name, "waves": waves})
			}
		}
	}

	// Every wave is judged on its own: what was held before, and what is left of it.
	r.Eval(rep.Hash(fmt.Sprint(waves)), total > limit)
	var holding []held
	for k, hs := range all {
		for _, h := range hs {
			if h.size <= 8192 {
				holding = append(holding, h)
			}
		}
		sum := 0
		for _, h := range holding {
			sum += h.size
		}
		if sum <= limit {
			continue
		}
		r.Count("overloads", 1)

		// those that did not survive this wave are not known for certain if there are more waves, but the reference
		// has a unique answer as all sizes are different.
		sort.Slice(holding, func(i, j int) bool { return holding[i].size > holding[j].size })
		drop := 0
		for sum >= limit {
			sum -= holding[drop].size
			drop++
		}
		for _, h := range holding[:drop] {
			r.Count("traces to be discarded", 1)
			if emitted[h.id] > 0 {
				r.Violate("kept", fmt.Sprintf("wave %d: a trace of %d spans was emitted, although it had to be discarded", k, h.size), map[string]any{"run": name, "waves": waves})
			}
		}
		holding = append([]held(nil), holding[drop:]...)
	}
	for _, h := range holding {
		r.Count("traces to survive", 1)
		if emitted[h.id] != 1 {
			r.Violate("discarded", fmt.Sprintf("a trace of %d spans was not emitted, although larger ones were enough to get below the limit", h.size), map[string]any{"run": name, "waves": waves})
		}
	}
}

// tied sends very many traces of a few sizes at once: which ones of the same size survive is open, but not how many.
func tied(t *testing.T, r *rep.R, rng *rand.Rand, counts map[int]int) {
	setMood(r, rng)
	name := fmt.Sprint("tied ", counts)
	r.Progress(name)
	var hs []held
	for size, n := range counts {
		for ; n > 0; n-- {
			hs = append(hs, held{size: size})
		}
	}
	sort.Slice(hs, func(i, k int) bool { return hs[i].size < hs[k].size })
	rng.Shuffle(len(hs), func(i, k int) { hs[i], hs[k] = hs[k], hs[i] })
	sum := 0
	for i := range hs {
		hs[i].id = proxy.Id(i + 1)
		sum += hs[i].size
	}

	var res []coll.Emitted
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		b.Until(37 * time.Millisecond)
		for _, h := range hs {
			for i := 0; i < h.size; i++ {
				b.Give(star(h.id, i))
			}
		}
		time.Sleep(30 * time.Second)
		res = b.Stop()
	})

	got := map[int]int{}
	for _, e := range res {
		if len(e.Spans) == 0 || hs[e.Spans[0].Trace-1].size != len(e.Spans) {
			r.Violate("torn", fmt.Sprintf("a trace was emitted with %d spans", len(e.Spans)), name)
			continue
		}
		got[len(e.Spans)]++
	}
	want := maps.Clone(counts)
	sizes := slices.Sorted(maps.Keys(counts))
	slices.Reverse(sizes)
	for _, size := range sizes {
		for sum >= limit && want[size] > 0 {
			want[size]--
			sum -= size
			r.Count("traces to be discarded", 1)
		}
	}
	r.Count("overloads with many equal traces", 1)
	r.Eval(rep.Hash(name), true)
	for size, n := range want {
		r.Count("traces to survive", n)
		if got[size] != n {
			r.Violate("tied", fmt.Sprintf("of %d traces of %d spans %d were emitted instead of %d", counts[size], size, got[size], n), name)
		}
	}
}

// distinct returns different sizes with the given sum.
func distinct(rng *rand.Rand, used map[int]bool, sum, most int) []int {
	var res []int
	for sum > 0 {
		n := 1 + rng.IntN(min(most, sum))
		if rng.IntN(3) == 0 {
			n = 1 + rng.IntN(min(50, sum))
		}
		if sum <= most && !used[sum] && rng.IntN(2) == 0 {
			n = sum
		}
		if used[n] {
			if sum <= 3 {
				// give up, it is a little less
				return res
			}
			continue
		}
		used[n] = true
		res = append(res, n)
		sum -= n
	}
	return res
}

func sumOf(ns []int) (s int) {
	for _, n := range ns {
		s += n
	}
	return s
}

// exact makes sizes whose sum is exact.
func exact(rng *rand.Rand, sum int) []int {
	for {
		if ns := distinct(rng, map[int]bool{}, sum, 8192); sumOf(ns) == sum {
			return ns
		}
	}
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C20", "in virtual time: (1) a number of spans around every threshold is held (also reported several times) while a single span is sent and its delay measured, during and after the load, also while other small traces never cease; (2) waves of traces with different sizes exceed 100 000 spans, and what survives is compared with the largest-first reference, also with up to 120 000 traces of the same sizes; distinct by load or waves", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("probes of the quiet period", 20)
		r.Need("probes at levels that follow others", 12)
		r.Need("overloads", 20)
		r.Need("traces to be discarded", 20)
		r.Need("traces to survive", 100)
		r.Need("overloads with many equal traces", 3)

		for round := 0; round < r.N(1, 10); round++ {
			rng := r.Rand("tied", round)
			tied(t, r, rng, map[int]int{1: limit + 1000 + rng.IntN(20_000)})
			tied(t, r, rng, map[int]int{1: limit + 1000*(1+rng.IntN(9))})
			tied(t, r, rng, map[int]int{1: 30_000 + rng.IntN(1000), 2: 20_000 + rng.IntN(1000), 3: 15_000 + rng.IntN(1000)})
			tied(t, r, rng, map[int]int{1: limit - 8000, 100: 30 + rng.IntN(30), 8192: 1 + rng.IntN(3)})
		}

		loads := []int{1, 100, 20_000, 39_999, 40_000, 41_000, 59_999, 60_000, 70_000, 79_999, 80_000, 99_999, 100_000}
		for round := 0; round < r.N(1, 10); round++ {
			for _, n := range loads {
				load(t, r, r.Rand("load", round, n), n, 1, false)
			}
			load(t, r, r.Rand("repeated", round), 39_999, 3, false)
			load(t, r, r.Rand("repeated", round, 1), 61_000, 2, false)
			for _, n := range []int{10_000, 45_000, 70_000, 90_000} {
				load(t, r, r.Rand("trickle", round, n), n, 1, true)
			}
			for k := 0; k < 4; k++ {
				rng := r.Rand("any", round, k)
				load(t, r, rng, 1+rng.IntN(100_000), 1, false)
			}
		}

		for seq := 0; seq < r.N(10, 150); seq++ {
			rng := r.Rand("profile", seq)
			level := func(above bool) int {
				at := []int{40_000, 60_000, 80_000}[rng.IntN(3)]
				d := 1 + rng.IntN(8000)
				switch {
				case rng.IntN(4) == 0:
					return 1000 + rng.IntN(98_000)
				case above:
					return at + d - 1
				}
				return at - d
			}
			first := level(true)
			if seq%2 == 0 {
				// down by one step
				at := []int{40_000, 60_000, 80_000}[seq/2%3]
				profile(t, r, rng, []int{at + rng.IntN(8000), at - 1 - rng.IntN(8000), level(false)})
				continue
			}
			profile(t, r, rng, []int{first, level(false), level(rng.IntN(2) == 0)})
		}

		for round := 0; round < r.N(1, 5); round++ {
			saturate(r, 500, 6*time.Second)
		}

		for seq := 0; seq < r.N(24, 400); seq++ {
			rng := r.Rand("overload", seq)
			used := map[int]bool{}
			var waves [][]int
			switch seq % 6 {
			case 0:
				waves = [][]int{exact(rng, limit+1)}
			case 1:
				waves = [][]int{exact(rng, limit)}
			case 2:
				waves = [][]int{distinct(rng, used, limit+1+rng.IntN(60_000), 8192)}
			case 3:
				waves = [][]int{distinct(rng, used, 90_000, 8192), distinct(rng, used, 40_000, 2000+rng.IntN(6000))}
			case 4:
				// too large ones are not counted, they are cut off anyway
				waves = [][]int{append(distinct(rng, used, 99_000, 8192), 9000, 20000)}
			case 5:
				waves = [][]int{distinct(rng, used, 120_000, 3000), distinct(rng, used, 60_000, 8192)}
			}
			sum := 0
			for _, w := range waves {
				sum += sumOf(w)
			}
			if seq%6 == 4 {
				r.Progress("too large")
				overloadWithTooLarge(t, r, rng, waves)
				continue
			}
			overload(t, r, rng, fmt.Sprint(seq), waves)
		}
	})
}

// saturate lets several goroutines hand over small traces as fast as the collector takes them, for seconds of real
// time. What is held must not grow with what arrives.
func saturate(r *rep.R, senders int, for_ time.Duration) {
	r.Progress("saturation")
	in, out := make(chan proxy.Span, 256), make(chan proxy.Trace, 64)
	finished := make(chan struct{})
	go func() {
		zipkinproxy.ErrorCorrectSpans(in, out)
		close(out)
	}()
	var sent, gone atomic.Int64
	go func() {
		for trace := range out {
			gone.Add(int64(len(trace)))
		}
		close(finished)
	}()

	before := coll.Counts()["spans.discarded"]
	stop := time.Now().Add(for_)
	var wg sync.WaitGroup
	var most, reached atomic.Int64
	for k := range senders {
		wg.Go(func() {
			for id := proxy.Id(1 + k); time.Now().Before(stop) && reached.Load() == 0; id += proxy.Id(senders) * 20 {
				for i := range 20 {
					trace := id + proxy.Id(senders*i)
					in <- proxy.Span{Trace: trace, Id: trace, Parent: trace, Timestamp: coll.Base}
				}
				n := sent.Add(20)
				if n%20_000 < 20 {
					held := n - gone.Load() - (coll.Counts()["spans.discarded"] - before)
					for m := most.Load(); held > m && !most.CompareAndSwap(m, held); m = most.Load() {
					}
					// there is a look at the traces ten times a second
					if held > 8*limit {
						reached.Store(held)
					}
				}
			}
		})
	}
	wg.Wait()
	close(in)
	<-finished
	r.Eval(rep.Hash("saturation", senders), true)
	r.Count("spans in saturation", int(sent.Load()))
	r.Count("most spans held in saturation", int(most.Load()))
	if n := reached.Load(); n > 0 {
		r.Violate("saturation", fmt.Sprintf("%d spans are held, after %d spans that arrived without a pause", n, sent.Load()), map[string]any{"senders": senders})
	}
}

// overloadWithTooLarge verifies that traces that are cut off do not push out others.
func overloadWithTooLarge(t *testing.T, r *rep.R, rng *rand.Rand, waves [][]int) {
	setMood(r, rng)
	var res []coll.Emitted
	rep.Bubble(t, func(t *testing.T) {
		b := coll.Start(0, 0)
		b.Until(37 * time.Millisecond)
		for _, i := range rng.Perm(len(waves[0])) {
			for k := 0; k < waves[0][i]; k++ {
				b.Give(star(proxy.Id(i+1), k))
			}
		}
		time.Sleep(30 * time.Second)
		res = b.Stop()
	})
	emitted := map[proxy.Id]int{}
	for _, e := range res {
		if len(e.Spans) > 0 {
			emitted[e.Spans[0].Trace] = len(e.Spans)
		}
	}
	r.Eval(rep.Hash(fmt.Sprint(waves)), true)
	for i, n := range waves[0] {
		if n <= 8192 {
			r.Count("traces to survive", 1)
			if emitted[proxy.Id(i+1)] != n {
				r.Violate("discarded", fmt.Sprintf("a trace of %d spans was emitted with %d spans, although only traces to be cut off exceeded the limit", n, emitted[proxy.Id(i+1)]), waves)
			}
		}
	}
}
