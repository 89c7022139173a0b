package c26

import (
	"fmt"
	"maps"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

func copied(s proxy.Span) proxy.Span {
	s.Tags = maps.Clone(s.Tags)
	return s
}

// direct runs the forwarder in virtual time with outputs that are read at different speeds.
func direct(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("direct", seq)
	ids := svc.NewIds(r.Rand("direct ids", seq))
	fail := func(sig, format string, args ...any) {
		r.Violate(sig, fmt.Sprintf(format, args...), map[string]any{"run": seq})
	}

	var input []proxy.Trace
	for i := 1 + rng.IntN(600); i > 0; i-- {
		n := 1 + rng.IntN(6)
		if rng.IntN(60) == 0 {
			n = rng.IntN(400)
		}
		if i == 1 && seq%2 == 0 {
			n = gen.Size(rng, 400, 8193)
			r.Count("direct: large traces", 1)
			r.Distinct("direct: sizes of large traces", uint64(n))
		}
		var tr proxy.Trace
		for _, s := range trace(rng, ids, n) {
			switch rng.IntN(20) {
			case 0:
				// as the collector makes it
				s.Name, s.Service, s.Tags = "fake-root", "fake-root", nil
			case 1:
				s.Tags = nil
			case 2:
				s.Name, s.Service = gen.Text(rng), gen.Text(rng)
			case 3:
				k := gen.Text(rng)
				if k != "do" {
					s.Tags[k] = gen.Text(rng)
				}
			}
			tr = append(tr, proxy.Span{Trace: s.Trace, Id: s.Id, Parent: s.Parent, Name: s.Name, Service: s.Service,
				Timestamp: proxy.Microseconds(s.Start), Duration: time.Duration(s.Duration) * time.Microsecond, Tags: s.Tags})
		}
		input = append(input, tr)
	}

	// what is to be passed on
	// a converter may need its time for some of the spans
	takes := func() time.Duration { return 0 }
	if seq%3 == 1 {
		often, crng := 1+rng.IntN(200), r.Rand("direct converter", seq)
		r.Count("direct: runs with a slow converter", 1)
		takes = func() time.Duration {
			if crng.IntN(often) > 0 {
				return 0
			}
			if d, ok := dict.Get().Duration(crng, time.Millisecond, time.Hour); ok && crng.IntN(2) == 0 {
				return d + d/10
			}
			return time.Duration(gen.Size(crng, 1, 100_000)) * time.Millisecond
		}
	}

	var mu sync.Mutex
	calls := map[agent.Key]int{}
	want := map[agent.Key]proxy.Span{}
	for _, tr := range input {
		shape := ""
		for _, s := range tr {
			out, err, what := convert(copied(s))
			shape += what[:1]
			if err == nil && out.Id != 0 && out.Trace != 0 {
				want[agent.Key{Trace: out.Trace, Id: out.Id}] = copied(out)
			}
		}
		r.Eval(rep.Hash("direct", shape), len(tr) > 1)
	}

	outputs := 1 + rng.IntN(3)
	received := make([][]proxy.Trace, outputs)
	copies := make([][]proxy.Trace, outputs)
	rep.Bubble(t, func(t *testing.T) {
		source := make(chan proxy.Trace, rng.IntN(2)*rng.IntN(100))
		var targets []chan<- proxy.Trace
		var readers sync.WaitGroup
		var all []chan proxy.Trace
		for k := 0; k < outputs; k++ {
			target := make(chan proxy.Trace, []int{0, 1, 2, 16, 256, 1000}[rng.IntN(6)])
			targets, all = append(targets, target), append(all, target)
			// pauses between the reads, and some long ones
			pause, long := time.Duration(rng.IntN(3)*rng.IntN(40))*time.Millisecond, 1+rng.IntN(300)
			readers.Add(1)
			go func() {
				defer readers.Done()
				count := 0
				for tr := range target {
					received[k] = append(received[k], tr)
					var c proxy.Trace
					for _, s := range tr {
						c = append(c, copied(s))
					}
					copies[k] = append(copies[k], c)
					time.Sleep(pause)
					if count++; count%long == 0 {
						time.Sleep(3 * time.Minute)
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			forward(source, targets, func(in proxy.Span) (proxy.Span, error) {
				mu.Lock()
				calls[agent.Key{Trace: in.Trace, Id: in.Id}]++
				pause := takes()
				mu.Unlock()
				time.Sleep(pause)
				out, err, _ := convert(in)
				return out, err
			})
		}()
		total := map[agent.Key]bool{}
		for _, tr := range input {
			var c proxy.Trace
			for _, s := range tr {
				total[agent.Key{Trace: s.Trace, Id: s.Id}] = true
				c = append(c, copied(s))
			}
			source <- c
		}
		close(source)
		<-done
		for _, target := range all {
			close(target)
		}
		readers.Wait()

		for k := range total {
			if calls[k] != 1 {
				fail("calls", "the converter was called %d times for a span", calls[k])
			}
		}
		r.Count("direct: converter calls", len(calls))
	})

	r.Count("direct: runs", 1)
	for k := range received {
		got := map[agent.Key]int{}
		for i, tr := range received[k] {
			if len(tr) != len(copies[k][i]) {
				fail("output-changed", "a trace was changed after it had been passed on")
				continue
			}
			for j, s := range tr {
				key := agent.Key{Trace: s.Trace, Id: s.Id}
				if got[key]++; got[key] > 1 {
					fail("output-count", "output %d of %d got a span more than once", k+1, outputs)
				}
				if d := diff(s, copies[k][i][j]); d != "" {
					fail("output-changed", "a span was changed after it had been passed on: %s", d)
				}
				in, ok := want[key]
				if !ok {
					fail("output-unexpected", "output %d of %d got a span that was rejected or changed: %+v", k+1, outputs, s)
				} else if d := diff(s, in); d != "" {
					fail("output-content", "output %d of %d got a span with %s", k+1, outputs, d)
				}
			}
		}
		r.Count("direct: spans received by outputs", len(got))
		if len(got) < len(want) {
			fail("output-missing", "output %d of %d got only %d of %d spans", k+1, outputs, len(got), len(want))
		}
	}
}
