package c24

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
	"verif/harness/lib/sink"
)

type batch struct {
	at        time.Duration
	spans     map[uint64]bool // ids
	delivered int
	stalled   bool // the agent did not respond at that time
	pending   int  // number of earlier batches not yet taken by the agent
}

// span returns a span with the ids and any other content.
func span(rng *rand.Rand, trace, id proxy.Id) proxy.Span {
	s := proxy.Span{Trace: trace, Id: id, Parent: trace, Name: "n", Service: "s", Timestamp: coll.Base, Duration: 1e6}
	switch rng.IntN(14) {
	case 12, 13:
		s.AddTag(gen.RealTag(rng))
	case 0, 1:
		s.AddTag("error", []string{"true", "false", "500", ""}[rng.IntN(4)])
	case 2:
		s.AddTag(gen.Text(rng), gen.Text(rng))
	case 3:
		s.Service = gen.Text(rng)
	case 4:
		s.Name = gen.Text(rng)
	case 5:
		s.Timestamp += proxy.Timestamp(rng.Int64N(1e15) - 5e14)
	case 6:
		s.Duration = time.Duration(rng.Int64N(1e15) - 5e14)
	case 7:
		s.Parent = id
	case 8:
		s.Parent = 0
	}
	return s
}

// most is the largest queue that we call bounded
const most = 64

func episode(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	nextId := proxy.Id(1)
	var batches []*batch
	owner := map[uint64]int{} // span id to number of the batch
	var log []string
	note := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }
	fail := func(sig, format string, args ...any) {
		r.Violate(sig, fmt.Sprintf(format, args...), map[string]any{"episode": seq, "log": log[max(0, len(log)-60):]})
	}

	rep.Bubble(t, func(t *testing.T) {
		stalled := false
		var release chan struct{}
		failing := false
		b := sink.Start(func(int) error {
			// everything is changed by the test, while the sink is waiting
			if stalled {
				<-release
			}
			if failing {
				return sink.ErrAgent
			}
			return nil
		})

		hand := func(n int) {
			id := proxy.Id(rng.Uint64() | 1)
			var trace proxy.Trace
			for i := 0; i < n; i++ {
				trace = append(trace, span(rng, id, nextId))
				last := batches[len(batches)-1]
				last.spans[uint64(nextId)] = true
				owner[uint64(nextId)] = len(batches) - 1
				nextId++
			}
			if d := b.Hand(trace); d > 0 {
				fail("blocked", "the sink took a trace only after %s", d)
			}
			r.Count("traces handed over", 1)
			if stalled {
				r.Count("traces handed over during a stall", 1)
			}
			synctest.Wait()
		}
		taken := 0 // distinct batches the agent has seen
		accounted := 0
		seen := map[int]bool{}
		account := func() {
			subs := b.Submissions()
			for ; accounted < len(subs); accounted++ {
				sub := subs[accounted]
				for _, list := range sub.Traces {
					for _, s := range list {
						if k, ok := owner[s.SpanID]; ok {
							seen[k] = true
						}
					}
				}
			}
			taken = len(seen)
		}

		// a batch that goes out because of its size, or because of time
		kept := 0
		one := func() {
			account()
			nb := &batch{at: b.Now(), spans: map[uint64]bool{}, stalled: stalled}
			nb.pending = kept - taken
			batches = append(batches, nb)
			if rng.IntN(4) > 0 {
				parts := 1 + rng.IntN(4)
				for i := 0; i < parts; i++ {
					n := 1000 / parts
					if i == parts-1 {
						n = 1000 - (parts-1)*n + rng.IntN(50)
					}
					hand(n)
				}
			} else {
				for i := 1 + rng.IntN(3); i > 0; i-- {
					hand(1 + rng.IntN(200))
				}
				time.Sleep(4 * time.Second)
				synctest.Wait()
			}
			// it is either kept or dropped, which is only known later. An upper limit is enough.
			kept++
		}

		for phase := 0; phase < 4+rng.IntN(4); phase++ {
			switch rng.IntN(3) {
			case 0, 1:
				stalled = true
				release = make(chan struct{})
				n := []int{1, 2, 3, 8, 9, 10, 15, 30, 120}[rng.IntN(9)]
				if k, ok := gen.DictSize(rng, 1, 150); ok {
					n = k
				}
				note("%s agent stalls, %d batches follow", b.Now(), n)
				r.Count("stalls", 1)
				for i := 0; i < n; i++ {
					if rng.IntN(3) == 0 {
						time.Sleep(time.Duration(rng.IntN(5000)) * time.Millisecond)
					}
					one()
				}
				if rng.IntN(3) == 0 {
					// a long one
					pause := time.Duration(rng.IntN(48)) * time.Hour
					if d, ok := dict.Get().Duration(rng, time.Second, 100*time.Hour); ok && rng.IntN(2) == 0 {
						pause = d
					}
					time.Sleep(pause)
				}
				stalled = false
				failing = rng.IntN(4) == 0
				note("%s agent responds again", b.Now())
				close(release)
				synctest.Wait()
				failing = false
			default:
				failing = rng.IntN(2) == 0
				n := 1 + rng.IntN(12)
				if k, ok := gen.DictSize(rng, 1, 300); ok {
					n = k
				} else if rng.IntN(6) == 0 {
					n = gen.Size(rng, 10, 60)
				}
				note("%s agent responds to %d batches (failing: %t)", b.Now(), n, failing)
				if failing {
					r.Count("failing phases", 1)
				}
				for i := 0; i < n; i++ {
					one()
				}
				if failing {
					r.Distinct("lengths of runs of failures", uint64(n))
				}
				failing = false
				if n > 10 {
					// and is well again
					one()
				}
			}
			// the queue is empty now
			account()
			kept = taken
		}
		time.Sleep(10 * time.Second)

		last := -1
	submissions:
		for _, sub := range b.Submissions() {
			in := map[int]int{}
			for _, list := range sub.Traces {
				for _, s := range list {
					k, ok := owner[s.SpanID]
					if !ok {
						fail("unknown", "span %x was not handed over, or is submitted again", s.SpanID)
						break submissions
					}
					in[k]++
					delete(owner, s.SpanID)
				}
			}
			var ks []int
			for k := range in {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				if in[k] != len(batches[k].spans) {
					fail("torn", "%d of the %d spans of batch %d were submitted together", in[k], len(batches[k].spans), k)
				}
				if k < last {
					fail("order", "batch %d was submitted after batch %d", k, last)
				}
				last = max(last, k)
				batches[k].delivered++
			}
			if sub.Changed() {
				fail("changed", "spans were modified after they had been submitted")
			}
		}
		b.Stop()
	})

	run := 0
	for k, nb := range batches {
		r.Eval(rep.Hash(seq, k, nb.stalled, nb.pending, len(nb.spans)), nb.stalled)
		switch {
		case !nb.stalled && nb.delivered == 0:
			fail("lost", "batch %d (at %s) was never submitted, although the agent was responding", k, nb.at)
		case nb.stalled && nb.delivered == 0 && nb.pending <= 1:
			fail("lost", "batch %d (at %s) was dropped, although only %d batches were waiting for the agent", k, nb.at, nb.pending)
		case nb.delivered == 0:
			r.Count("batches dropped", 1)
		default:
			r.Count("batches submitted", 1)
		}
		if nb.stalled && nb.delivered > 0 {
			run++
			if run > most+1 {
				fail("unbounded", "%d batches were kept during a stall", run)
				break
			}
			r.Count("batches kept during a stall", 1)
		}
		if !nb.stalled || k+1 < len(batches) && batches[k+1].pending == 0 {
			run = 0
		}
	}
	if seq == 2 {
		r.Sample(log)
	}
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C24", "the agent stalls (up to two days of virtual time), fails or responds in random phases while up to 120 batches, by size and by time, are handed to the sink; monitors: virtual time the caller has to wait, whole batches, order, duplicates, what is dropped when; a case is one batch; non-trivial: handed over during a stall", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("traces handed over during a stall", 500)
		r.Need("batches dropped", 100)
		r.Need("batches kept during a stall", 100)
		r.Need("failing phases", 10)
		r.Assume("the queue has room for at least two and at most 64 batches")
		for seq := 0; seq < r.N(40, 600); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			episode(t, r, seq)
			if r.Violated() {
				break
			}
		}
	})
}
