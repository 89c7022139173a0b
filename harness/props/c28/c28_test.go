package c28

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

func Test(t *testing.T) {
	rep.Run(t, "C28", "traces of spans in all formats are spread over concurrent requests to a running service (race detector) whose agent works, fails in several ways and works again; a ledger compares what was posted with what the agent got; distinct by trace, nontrivial if the trace has more than one span", func(r *rep.R) {
		r.WatchCPU(900 * time.Second)
		r.Need("spans at the agent", 3000)
		r.Need("merged spans at the agent", 100)
		r.Need("requests at the failing agent", 2)
		a, err := agent.Start()
		if err != nil {
			r.Abort("agent: %v", err)
		}
		// the pipeline can be held up
		var gate sync.RWMutex
		var held atomic.Bool
		waiting := make(chan struct{}, 1)
		s := svc.Start(r, a.Port, func(span proxy.Span) (proxy.Span, error) {
			if held.Load() {
				select {
				case waiting <- struct{}{}:
				default:
				}
				gate.RLock()
				gate.RUnlock()
			}
			return span, nil
		})
		ids := svc.NewIds(r.Rand("ids"))
		ledger := &svc.Ledger{Traces: map[proxy.Id]*svc.Trace{}}
		targets := []*svc.Svc{s}

		var mu sync.Mutex
		send := func(phase string, seconds int) (all []*svc.Trace) {
			rng := r.Rand("phase", phase)
			for i := 0; i < seconds; i++ {
				began := time.Now()
				traces, posts := svc.Batch(rng, ids, phase, 120+rng.IntN(60))
				mu.Lock()
				for _, t := range traces {
					ledger.Traces[t.Id] = t
					r.Eval(uint64(t.Id), len(t.Want) > 1)
				}
				mu.Unlock()
				all = append(all, traces...)
				problem, timeout := svc.Send(rng, targets, []int{1, 4, 16, 48}[rng.IntN(4)], posts)
				if timeout {
					r.Fatal("no-answer", "the service does not answer: "+problem, phase)
				} else if problem != "" {
					r.Fatal("not-accepted", "phase "+phase+": "+problem, nil)
				}
				r.Count("posts", len(posts))
				if i == 0 && phase == "healthy 0" {
					r.Sample(string(posts[0].Body))
				}
				time.Sleep(700*time.Millisecond - time.Since(began))
			}
			return all
		}
		arrived := func(traces []*svc.Trace) {
			// missing spans are found by the ledger
			a.Wait(40*time.Second, func(reqs []agent.Request) bool { return svc.Arrived(traces, reqs) })
		}

		for round := 0; round < r.N(1, 16); round++ {
			rng := r.Rand("round", round)
			r.Progress(fmt.Sprintf("round %d", round))
			healthy := send(fmt.Sprintf("healthy %d", round), 4)
			// these arrive while the agent fails, or just before
			posted := make(chan struct{})
			go func() {
				defer close(posted)
				time.Sleep(3 * time.Second)
				send(fmt.Sprintf("outage %d", round), 12)
			}()
			arrived(healthy)
			before := len(a.Requests())
			modes := []agent.Mode{agent.Fail, agent.Hang, agent.Reset, agent.Deny, -1}
			rng.Shuffle(len(modes), func(i, k int) { modes[i], modes[k] = modes[k], modes[i] })
			for _, m := range modes {
				if m < 0 {
					a.Set(agent.Fail)
					a.Down()
				} else {
					a.Set(m)
				}
				time.Sleep(time.Duration(1500+rng.IntN(1500)) * time.Millisecond)
				if m < 0 {
					up := false
					for i := 0; i < 100 && !up; i++ {
						if up = a.Up() == nil; !up {
							time.Sleep(100 * time.Millisecond)
						}
					}
					if !up {
						r.Abort("the port of the agent is gone")
					}
				}
				r.Count("outages", 1)
			}
			<-posted
			for _, req := range a.Requests()[before:] {
				if req.Mode != agent.OK {
					r.Count("requests at the failing agent", 1)
				}
			}
			a.Set(agent.OK)
			again := send(fmt.Sprintf("recovered %d", round), 3)
			arrived(again)

			// more comes in than the channels can hold while nothing goes on. The requests have to wait, nothing is lost.
			first := send(fmt.Sprintf("held up %d", round), 2)
			gate.Lock()
			held.Store(true)
			select {
			case <-waiting:
				r.Count("times held up", 1)
			case <-time.After(20 * time.Second):
				// nothing is emitted, the ledger will tell
			}
			open := make(chan struct{})
			go func() {
				time.Sleep(time.Duration(1500+rng.IntN(1000)) * time.Millisecond)
				held.Store(false)
				gate.Unlock()
				close(open)
			}()
			second := send(fmt.Sprintf("waiting %d", round), 3)
			<-open
			arrived(append(first, second...))
			r.Count("rounds", 1)
		}
		time.Sleep(2500 * time.Millisecond)

		findings := ledger.Check(a.Requests(), func(phase string) bool { return phase[0] != 'o' })
		if ledger.BrokenRequests > 0 && len(findings) > 0 {
			r.Inconclusive("%d requests arrived broken at the working agent", ledger.BrokenRequests)
			findings = nil
		}
		for _, f := range findings {
			r.Violate(f.Sig, f.Message, f.Witness)
		}
		late := 0
		for _, t := range ledger.Traces {
			if t.Spread() >= 5*time.Second {
				late++
			}
		}
		r.Count("traces", len(ledger.Traces))
		r.Count("traces posted too slowly to be judged", late)
		if late > len(ledger.Traces)/20 {
			r.Inconclusive("%d of %d traces were posted too slowly", late, len(ledger.Traces))
		}
		r.Count("spans at the agent", ledger.Spans)
		r.Count("lists at the agent", ledger.Lists)
		r.Count("merged spans at the agent", ledger.Merged)
		r.Count("requests at the agent", len(a.Requests()))
	})
}
