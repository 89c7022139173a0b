package c23

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
	"verif/harness/lib/sink"
)

// key is the number of a span, which is in a tag of it; other spans may have the same id
type key string

// span returns a span with a number and any other content.
func span(rng *rand.Rand, n int, trace, previous proxy.Id) proxy.Span {
	no := strconv.Itoa(n)
	s := proxy.Span{Trace: trace, Id: proxy.Id(n), Parent: trace, Name: "n" + no, Service: "s", Timestamp: coll.Base, Duration: 1e6, Tags: map[string]string{"no": no}}
	switch rng.IntN(20) {
	case 0, 1:
		if previous != 0 {
			s.Id = previous
		}
	case 2:
		s.Id = trace
	case 3:
		s.Id = 1
	case 4:
		s.Parent = 0
	case 5:
		s.Name = ""
	case 6:
		s.Name = "GET"
	case 7:
		s.Service = ""
	case 8:
		s.Service = "service-" + no
	case 9:
		s.Timestamp += proxy.Timestamp(rng.Int64N(1e12) - 5e11)
	case 10:
		s.Timestamp = 0
	case 11:
		s.Duration = 0
	case 12:
		s.Duration = time.Duration(rng.Int64N(1e15) - 5e14)
	case 13:
		s.Tags["error"] = gen.Text(rng)
	case 14, 15:
		for range 1 + rng.IntN(3) {
			s.Tags[gen.Text(rng)] = gen.Text(rng)
		}
		s.Tags["no"] = no
	case 16:
		s.Tags[[]string{"sampling.priority", "_sampling_priority_v1", "sampled", "drop", "priority", "span.type", "span.kind", "http.status_code"}[rng.IntN(8)]] =
			[]string{"0", "-1", "1", "false", "true", "", "drop", "500"}[rng.IntN(8)]
	}
	return s
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C23", "traces (small, up to 3000 spans, around 1000, the same trace several times) are handed to the sink at random virtual times, from bursts to long pauses; after every step the number of waiting spans and their age are verified, and every submission for its grouping; a case is one step, distinct by size and number of waiting spans", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("submissions", 1000)
		r.Need("submissions because of 1000 spans", 200)
		r.Need("submissions because of time", 300)
		r.Need("traces of one span in crowds", 20000)
		r.Need("submissions with a trace handed over in parts", 50)

		for round := 0; round < r.N(1, 5); round++ {
			saturate(r, 500, 5*time.Second)
		}

		for seq := 0; seq < r.N(60, 1500); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			rng := r.Rand("episode", seq)
			coll.Verbose(r, seq)
			latency := time.Duration(0)
			if seq%3 == 2 {
				latency = time.Duration(1+rng.IntN(50)) * time.Millisecond
			}
			rep.Bubble(t, func(t *testing.T) {
				b := sink.Start(func(int) error { time.Sleep(latency); return nil })
				ids := coll.NewIds(rng)
				handed := map[key]time.Duration{}
				traceOf := map[uint64]int{} // how often it was handed over
				waiting := map[key]bool{}
				checked := 0
				next := 1
				var recent []proxy.Id
				var log []string

				inspect := func() {
					subs := b.Submissions()
					for ; checked < len(subs); checked++ {
						sub := subs[checked]
						r.Count("submissions", 1)
						log = append(log, fmt.Sprintf("%s submission of %d lists with %d spans", sub.At, len(sub.Traces), sub.Count()))
						w := map[string]any{"episode": seq, "log": tail(log)}
						if sub.Count() >= 1000 {
							r.Count("submissions because of 1000 spans", 1)
						} else {
							r.Count("submissions because of time", 1)
						}
						if sub.Count() == 0 {
							r.Violate("empty", "a submission without spans", w)
						}
						lists := map[uint64]bool{}
						parts := false
						for _, list := range sub.Traces {
							if len(list) == 0 {
								r.Violate("empty", "a submission has an empty list", w)
								continue
							}
							trace := list[0].TraceID
							if lists[trace] {
								r.Violate("split", fmt.Sprintf("two lists for trace %x in one submission", trace), w)
							}
							lists[trace] = true
							parts = parts || traceOf[trace] > 1
							for _, s := range list {
								k := key(s.Meta["no"])
								if s.TraceID != trace {
									r.Violate("mixed", fmt.Sprintf("a list holds spans of traces %x and %x", trace, s.TraceID), w)
								}
								at, ok := handed[k]
								if !ok {
									r.Violate("unknown", fmt.Sprintf("span %x was never handed over", s.SpanID), w)
								} else if !waiting[k] {
									r.Violate("repeated", fmt.Sprintf("span %x was submitted again", s.SpanID), w)
								} else if age := sub.At - at; age > 4*time.Second+2*latency {
									r.Violate("late", fmt.Sprintf("a span was submitted %s after it was handed over", age), w)
								}
								delete(waiting, k)
							}
						}
						if parts {
							r.Count("submissions with a trace handed over in parts", 1)
						}
					}
				}

				steps := 60
				style := rng.IntN(4)
				for step := 0; step < steps && !r.Violated(); step++ {
					var pause time.Duration
					switch style {
					case 0:
						pause = time.Duration(rng.IntN(300)) * time.Millisecond
					case 1:
						pause = time.Duration(rng.IntN(3000)) * time.Millisecond
					case 2:
						if rng.IntN(6) == 0 {
							pause = time.Duration(rng.IntN(12_000)) * time.Millisecond
						}
					case 3:
						pause = time.Duration(rng.IntN(20)) * 100 * time.Millisecond
					}
					// the agent keeps up
					pause = max(pause, latency)
					time.Sleep(pause)

					n := 1 + rng.IntN(40)
					switch rng.IntN(8) {
					case 0:
						n = 1 + rng.IntN(1200)
					case 1:
						n = 990 + rng.IntN(20)
					case 2:
						n = 0
					case 3:
						// fill up to the limit
						n = 1000 - len(waiting)
						if rng.IntN(2) == 0 {
							n--
						}
					case 5:
						if k, ok := gen.DictSize(rng, 1, 5000); ok {
							n = k
						}
					case 4:
						n = []int{1, 999, 1000, 1001, 2500, 4096, 5000}[rng.IntN(7)]
					}
					if n > 0 && rng.IntN(6) == 0 {
						// very many very small traces at the same time, up to the limit and more
						small := gen.Size(rng, 2, 1200)
						if rng.IntN(2) == 0 {
							small = max(1, 1000-len(waiting)) - rng.IntN(3)
						}
						for range max(0, small) {
							id := ids.Next()
							s := span(rng, next, id, 0)
							k := key(s.Tags["no"])
							handed[k], waiting[k] = b.Now(), true
							next++
							traceOf[uint64(id)]++
							if d := b.Hand(proxy.Trace{s}); d > 0 {
								r.Violate("blocked", fmt.Sprintf("the sink took a trace only after %s", d), tail(log))
							}
							if len(waiting) >= 1000 {
								time.Sleep(2 * latency)
								inspect()
								if len(waiting) >= 1000 {
									r.Violate("not-flushed", fmt.Sprintf("%d spans are waiting", len(waiting)), map[string]any{"episode": seq, "log": tail(log)})
								}
							}
						}
						log = append(log, fmt.Sprintf("%s handed over %d traces of one span", b.Now(), small))
						r.Count("traces of one span in crowds", max(0, small))
						time.Sleep(2 * latency)
						inspect()
					}
					id := ids.Next()
					switch rng.IntN(8) {
					case 0:
						// differs from the one before in half of the bits only
						if len(recent) > 0 {
							id = recent[len(recent)-1] ^ proxy.Id(uint64(1+rng.IntN(1<<16))<<[]int{0, 16, 32, 48}[rng.IntN(4)])
							if id == 0 {
								id = ids.Next()
							}
						}
					}
					if len(recent) > 0 && rng.IntN(3) == 0 {
						id = recent[rng.IntN(len(recent))]
					}
					recent = append(recent, id)
					if len(recent) > 6 {
						recent = recent[1:]
					}
					var trace proxy.Trace
					for i := 0; i < n; i++ {
						previous := proxy.Id(0)
						if i > 0 {
							previous = trace[i-1].Id
						}
						s := span(rng, next, id, previous)
						trace = append(trace, s)
						k := key(s.Tags["no"])
						handed[k] = b.Now()
						waiting[k] = true
						next++
						if s.Id == previous {
							r.Count("spans with the id of the one before", 1)
						}
					}
					traceOf[uint64(id)]++
					before := len(waiting)
					log = append(log, fmt.Sprintf("%s handed over %d spans of trace %s", b.Now(), n, id))
					if d := b.Hand(trace); d > 0 {
						r.Violate("blocked", fmt.Sprintf("the sink took a trace only after %s", d), tail(log))
					}
					// the agent may still be busy with an earlier submission, and then with this one
					time.Sleep(2 * latency)
					inspect()
					r.Eval(rep.Hash(n, before, pause), n > 0)
					r.Count("spans handed over", n)
					if len(waiting) >= 1000 {
						r.Violate("not-flushed", fmt.Sprintf("%d spans are waiting", len(waiting)), map[string]any{"episode": seq, "log": tail(log)})
					}
				}
				time.Sleep(4100*time.Millisecond + 2*latency)
				inspect()
				if len(waiting) > 0 {
					r.Violate("lost", fmt.Sprintf("%d spans were not submitted within 4 s", len(waiting)), map[string]any{"episode": seq, "log": tail(log)})
				}
				// nothing to do
				n := len(b.Submissions())
				time.Sleep(60 * time.Second)
				if m := len(b.Submissions()); m != n {
					r.Violate("empty", fmt.Sprintf("%d submissions while there were no spans", m-n), tail(log))
				}
				for _, sub := range b.Submissions() {
					if sub.Changed() {
						r.Violate("changed", "spans were modified after they had been submitted", tail(log))
					}
				}
				b.Stop()
				if seq == 1 {
					r.Sample(tail(log))
				}
			})
		}
	})
}

// saturate hands over small traces as fast as they are taken, for seconds of real time.
func saturate(r *rep.R, senders int, for_ time.Duration) {
	r.Progress("saturation")
	in := make(chan proxy.Trace, 256)
	counter := &counting{}
	done := make(chan struct{})
	go func() {
		datadog.Sink(counter, in)
		close(done)
	}()
	var sent atomic.Int64
	var wg sync.WaitGroup
	stop := time.Now().Add(for_)
	for k := range senders {
		wg.Go(func() {
			for id := proxy.Id(1 + k); time.Now().Before(stop) && counter.largest.Load() < 20_000; id += proxy.Id(senders) {
				in <- proxy.Trace{{Trace: id, Id: id, Parent: id, Name: "n", Service: "s", Timestamp: coll.Base, Duration: 1e6}}
				sent.Add(1)
			}
		})
	}
	wg.Wait()
	n, submissions, largest := sent.Load(), counter.submissions.Load(), counter.largest.Load()
	r.Eval(rep.Hash("saturation", senders), true)
	r.Count("spans in saturation", int(n))
	r.Count("submissions in saturation", int(submissions))
	r.Count("largest submission in saturation", int(largest))
	if n > 3000 && submissions == 0 {
		r.Violate("not-flushed", fmt.Sprintf("nothing was submitted while %d spans arrived without a pause, for %s", n, for_), nil)
	}
	if largest >= 20_000 {
		r.Violate("not-flushed", fmt.Sprintf("%d spans were waiting before they were submitted", largest), nil)
	}
	close(in)
	<-done
}

type counting struct{ submissions, largest atomic.Int64 }

func (c *counting) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	n := int64(0)
	for _, t := range traces {
		n += int64(len(t))
	}
	c.submissions.Add(1)
	if n > c.largest.Load() {
		c.largest.Store(n)
	}
	return &http.Response{StatusCode: 200}, nil
}

func (c *counting) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}

func (c *counting) SetHeader(string, string) {}

func tail(log []string) []string {
	return log[max(0, len(log)-25):]
}
