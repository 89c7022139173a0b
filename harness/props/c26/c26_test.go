package c26

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

// convert decides what becomes of a span. It must only depend on the span, and changes it like a user would.
func convert(in proxy.Span) (proxy.Span, error, string) {
	out := in
	set := func(key, value string) {
		tags := in.Tags
		if uint64(in.Id)&4 == 0 {
			// in a map of its own, or in that of the span, which nobody else has
			tags = maps.Clone(tags)
		}
		if tags == nil {
			tags = map[string]string{}
		}
		tags[key] = value
		out.Tags = tags
	}
	do := in.Tags["do"]
	if len(in.Tags) == 0 && uint64(in.Id)%3 != 0 {
		// nothing is told, so anything is possible
		do = actions[uint64(in.Id)%uint64(len(actions))]
	}
	switch do {
	case "error":
		return out, errors.New("rejected"), "error"
	case "empty":
		return proxy.Span{}, errors.New("rejected"), "error with an empty span"
	case "noid":
		out.Id = 0
		return out, nil, "no id"
	case "notrace":
		out.Trace = 0
		return out, nil, "no trace id"
	case "rename":
		out.Name, out.Service = "renamed "+in.Name, in.Service+"!"
		return out, nil, "renamed"
	case "tag":
		set("added", in.Name)
		return out, nil, "tagged"
	case "notags":
		out.Tags = nil
		return out, nil, "without tags"
	case "fail":
		set("error", "true")
		return out, nil, "error tag"
	case "move":
		out.Timestamp += 12345
		out.Duration = out.Duration*2 + 1
		return out, nil, "moved in time"
	case "retrace":
		out.Trace ^= 0x5a5a5a5a5a5a5a5a
		if out.Trace == 0 {
			out.Trace = in.Trace
		}
		return out, nil, "another trace id"
	case "reid":
		out.Id = -out.Id
		return out, nil, "another id"
	}
	return out, nil, "unchanged"
}

var actions = []string{"error", "empty", "noid", "notrace", "rename", "tag", "notags", "fail", "move", "retrace", "reid", "", "", "", ""}

type listed struct {
	Id, Parent, Trace proxy.Id
	Name, Service     string
	Timestamp         time.Time
	Duration          time.Duration
	Tags              map[string]string
}

func (l listed) span() proxy.Span {
	return proxy.Span{Id: l.Id, Parent: l.Parent, Trace: l.Trace, Name: l.Name, Service: l.Service,
		Timestamp: proxy.Timestamp(l.Timestamp.UnixNano()), Duration: l.Duration, Tags: l.Tags}
}

func diff(got, want proxy.Span) string {
	if len(got.Tags) == 0 && len(want.Tags) == 0 {
		got.Tags, want.Tags = nil, nil
	}
	switch {
	case got.Id != want.Id || got.Trace != want.Trace || got.Parent != want.Parent:
		return "other ids"
	case got.Name != want.Name || got.Service != want.Service:
		return fmt.Sprintf("name %q of %q instead of %q of %q", got.Name, got.Service, want.Name, want.Service)
	case got.Timestamp != want.Timestamp || got.Duration != want.Duration:
		return fmt.Sprintf("time %d+%d instead of %d+%d", got.Timestamp, got.Duration, want.Timestamp, want.Duration)
	case !maps.Equal(got.Tags, want.Tags):
		return fmt.Sprintf("tags %q instead of %q", got.Tags, want.Tags)
	}
	return ""
}

// trace makes a trace with a unique root in which every span got an action.
func trace(rng *rand.Rand, ids *svc.Ids, n int) []svc.S {
	root := ids.Next()
	mode := rng.IntN(6)
	start := 1_600_000_000_000_000 + rng.Int64N(1e12)
	res := []svc.S{}
	for i := 0; i < n; i++ {
		id := ids.Next()
		name := fmt.Sprintf("n-%d", rng.IntN(3))
		if rng.IntN(4) == 0 {
			name = fmt.Sprintf("n-%x", uint64(id))
		}
		s := svc.S{Trace: root, Id: id, Name: name, Service: fmt.Sprintf("svc-%d", rng.IntN(3)),
			Start: start, Duration: 1000 + rng.Int64N(1e5), Tags: map[string]string{"mark": fmt.Sprintf("%x", uint64(id))}}
		if i == 0 {
			s.Id = root
		} else {
			s.Parent = res[rng.IntN(len(res))].Id
		}
		do := ""
		switch mode {
		case 0: // all rejected
			do = actions[rng.IntN(4)]
		case 1: // none rejected
			do = actions[4+rng.IntN(len(actions)-4)]
		case 2: // only the first or the last one
			if i == 0 || i == n-1 && rng.IntN(2) == 0 {
				do = actions[rng.IntN(4)]
			}
		default:
			do = actions[rng.IntN(len(actions))]
		}
		if do != "" {
			s.Tags["do"] = do
		}
		res = append(res, s)
	}
	return res
}

func Test(t *testing.T) {
	rep.Run(t, "C26", "a running service with a converter that rejects, changes or keeps spans as their tags say; the calls of the converter, the spans at the trace agent and the listed spans are compared; and the forwarder alone, with one to three outputs of any capacity that are read at different speeds (virtual time); distinct by the sequence of outcomes within a trace", func(r *rep.R) {
		r.WatchCPU(600 * time.Second)
		r.Need("spans passed on", 1000)
		r.Need("spans rejected", 500)
		r.Need("traces without any span left", 10)
		r.Need("traces with rejected and passed spans", 30)
		r.Need("listings", 20)
		if forward == nil {
			r.Assume("without the hooks of the build tag verif the forwarder is observed as part of the running service only")
		}
		for seq := 0; forward != nil && seq < r.N(60, 2000); seq++ {
			r.Progress(fmt.Sprintf("direct %d", seq))
			direct(t, r, seq)
		}
		a, err := agent.Start()
		if err != nil {
			r.Abort("agent: %v", err)
		}
		var slow atomic.Int64
		s := svc.Start(r, a.Port, func(in proxy.Span) (proxy.Span, error) {
			switch n := slow.Add(-1); {
			case n == 333:
				// once
				time.Sleep(2500 * time.Millisecond)
			case n >= 0:
				time.Sleep(time.Millisecond)
			}
			out, err, _ := convert(in)
			return out, err
		})
		ids := svc.NewIds(r.Rand("ids"))
		from, reqs, compared := 0, 0, 0
		listedBefore := map[agent.Key]bool{}
		for wave := 0; wave < r.N(2, 40); wave++ {
			r.Progress(fmt.Sprintf("wave %d", wave))
			rng := r.Rand("wave", wave)
			limit := 1900
			if wave%2 == 1 {
				limit = 8000
				slow.Store(500)
			}
			posted := map[svc.Key]svc.S{}
			var keys []svc.Key
			var bodies [][]byte
			for len(posted) < limit {
				n := 1 + rng.IntN(12)
				if rng.IntN(25) == 0 {
					n = 100 + rng.IntN(300)
				}
				if wave%2 == 1 && len(bodies) == 5 {
					n = 1000 + rng.IntN(3000)
					r.Count("large traces", 1)
				}
				spans := trace(rng, ids, min(n, limit-len(posted)))
				for _, span := range spans {
					k := svc.Key{Trace: span.Trace, Id: span.Id}
					posted[k] = span
					keys = append(keys, k)
				}
				bodies = append(bodies, svc.V2.Doc(spans))
			}
			var wg sync.WaitGroup
			stop := make(chan struct{})
			var poller sync.WaitGroup
			poller.Add(1)
			go func() {
				defer poller.Done()
				for {
					var l []listed
					if status, body, err := s.Admin("spans", &l); status != 200 || err != nil {
						r.Violate("listing", fmt.Sprintf("the list of spans was answered %d: %v", status, err), string(body))
					}
					r.Count("listings", 1)
					select {
					case <-stop:
						return
					case <-time.After(100 * time.Millisecond):
					}
				}
			}()
			work := make(chan []byte)
			for c := 0; c < 8; c++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for b := range work {
						if status, text := s.Post("/api/v2/spans", "application/json", "", bytes.NewReader(b)); status != 202 {
							r.Abort("post was answered %d: %s", status, text)
						}
					}
				}()
			}
			for _, b := range bodies {
				work <- b
			}
			close(work)
			wg.Wait()

			// everything else comes before or together with a span that is sent later
			id := ids.Next()
			last := svc.V2.Doc([]svc.S{{Trace: id, Id: id, Name: "sentinel", Service: "x", Start: 1_600_000_000_000_000, Duration: 10}})
			time.Sleep(time.Second)
			if status, _ := s.Post("/api/v2/spans", "application/json", "", bytes.NewReader(last)); status != 202 {
				r.Abort("sentinel was answered %d", status)
			}
			sentinel := svc.Key{Trace: id, Id: id}
			if !s.WaitSeen(90*time.Second, []svc.Key{sentinel}) {
				r.Abort("the sentinel did not arrive")
			}
			s.WaitSeen(20*time.Second, keys)

			// what should be passed on
			inputs := s.Seen(from)
			from += len(inputs)
			want := map[agent.Key]proxy.Span{}
			rejected := map[string]proxy.Span{}
			calls := map[svc.Key]int{}
			shape := map[proxy.Id]string{}
			for _, in := range inputs {
				k := svc.Key{Trace: in.Trace, Id: in.Id}
				calls[k]++
				if _, ok := posted[k]; !ok && k != sentinel {
					r.Violate("unknown", "the converter was given a span that nobody sent", in)
				}
				out, err, what := convert(in)
				r.Count("converter: "+what, 1)
				shape[in.Trace] += what[:1]
				if err != nil || out.Id == 0 || out.Trace == 0 {
					rejected[in.Tags["mark"]] = in
					shape[in.Trace] += "-"
					continue
				}
				shape[in.Trace] += "+"
				want[agent.Key{Trace: out.Trace, Id: out.Id}] = out
			}
			for k, span := range posted {
				if calls[k] != 1 {
					r.Violate("calls", fmt.Sprintf("the converter was called %d times for a span", calls[k]), span)
				}
			}
			for _, text := range shape {
				minus, plus := bytes.Count([]byte(text), []byte("-")), bytes.Count([]byte(text), []byte("+"))
				if plus == 0 {
					r.Count("traces without any span left", 1)
				} else if minus > 0 {
					r.Count("traces with rejected and passed spans", 1)
				}
				r.Eval(rep.Hash(text), minus > 0)
			}
			r.Count("spans passed on", len(want))
			r.Count("spans rejected", len(rejected))

			// the agent
			arrived := func(all []agent.Request) bool {
				n := 0
				for _, req := range all[reqs:] {
					for _, t := range req.Traces {
						n += len(t)
					}
				}
				return n >= len(want)
			}
			a.Wait(30*time.Second, arrived)
			time.Sleep(200 * time.Millisecond)
			got := map[agent.Key]int{}
			all := a.Requests()
			for _, req := range all[reqs:] {
				if req.Err != nil {
					r.Abort("the agent got a broken request: %v", req.Err)
				}
				for _, t := range req.Traces {
					for _, span := range t {
						k := agent.Key{Trace: span.Trace, Id: span.Id}
						got[k]++
						in, ok := want[k]
						if !ok {
							r.Violate("agent-unexpected", "the agent got a span that was not passed on", span)
							continue
						}
						if d := agent.Diff(span, in); d != "" {
							r.Violate("agent-content", "the agent got a span with "+d, map[string]any{"got": span, "want": in})
						}
					}
				}
			}
			reqs = len(all)
			for k, in := range want {
				if got[k] != 1 {
					r.Violate("agent-count", fmt.Sprintf("the agent got a span %d times", got[k]), in)
				}
			}

			// the list, which may be up to a moment late
			close(stop)
			poller.Wait()
			var problem string
			for try := 0; try < 50; try++ {
				var l []listed
				status, _, err := s.Admin("spans", &l)
				if status != 200 || err != nil {
					r.Violate("listing", fmt.Sprintf("the list of spans was answered %d: %v", status, err), nil)
				}
				problem = ""
				seen := map[agent.Key]int{}
				for _, entry := range l {
					k := agent.Key{Trace: entry.Trace, Id: entry.Id}
					if _, ok := rejected[entry.Tags["mark"]]; ok {
						problem = fmt.Sprintf("span %x was rejected and is listed", uint64(entry.Id))
					}
					if in, ok := want[k]; ok {
						seen[k]++
						if d := diff(entry.span(), in); d != "" {
							b, _ := json.Marshal(map[string]any{"got": entry, "want": in})
							problem = fmt.Sprintf("a span is listed with %s: %s", d, b)
						}
						if seen[k] > 1 {
							problem = fmt.Sprintf("span %x is listed twice", uint64(entry.Id))
						}
					} else if !listedBefore[k] {
						problem = fmt.Sprintf("span %x of trace %x is listed, but was not passed on", uint64(entry.Id), uint64(entry.Trace))
					}
				}
				if expect := min(len(want), 2048); problem == "" && len(seen) < expect {
					problem = fmt.Sprintf("only %d of the last %d spans are listed", len(seen), expect)
				}
				compared = len(seen)
				if problem == "" {
					break
				}
				time.Sleep(200 * time.Millisecond)
			}
			if problem != "" {
				r.Violate("list", "the list of recent spans differs: "+problem, nil)
			}
			r.Count("listed spans compared", compared)
			for k := range want {
				listedBefore[k] = true
			}
			r.Count("waves", 1)
			if wave == 0 {
				r.Sample(string(bodies[0]))
			}
		}
	})
}
