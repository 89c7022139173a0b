package svc

import (
	"bytes"
	"fmt"
	"maps"
	"math/rand/v2"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
)

// Trace is a trace with a unique root that was (or is to be) posted.
type Trace struct {
	Id     proxy.Id
	Want   map[proxy.Id]proxy.Span // by span id
	Halves map[proxy.Id][2]proxy.Span
	Phase  string

	mu          sync.Mutex
	first, last time.Time
}

// Spread is the time between the first and the last post that had a span of the trace.
func (t *Trace) Spread() time.Duration {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.last.Sub(t.first)
}

func (t *Trace) mark(begin, end time.Time) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.first.IsZero() || begin.Before(t.first) {
		t.first = begin
	}
	if end.After(t.last) {
		t.last = end
	}
}

// Post is a request with spans of any traces.
type Post struct {
	Format Format
	Body   []byte
	Gzip   bool
	Traces []*Trace
	Spans  int
}

type item struct {
	f Format
	s S
	t *Trace
}

// Batch makes traces and the posts that carry their spans, in a random order and distribution.
func Batch(rng *rand.Rand, ids *Ids, phase string, traces int) (res []*Trace, posts []Post) {
	var items []item
	for i := 0; i < traces; i++ {
		t := &Trace{Id: ids.Next(), Want: map[proxy.Id]proxy.Span{}, Halves: map[proxy.Id][2]proxy.Span{}, Phase: phase}
		res = append(res, t)
		n := 1 + rng.IntN(10)
		switch rng.IntN(60) {
		case 0:
			n = 60 + rng.IntN(150)
		case 1, 2, 3:
			n = 1
		case 4:
			if k, ok := gen.DictSize(rng, 1, 1200); ok {
				n = k
			}
		}
		start := 1_600_000_000_000_000 + rng.Int64N(1e12)
		switch rng.IntN(8) {
		case 0:
			start = 1_577_836_801_000_000 + rng.Int64N(1e15)
		case 1, 2, 3:
			// it has just happened
			start = time.Now().UnixMicro() - rng.Int64N(2e7)
		case 4:
			start = time.Now().UnixMicro() - rng.Int64N(1e13)
		}
		var spanIds []proxy.Id
		for k := 0; k < n; k++ {
			id := ids.Next()
			if rng.IntN(10) == 0 {
				// span ids may be the same in different traces
				id = proxy.Id(1 + k)
			}
			if _, ok := t.Want[id]; ok {
				id = ids.Next()
			}
			f := Formats[rng.IntN(3)]
			s := S{Trace: t.Id, Id: id, Name: fmt.Sprintf("op-%d-%x", k, uint64(id)), Service: fmt.Sprintf("svc-%d", rng.IntN(5)),
				Start: start + rng.Int64N(1e6), Duration: 1 + rng.Int64N(1e5)}
			if rng.IntN(4) > 0 {
				s.Tags = map[string]string{"mark": fmt.Sprintf("%x/%x", uint64(t.Id), uint64(id))}
			}
			if rng.IntN(10) == 0 {
				s.Tags = map[string]string{"error": []string{"true", "false", "0", "boom"}[rng.IntN(4)]}
			}
			if rng.IntN(12) == 0 {
				// as clients write it
				s.Tags = map[string]string{}
				for range 1 + rng.IntN(4) {
					k, v := gen.Text(rng), gen.Text(rng)
					if rng.IntN(3) == 0 {
						k = dict.Get().String(rng)
					}
					if rng.IntN(3) == 0 {
						v = dict.Get().String(rng)
					}
					if rng.IntN(2) == 0 {
						k, v = gen.RealTag(rng)
					}
					if utf8.ValidString(k) && utf8.ValidString(v) && k != "span.kind" && k != "lc" {
						s.Tags[k] = v
					}
				}
			}
			if rng.IntN(60) == 0 {
				s.Tags = map[string]string{"long": string(bytes.Repeat([]byte{'a' + byte(rng.IntN(26))}, 100+rng.IntN(20000)))}
			}
			if rng.IntN(500) == 0 {
				s.Tags = map[string]string{"long": string(bytes.Repeat([]byte{'a' + byte(rng.IntN(26))}, 20_000<<rng.IntN(5)+rng.IntN(100_000)))}
			}
			if k > 0 {
				s.Parent = spanIds[rng.IntN(len(spanIds))]
			}
			spanIds = append(spanIds, id)
			if k > 0 && rng.IntN(6) == 0 {
				c, v := s, s
				c.Kind, v.Kind = "CLIENT", "SERVER"
				v.Start, v.Duration = s.Start+rng.Int64N(2000)-1000, 1+rng.Int64N(s.Duration)
				v.Service = s.Service + "-server"
				c.Tags = map[string]string{"client": s.Name}
				v.Tags = map[string]string{"server": s.Name}
				g := Formats[rng.IntN(3)]
				client, server := f.Ref(f.Doc([]S{c}))[0], g.Ref(g.Doc([]S{v}))[0]
				t.Halves[id] = [2]proxy.Span{client, server}
				t.Want[id] = client
				items = append(items, item{f, c, t}, item{g, v, t})
				continue
			}
			t.Want[id] = f.Ref(f.Doc([]S{s}))[0]
			items = append(items, item{f, s, t})
		}
	}
	rng.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
	for len(items) > 0 {
		n := 1 + rng.IntN(12)
		if rng.IntN(10) == 0 {
			n = 300
		}
		n = min(n, len(items))
		for _, f := range Formats {
			var spans []S
			seen := map[*Trace]bool{}
			for _, it := range items[:n] {
				if it.f.Name == f.Name {
					spans = append(spans, it.s)
					seen[it.t] = true
				}
			}
			if len(spans) == 0 {
				continue
			}
			p := Post{Format: f, Body: f.Doc(spans), Gzip: rng.IntN(3) == 0, Spans: len(spans)}
			if p.Gzip {
				p.Body = Gzip(1+rng.IntN(9), p.Body)
			}
			for t := range seen {
				p.Traces = append(p.Traces, t)
			}
			posts = append(posts, p)
		}
		items = items[n:]
	}
	return res, posts
}

// Big makes a trace that comes in one large document.
func Big(rng *rand.Rand, ids *Ids, phase string, size int) (*Trace, Post) {
	t := &Trace{Id: ids.Next(), Want: map[proxy.Id]proxy.Span{}, Halves: map[proxy.Id][2]proxy.Span{}, Phase: phase}
	f := Formats[rng.IntN(3)]
	var spans []S
	for k := 0; k == 0 || size > 0; k++ {
		n := min(size, 1+rng.IntN([]int{200, 2000, 30_000, 400_000}[rng.IntN(4)]))
		size -= n
		s := S{Trace: t.Id, Id: t.Id, Name: fmt.Sprintf("big-%d", k), Service: fmt.Sprintf("svc-%d", rng.IntN(5)), Start: 1_600_000_000_000_000 + rng.Int64N(1e12), Duration: 1 + rng.Int64N(1e5),
			Tags: map[string]string{"long": string(bytes.Repeat([]byte{'a' + byte(rng.IntN(26))}, n))}}
		if k > 0 {
			s.Id, s.Parent = ids.Next(), t.Id
		}
		spans = append(spans, s)
		t.Want[s.Id] = f.Ref(f.Doc([]S{s}))[0]
	}
	p := Post{Format: f, Body: f.Doc(spans), Gzip: rng.IntN(2) == 0, Spans: len(spans), Traces: []*Trace{t}}
	if p.Gzip {
		p.Body = Gzip(1+rng.IntN(9), p.Body)
	}
	return t, p
}

// Send posts everything with a number of concurrent clients, to any of the services.
func Send(rng *rand.Rand, targets []*Svc, clients int, posts []Post) (problem string, timeout bool) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	work := make(chan Post)
	for c := 0; c < clients; c++ {
		wg.Add(1)
		r := rand.New(rand.NewPCG(rng.Uint64(), 1))
		go func() {
			defer wg.Done()
			for p := range work {
				enc := ""
				if p.Gzip {
					enc = "gzip"
				}
				begin := time.Now()
				status, text := targets[r.IntN(len(targets))].Post(p.Format.Path, p.Format.Type, enc, bytes.NewReader(p.Body))
				end := time.Now()
				for _, t := range p.Traces {
					t.mark(begin, end)
				}
				if status != 202 {
					mu.Lock()
					problem = fmt.Sprintf("a post (%s) was answered %d: %s", p.Format.Name, status, text)
					timeout = timeout || status == 0 && end.Sub(begin) > 100*time.Second
					mu.Unlock()
				}
			}
		}()
	}
	for _, p := range posts {
		work <- p
	}
	close(work)
	wg.Wait()
	return problem, timeout
}

// Finding is something that is wrong with what the agent got.
type Finding struct {
	Sig, Message string
	Witness      any
}

// Ledger compares what the agent got with what was posted.
type Ledger struct {
	Traces map[proxy.Id]*Trace
	Limit  time.Duration // traces that were posted in a longer time are not judged, 5 s by default

	// observed
	Spans, Lists, Merged int
	BrokenRequests       int
}

// Arrived says if all spans of the traces have arrived.
func Arrived(traces []*Trace, reqs []agent.Request) bool {
	got := map[agent.Key]bool{}
	for _, req := range reqs {
		if req.Mode != agent.OK {
			continue
		}
		for _, list := range req.Traces {
			for _, s := range list {
				got[agent.Key{Trace: s.Trace, Id: s.Id}] = true
			}
		}
	}
	for _, t := range traces {
		for id := range t.Want {
			if !got[agent.Key{Trace: t.Id, Id: id}] {
				return false
			}
		}
	}
	return true
}

func halves(got agent.Span, h [2]proxy.Span) string {
	c, s := h[0], h[1]
	if got.Resource != c.Name && got.Resource != s.Name {
		return fmt.Sprintf("resource %q", got.Resource)
	}
	if got.Service != c.Service && got.Service != s.Service {
		return fmt.Sprintf("service %q", got.Service)
	}
	if got.Meta["client"] != c.Tags["client"] || got.Meta["server"] != s.Tags["server"] {
		return fmt.Sprintf("tags %q", got.Meta)
	}
	for k := range got.Meta {
		_, a := c.Tags[k]
		_, b := s.Tags[k]
		if !a && !b {
			return fmt.Sprintf("additional tag %q", k)
		}
	}
	if got.Parent != c.Parent {
		return fmt.Sprintf("parent %x", uint64(got.Parent))
	}
	return ""
}

// Check looks at all requests. exactly says which phases must have arrived exactly once.
func (l *Ledger) Check(reqs []agent.Request, exactly func(phase string) bool) (res []Finding) {
	limit := l.Limit
	if limit == 0 {
		limit = 5 * time.Second
	}
	type place struct{ request, list int }
	at := map[agent.Key][]place{}
	for i, req := range reqs {
		if req.Err != nil {
			if req.Mode == agent.OK {
				l.BrokenRequests++
			}
			continue
		}
		for k, list := range req.Traces {
			l.Lists++
			for _, got := range list {
				l.Spans++
				t := l.Traces[got.Trace]
				if t == nil {
					res = append(res, Finding{"unknown", "the agent got a span of a trace that nobody sent", got})
					continue
				}
				if got.Trace != list[0].Trace {
					res = append(res, Finding{"mixed", "the agent got spans of different traces as one trace", []agent.Span{list[0], got}})
				}
				want, ok := t.Want[got.Id]
				if !ok {
					res = append(res, Finding{"unknown", "the agent got a span that nobody sent", got})
					continue
				}
				if req.Mode == agent.OK {
					key := agent.Key{Trace: got.Trace, Id: got.Id}
					at[key] = append(at[key], place{i, k})
				}
				diff := ""
				if h, ok := t.Halves[got.Id]; ok {
					l.Merged++
					// a half on its own is only possible if the halves came much apart
					if t.Spread() < limit {
						diff = halves(got, h)
					}
				} else {
					if len(t.Halves) > 0 {
						// times are corrected then
						want.Timestamp, want.Duration = got.Start, got.Duration
						want.Tags = maps.Clone(want.Tags)
					}
					diff = agent.Diff(got, want)
				}
				if diff != "" {
					res = append(res, Finding{"content", "the agent got a span with " + diff, map[string]any{"got": got, "want": want}})
				}
			}
		}
	}
	for _, t := range l.Traces {
		places := map[place]bool{}
		once, complete := exactly(t.Phase), t.Spread() < limit
		missing := 0
		for id, want := range t.Want {
			p := at[agent.Key{Trace: t.Id, Id: id}]
			if len(p) > 1 && complete {
				res = append(res, Finding{"twice", fmt.Sprintf("a span of phase %s arrived %d times at the agent", t.Phase, len(p)), want})
			}
			if len(p) == 0 {
				missing++
				if once && complete {
					res = append(res, Finding{"lost", fmt.Sprintf("a span of phase %s did not arrive at the agent", t.Phase), want})
				}
			}
			for _, x := range p {
				places[x] = true
			}
		}
		if complete && (len(places) > 1 || len(places) == 1 && missing > 0) {
			res = append(res, Finding{"split", fmt.Sprintf("the spans of one trace (phase %s) arrived in %d parts, %d of them are missing", t.Phase, len(places), missing), t.Id})
		}
	}
	return res
}
