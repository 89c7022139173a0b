package c30

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

type page map[string]map[string]any

// number finds the value of a metric, -1 if it is not there.
func (p page) number(name, field string) float64 {
	for key, m := range p {
		if key == name || strings.HasSuffix(key, "."+name) {
			if v, ok := m[field].(float64); ok {
				return v
			}
		}
	}
	return -1
}

type listed struct {
	Id, Parent, Trace proxy.Id
	Name, Service     string
	Timestamp         time.Time
	Duration          time.Duration
	Tags              map[string]string
}

type check struct {
	r *rep.R
	s *svc.Svc

	mu   sync.Mutex
	sent map[svc.Key]string // marks
}

func (c *check) metrics(when string) page {
	var p page
	status, body, err := c.s.Admin("metrics", &p)
	if status != 200 || err != nil || len(p) == 0 {
		c.r.Violate("metrics", fmt.Sprintf("the metrics page was answered %d %s: %v", status, when, err), string(body))
		return page{}
	}
	c.r.Count("metrics pages "+when, 1)
	if rate := p.number("binary.cache.hit.rate", "value"); rate > 1 {
		c.r.Violate("rate", fmt.Sprintf("the hit rate of the cache is %f %s", rate, when), nil)
	}
	return p
}

func (c *check) spans(when string) []listed {
	var l []listed
	status, body, err := c.s.Admin("spans", &l)
	if status != 200 || err != nil {
		c.r.Violate("spans", fmt.Sprintf("the list of spans was answered %d %s: %v", status, when, err), string(body))
		return nil
	}
	c.r.Count("span lists "+when, 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	seen := map[svc.Key]bool{}
	for _, e := range l {
		k := svc.Key{Trace: e.Trace, Id: e.Id}
		if name, ok := c.sent[k]; !ok {
			c.r.Violate("foreign", "a span is listed that nobody sent", e)
		} else if name != e.Name {
			c.r.Violate("foreign", fmt.Sprintf("a span is listed with the name %q instead of %q", e.Name, name), e)
		}
		if seen[k] {
			c.r.Violate("double", "a span is listed twice", e)
		}
		seen[k] = true
	}
	c.r.Count("entries seen", len(l))
	return l
}

var meters = []string{"spans.parsed[type:json]", "traces.finished", "traces.noroot", "spans.merged", "traces.toolarge", "traces.discarded",
	"spans.receive[type:json-v1]", "spans.receive[type:json-v2]", "spans.receive[type:jaeger]"}

func Test(t *testing.T) {
	rep.Run(t, "C30", "the admin pages of a running service are read before, during and after concurrent traffic (valid, invalid, mergeable, rootless); every page must be well-formed, counters must never fall and agree with the traffic when it is handled; distinct by page content", func(r *rep.R) {
		r.WatchCPU(600 * time.Second)
		r.Need("metrics pages under traffic", 30)
		r.Need("span lists under traffic", 30)
		r.Need("entries seen", 1000)
		a, err := agent.Start()
		if err != nil {
			r.Abort("agent: %v", err)
		}
		s := svc.Start(r, a.Port, nil)
		c := &check{r: r, s: s, sent: map[svc.Key]string{}}

		// nothing happened yet
		for i := 0; i < 5; i++ {
			c.metrics("before traffic")
			if l := c.spans("before traffic"); len(l) > 0 {
				r.Violate("foreign", "spans are listed before any was sent", l[0])
			}
		}
		base := c.metrics("before traffic")

		ids := svc.NewIds(r.Rand("ids"))
		wantParsed, wantFinished, wantNoRoot, wantMerged := 0, 0, 0, 0
		accepted, rejected := map[string]int{}, map[string]int{}
		for round := 0; round < r.N(2, 40); round++ {
			r.Progress(fmt.Sprintf("round %d", round))
			rng := r.Rand("round", round)
			stop := make(chan struct{})
			var pollers sync.WaitGroup
			for i := 0; i < 3; i++ {
				pollers.Add(1)
				go func() {
					defer pollers.Done()
					last := map[string]float64{}
					for {
						p := c.metrics("under traffic")
						for _, name := range meters {
							n := max(p.number(name, "count"), 0)
							if n < last[name] {
								r.Violate("falling", fmt.Sprintf("%s went from %f to %f", name, last[name], n), nil)
							}
							last[name] = n
						}
						b, _ := json.Marshal(p)
						r.Eval(rep.Hash(b), true)
						c.spans("under traffic")
						select {
						case <-stop:
							return
						case <-time.After(time.Duration(20*(i+1)) * time.Millisecond):
						}
					}
				}()
			}

			late := false
			for part := 0; part < 4; part++ {
				traces, posts := svc.Batch(rng, ids, "", 60)
				// some spans without a common root
				var loose []svc.S
				for i := 0; i < 5; i++ {
					trace := ids.Next()
					for k := 0; k < 2; k++ {
						loose = append(loose, svc.S{Trace: trace, Id: ids.Next(), Parent: ids.Next(), Name: "loose", Service: "x", Start: 1_600_000_000_000_000, Duration: 1})
					}
				}
				posts = append(posts, svc.Post{Format: svc.V2, Body: svc.V2.Doc(loose), Spans: len(loose)})
				wantNoRoot += 5
				c.mu.Lock()
				for _, t := range traces {
					for id, span := range t.Want {
						c.sent[svc.Key{Trace: t.Id, Id: id}] = span.Name
					}
					wantMerged += len(t.Halves)
				}
				c.mu.Unlock()
				wantFinished += len(traces)
				for _, p := range posts {
					wantParsed += p.Spans
					accepted[p.Format.Name]++
				}
				for i := 0; i < 12; i++ {
					// documents without spans
					f := svc.Formats[rng.IntN(3)]
					body := []byte([]string{"[]", "[ ]", "[]\n", " \n[]  ", "[" + strings.Repeat(" ", rng.IntN(5000)) + "]"}[rng.IntN(5)])
					if f.Name == "jaeger" {
						body = []byte([]string{`{}`, `{"data":[]}`, `{"data":[{}]}`, `{"data":[{"spans":[]}]}`, `{ }`}[rng.IntN(5)])
					}
					p := svc.Post{Format: f, Body: body, Gzip: rng.IntN(3) == 0}
					if p.Gzip {
						p.Body = svc.Gzip(6, p.Body)
					}
					posts = append(posts, p)
					accepted[f.Name]++
					r.Count("documents without spans", 1)
				}
				rng.Shuffle(len(posts), func(i, k int) { posts[i], posts[k] = posts[k], posts[i] })
				if problem, _ := svc.Send(rng, []*svc.Svc{s}, 8, posts); problem != "" {
					r.Abort("%s", problem)
				}
				for i := 0; i < 20; i++ {
					f := svc.Formats[rng.IntN(3)]
					var many []svc.S
					for k := rng.IntN(4); k >= 0; k-- {
						many = append(many, svc.S{Trace: ids.Next(), Id: ids.Next()})
					}
					doc := f.Doc(many)
					encoding := ""
					switch rng.IntN(4) {
					case 0, 1:
						doc = doc[:rng.IntN(len(doc)-2)]
					default:
						// complete, but what comes behind is damaged
						doc = svc.Gzip(1+rng.IntN(9), append(doc, strings.Repeat(" ", rng.IntN(2)*rng.IntN(200_000))...))
						encoding = "gzip"
						if rng.IntN(2) == 0 {
							doc[len(doc)-1-rng.IntN(8)] ^= 1 << rng.IntN(8)
						} else {
							doc = doc[:len(doc)-1-rng.IntN(8)]
						}
					}
					if status, _ := s.Post(f.Path, f.Type, encoding, bytes.NewReader(doc)); status == 400 {
						rejected[f.Name]++
					} else {
						r.Abort("a broken document was answered %d", status)
					}
				}
				for _, t := range traces {
					late = late || t.Spread() > 5*time.Second
				}
				time.Sleep(300 * time.Millisecond)
			}
			if late {
				r.Abort("posting took too long")
			}
			agree := func(p page) string {
				delta := func(name, field string) int {
					return int(max(p.number(name, field), 0) - max(base.number(name, field), 0))
				}
				for _, x := range []struct {
					name string
					want int
				}{{"spans.parsed[type:json]", wantParsed}, {"traces.finished", wantFinished}, {"traces.noroot", wantNoRoot}, {"spans.merged", wantMerged}} {
					if got := delta(x.name, "count"); got != x.want {
						return fmt.Sprintf("%s is %d instead of %d", x.name, got, x.want)
					}
				}
				for f, name := range map[string]string{"v1": "json-v1", "v2": "json-v2", "jaeger": "jaeger"} {
					name = "spans.receive[type:" + name + "]"
					if got := delta(name, "count"); got != accepted[f]+rejected[f] {
						return fmt.Sprintf("%s is %d with %d accepted and %d rejected posts", name, got, accepted[f], rejected[f])
					}
				}
				for _, name := range []string{"traces.partial.count", "traces.partial.span.count"} {
					if got := p.number(name, "value"); got != 0 {
						return fmt.Sprintf("%s is %f", name, got)
					}
				}
				for _, name := range []string{"binary.cache.count", "binary.cache.size"} {
					if got := p.number(name, "value"); got <= 0 {
						return fmt.Sprintf("%s is %f", name, got)
					}
				}
				return ""
			}
			problem := ""
			for deadline := time.Now().Add(40 * time.Second); ; time.Sleep(200 * time.Millisecond) {
				if problem = agree(c.metrics("when idle")); problem == "" || time.Now().After(deadline) {
					break
				}
			}
			if problem != "" {
				r.Violate("disagrees", "some time after the traffic the metrics page says that "+problem, nil)
			}
			close(stop)
			pollers.Wait()
			// it must stay that way
			for i := 0; i < 5; i++ {
				time.Sleep(100 * time.Millisecond)
				if problem := agree(c.metrics("when idle")); problem != "" {
					r.Violate("unstable", "without any traffic the metrics page changes to "+problem, nil)
				}
				c.spans("when idle")
			}
			if round == 0 {
				r.Sample(c.metrics("when idle"))
			}
			r.Count("rounds", 1)
		}
		r.Count("spans accepted", wantParsed)
		r.Count("traces finished", wantFinished)
		r.Count("spans merged", wantMerged)
	})
}
