// Package sink runs the Datadog sink in virtual time with a transport that records what is submitted.
package sink

import (
	"errors"
	"fmt"
	"maps"
	"net/http"
	"sync"
	"testing/synctest"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dict"
)

// Span is a copy of what the transport was given.
type Span struct {
	Name, Service, Resource, Type string
	Start, Duration               int64
	Meta                          map[string]string
	Metrics                       map[string]float64
	SpanID, TraceID, ParentID     uint64
	Error                         int32
	Sampled                       bool
}

func Copy(s *tracer.Span) Span {
	return Span{
		Name: s.Name, Service: s.Service, Resource: s.Resource, Type: s.Type,
		Start: s.Start, Duration: s.Duration, Meta: maps.Clone(s.Meta), Metrics: maps.Clone(s.Metrics),
		SpanID: s.SpanID, TraceID: s.TraceID, ParentID: s.ParentID, Error: s.Error, Sampled: s.Sampled,
	}
}

func Equal(a, b Span) bool {
	am, bm, ax, bx := a.Meta, b.Meta, a.Metrics, b.Metrics
	a.Meta, b.Meta, a.Metrics, b.Metrics = nil, nil, nil, nil
	return a.Name == b.Name && a.Service == b.Service && a.Resource == b.Resource && a.Type == b.Type &&
		a.Start == b.Start && a.Duration == b.Duration && a.SpanID == b.SpanID && a.TraceID == b.TraceID &&
		a.ParentID == b.ParentID && a.Error == b.Error && a.Sampled == b.Sampled &&
		maps.Equal(am, bm) && maps.Equal(ax, bx)
}

// Submission is one call of the transport.
type Submission struct {
	At     time.Duration
	Traces [][]Span
	raw    [][]*tracer.Span
}

func (s *Submission) Count() (n int) {
	for _, t := range s.Traces {
		n += len(t)
	}
	return n
}

// Changed says if the submitted spans have been modified since.
func (s *Submission) Changed() bool {
	if len(s.raw) != len(s.Traces) {
		return true
	}
	for i, t := range s.raw {
		if len(t) != len(s.Traces[i]) {
			return true
		}
		for k, span := range t {
			if !Equal(Copy(span), s.Traces[i][k]) {
				return true
			}
		}
	}
	return false
}

type Box struct {
	in    chan proxy.Trace
	done  chan struct{}
	start time.Time

	mu   sync.Mutex
	subs []*Submission
	// Behave is called for every submission (nil: respond immediately)
	Behave func(n int) error
}

var ErrAgent = errors.New("agent is not well")

// Start must be called inside of a bubble.
func Start(behave func(n int) error) *Box {
	b := &Box{in: make(chan proxy.Trace), done: make(chan struct{}), start: time.Now(), Behave: behave}
	go func() {
		defer close(b.done)
		datadog.Sink(b, b.in)
	}()
	return b
}

func (b *Box) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	s := &Submission{At: time.Since(b.start), raw: traces}
	for _, t := range traces {
		list := make([]Span, 0, len(t))
		for _, span := range t {
			list = append(list, Copy(span))
		}
		s.Traces = append(s.Traces, list)
	}
	b.mu.Lock()
	n := len(b.subs)
	b.subs = append(b.subs, s)
	b.mu.Unlock()
	if b.Behave != nil {
		if err := b.Behave(n); err != nil {
			return answer(n, true), err
		}
	}
	return answer(n, false), nil
}

// answer makes one of the many answers an agent may give. Its body has been closed by the transport.
func answer(n int, failing bool) *http.Response {
	res := &http.Response{StatusCode: 200, Header: http.Header{}, Body: http.NoBody}
	if failing {
		res.StatusCode = []int{0, 500, 503, 429, 413, 400, 404, 401, 302, 408, 502}[n%11]
	}
	if res.StatusCode == 0 {
		// there was none
		return &http.Response{}
	}
	res.Status = fmt.Sprintf("%d %s", res.StatusCode, http.StatusText(res.StatusCode))
	res.Proto, res.ProtoMajor, res.ProtoMinor = "HTTP/1.1", 1, 1
	for i, h := range [][2]string{{"Retry-After", "3600"}, {"Connection", "close"}, {"X-RateLimit-Remaining", "0"}, {"Content-Type", "text/plain"}, {"Datadog-Agent-Version", "6.1"}, {"X-RateLimit-Reset", "600"}, {"Retry-After", "Wed, 21 Oct 2099 07:28:00 GMT"}} {
		if (n*(2*i+3)+i)%4 == 0 {
			res.Header.Set(h[0], h[1])
			res.Close = res.Close || h[0] == "Connection"
		}
	}
	for i, name := range dict.Get().New.Strings {
		if (n+i)%3 == 0 {
			res.Header.Set(name, []string{"0", "1", "60", "true"}[n%4])
		}
	}
	return res
}

func (b *Box) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}

func (b *Box) SetHeader(string, string) {}

func (b *Box) Now() time.Duration { return time.Since(b.start) }

func (b *Box) Until(at time.Duration) {
	if d := at - b.Now(); d > 0 {
		time.Sleep(d)
	}
}

// Hand gives a trace to the sink and returns how long the sink made the caller wait (virtual time).
func (b *Box) Hand(trace proxy.Trace) time.Duration {
	began := time.Now()
	select {
	case b.in <- trace:
	case <-time.After(24 * time.Hour):
	}
	return time.Since(began)
}

// Submissions returns the submissions so far, once nothing is going on.
func (b *Box) Submissions() []*Submission {
	synctest.Wait()
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]*Submission(nil), b.subs...)
}

// Stop ends the sink.
func (b *Box) Stop() {
	close(b.in)
	<-b.done
	synctest.Wait()
}
