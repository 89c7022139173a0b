// Package agent is a trace agent on the loopback network that records what it is sent.
package agent

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Span is a span as the agent got it.
type Span struct {
	Trace, Id, Parent proxy.Id

	Name, Service, Resource string

	Start    proxy.Timestamp
	Duration time.Duration
	Meta     map[string]string
	Error    int64
}

type Mode int

const (
	OK    Mode = iota
	Fail       // 500 after reading the request
	Hang       // the answer comes too late
	Reset      // the connection is closed instead of an answer
	Deny       // the connection is closed before the request is read
)

// Request is one submission.
type Request struct {
	At     time.Time
	Path   string
	Mode   Mode
	Traces [][]Span
	Err    error // the request could not be read or decoded
}

type Agent struct {
	Host string
	Port int

	mu       sync.Mutex
	answers  atomic.Int64
	mode     Mode
	requests []Request
	notify   chan struct{}
	server   *http.Server
	listener net.Listener
}

func Start() (*Agent, error) {
	return StartAt("127.0.0.1", 0)
}

// StartAt starts an agent at an address.
func StartAt(host string, port int) (*Agent, error) {
	a := &Agent{Host: host, Port: port, notify: make(chan struct{})}
	return a, a.Up()
}

// LowPort returns a port below 1024 that is free at the address, or 0.
func LowPort(host string) int {
	for range 50 {
		port := 600 + rand.IntN(424)
		if l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, port)); err == nil {
			l.Close()
			return port
		}
	}
	return 0
}

// Up lets the agent listen (again on the same port).
func (a *Agent) Up() error {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", a.Host, a.Port))
	if err != nil {
		return err
	}
	a.Port = l.Addr().(*net.TCPAddr).Port
	s := &http.Server{Handler: a}
	a.mu.Lock()
	a.server, a.listener = s, l
	a.mu.Unlock()
	go func() { _ = s.Serve(l) }()
	return nil
}

// Down closes the port and all connections.
func (a *Agent) Down() {
	a.mu.Lock()
	s, l := a.server, a.listener
	a.mu.Unlock()
	_ = l.Close() // the server may not know it yet
	_ = s.Close()
}

func (a *Agent) Set(m Mode) {
	a.mu.Lock()
	a.mode = m
	a.mu.Unlock()
}

func (a *Agent) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	a.mu.Lock()
	mode := a.mode
	a.mu.Unlock()

	res := Request{At: time.Now(), Path: req.URL.Path, Mode: mode}
	if mode == Deny {
		a.record(res)
		panic(http.ErrAbortHandler)
	}
	body, err := io.ReadAll(req.Body)
	if err == nil {
		res.Traces, err = decode(req, body)
	}
	res.Err = err
	a.record(res)

	// agents have a lot to say
	n := int(a.answers.Add(1))
	for i, h := range [][2]string{{"Retry-After", "3600"}, {"Connection", "close"}, {"X-RateLimit-Remaining", "0"}, {"Datadog-Agent-Version", "6.1"}} {
		if (n*(2*i+3)+i)%9 == 0 {
			w.Header().Set(h[0], h[1])
		}
	}
	switch mode {
	case Fail:
		http.Error(w, "failing", []int{500, 503, 429, 413, 400, 401, 502}[n%7])
	case Hang:
		select {
		case <-req.Context().Done():
		case <-time.After(10 * time.Second):
		}
	case Reset:
		panic(http.ErrAbortHandler)
	default:
		if err != nil {
			http.Error(w, err.Error(), 400)
			return
		}
		_, _ = io.WriteString(w, []string{"", "OK\n", `{"rate_by_service":{"service:,env:":0.01}}`, `{"rate_by_service":{}}`, strings.Repeat("x", 100_000)}[n%5])
	}
}

func (a *Agent) record(r Request) {
	a.mu.Lock()
	a.requests = append(a.requests, r)
	close(a.notify)
	a.notify = make(chan struct{})
	a.mu.Unlock()
}

// Requests returns everything received so far.
func (a *Agent) Requests() []Request {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]Request{}, a.requests...)
}

// Wait waits until the condition on the requests holds or the time is over.
func (a *Agent) Wait(limit time.Duration, cond func([]Request) bool) bool {
	deadline := time.Now().Add(limit)
	for {
		a.mu.Lock()
		reqs, notify := a.requests[:len(a.requests):len(a.requests)], a.notify
		a.mu.Unlock()
		if cond(reqs) {
			return true
		}
		select {
		case <-notify:
		case <-time.After(time.Until(deadline)):
			return cond(a.Requests())
		}
	}
}

func decode(req *http.Request, body []byte) ([][]Span, error) {
	if req.Method != "POST" {
		return nil, fmt.Errorf("method %s", req.Method)
	}
	var v any
	switch req.URL.Path {
	case "/v0.3/traces":
		var rest []byte
		var err error
		if v, rest, err = Unpack(body); err != nil {
			return nil, err
		}
		if len(rest) > 0 {
			return nil, fmt.Errorf("%d bytes after the traces", len(rest))
		}
	case "/v0.2/traces":
		d := json.NewDecoder(bytes.NewReader(body))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("unexpected path %s", req.URL.Path)
	}

	list, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("traces are %T", v)
	}
	var traces [][]Span
	for _, t := range list {
		spans, ok := t.([]any)
		if !ok {
			return nil, fmt.Errorf("a trace is %T", t)
		}
		var trace []Span
		for _, s := range spans {
			m, ok := s.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("a span is %T", s)
			}
			span, err := decodeSpan(m)
			if err != nil {
				return nil, err
			}
			trace = append(trace, span)
		}
		traces = append(traces, trace)
	}
	return traces, nil
}

func decodeSpan(m map[string]any) (s Span, err error) {
	num := func(key string) uint64 {
		switch v := m[key].(type) {
		case int64:
			return uint64(v)
		case uint64:
			return v
		case json.Number:
			var n uint64
			if _, e := fmt.Sscan(string(v), &n); e == nil {
				return n
			}
			var i int64
			if _, e := fmt.Sscan(string(v), &i); e == nil {
				return uint64(i)
			}
		}
		err = fmt.Errorf("%s is %T %v", key, m[key], m[key])
		return 0
	}
	str := func(key string) string {
		v, ok := m[key].(string)
		if !ok {
			err = fmt.Errorf("%s is %T %v", key, m[key], m[key])
		}
		return v
	}
	s = Span{
		Trace: proxy.Id(num("trace_id")), Id: proxy.Id(num("span_id")), Parent: proxy.Id(num("parent_id")),
		Name: str("name"), Service: str("service"), Resource: str("resource"),
		Start: proxy.Timestamp(num("start")), Duration: time.Duration(num("duration")), Error: int64(num("error")),
	}
	if meta, ok := m["meta"]; ok && meta != nil {
		mm, ok := meta.(map[string]any)
		if !ok {
			return s, fmt.Errorf("meta is %T", meta)
		}
		s.Meta = map[string]string{}
		for k, v := range mm {
			text, ok := v.(string)
			if !ok {
				return s, fmt.Errorf("meta %s is %T", k, v)
			}
			s.Meta[k] = text
		}
	}
	return s, err
}

// Key identifies a span.
type Key struct{ Trace, Id proxy.Id }

// Diff compares a span with the span it should have been made of.
func Diff(got Span, in proxy.Span) string {
	want := max(in.Duration, time.Microsecond)
	isError := int64(0)
	if v, ok := in.Tags["error"]; ok && v != "false" && v != "0" {
		isError = 1
	}
	switch {
	case got.Trace != in.Trace || got.Id != in.Id || got.Parent != in.Parent:
		return fmt.Sprintf("ids %x/%x/%x instead of %x/%x/%x", uint64(got.Trace), uint64(got.Id), uint64(got.Parent), uint64(in.Trace), uint64(in.Id), uint64(in.Parent))
	case got.Service != in.Service || got.Name != in.Service:
		return fmt.Sprintf("service %q and name %q instead of %q", got.Service, got.Name, in.Service)
	case in.Name != "" && got.Resource != in.Name, in.Name == "" && got.Resource == "":
		return fmt.Sprintf("resource %q instead of %q", got.Resource, in.Name)
	case got.Start != in.Timestamp:
		return fmt.Sprintf("start %d instead of %d", got.Start, in.Timestamp)
	case got.Duration != want:
		return fmt.Sprintf("duration %d instead of %d", got.Duration, want)
	case got.Error != isError:
		return fmt.Sprintf("error %d", got.Error)
	}
	keys := map[string]bool{}
	for k := range got.Meta {
		keys[k] = true
	}
	for k := range in.Tags {
		keys[k] = true
	}
	names := make([]string, 0, len(keys))
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		g, gok := got.Meta[k]
		w, wok := in.Tags[k]
		if g != w || gok != wok {
			return fmt.Sprintf("tag %q is %q (%v) instead of %q (%v)", k, g, gok, w, wok)
		}
	}
	return ""
}
