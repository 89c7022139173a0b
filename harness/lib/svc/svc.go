// Package svc runs the whole service inside of the test process and talks to it over the loopback network.
package svc

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/rep"
)

// Svc is a running service.
type Svc struct {
	Addr   string
	Client *http.Client

	mu     sync.Mutex
	seen   []proxy.Span // copies of the spans given to the converter, in order
	count  map[Key]int
	notify chan struct{}
}

type Key struct{ Trace, Id proxy.Id }

var given sync.Map

// FreePort returns a port that nobody listens on. It is none of those that are given out by the system, so that
// nobody takes it by accident.
func FreePort() int {
	for range 200 {
		port := 15000 + rand.IntN(17000)
		if _, ok := given.LoadOrStore(port, true); ok {
			continue
		}
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err == nil {
			l.Close()
			return port
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Dial connects from any of the addresses of this machine.
func Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, byte(rand.IntN(256)), byte(rand.IntN(256)), byte(1+rand.IntN(254)))}}
	conn, err := d.DialContext(ctx, network, addr)
	if err != nil && ctx.Err() == nil {
		// not here
		d.LocalAddr = nil
		conn, err = d.DialContext(ctx, network, addr)
	}
	return conn, err
}

// NewClient returns a client that keeps so many connections, which come from many addresses.
func NewClient(idle int) *http.Client {
	return &http.Client{
		Transport: &http.Transport{MaxIdleConnsPerHost: idle, DisableKeepAlives: idle == 0, DisableCompression: true, DialContext: Dial},
		Timeout:   120 * time.Second,
	}
}

// Start runs the service, only once per process. The converter may be nil.
func Start(r *rep.R, agentPort int, convert func(proxy.Span) (proxy.Span, error), extra ...string) *Svc {
	logrus.SetOutput(io.Discard)
	s := &Svc{count: map[Key]int{}, notify: make(chan struct{})}
	s.Client = NewClient(400)
	converter := func(span proxy.Span) (proxy.Span, error) {
		s.record(span)
		if convert != nil {
			return convert(span)
		}
		return span, nil
	}
	s.Addr = fmt.Sprintf("127.0.0.1:%d", FreePort())
	os.Args = append([]string{"proxy", "--http-address", s.Addr, "--log-file", "/dev/null",
		"--trace-host", "127.0.0.1", "--trace-port", strconv.Itoa(agentPort)}, extra...)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				// the address may have been taken by somebody else
				if strings.Contains(fmt.Sprint(x), "address already in use") {
					r.Abort("port is taken: %v", x)
				}
				panic(x)
			}
		}()
		zipkinproxy.Main(converter)
	}()
	for deadline := time.Now().Add(60 * time.Second); ; {
		resp, err := s.Client.Get("http://" + s.Addr + "/admin/ping")
		if err == nil {
			resp.Body.Close()
			return s
		}
		if time.Now().After(deadline) {
			r.Abort("the service did not start: %v", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (s *Svc) record(span proxy.Span) {
	span.Tags = maps.Clone(span.Tags)
	s.mu.Lock()
	s.seen = append(s.seen, span)
	s.count[Key{span.Trace, span.Id}]++
	close(s.notify)
	s.notify = make(chan struct{})
	s.mu.Unlock()
}

// Seen returns the spans the converter was given since the position.
func (s *Svc) Seen(from int) []proxy.Span {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]proxy.Span{}, s.seen[from:]...)
}

func (s *Svc) Count(k Key) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.count[k]
}

// WaitSeen waits until the converter has seen all the spans.
func (s *Svc) WaitSeen(limit time.Duration, keys []Key) bool {
	deadline := time.Now().Add(limit)
	for i := 0; i < len(keys); {
		s.mu.Lock()
		ok, notify := s.count[keys[i]] > 0, s.notify
		s.mu.Unlock()
		if ok {
			i++
			continue
		}
		select {
		case <-notify:
		case <-time.After(time.Until(deadline)):
			return false
		}
	}
	return true
}

// Post sends a body and returns the status, 0 if there was no answer.
func (s *Svc) Post(path, contentType, encoding string, body io.Reader) (int, string) {
	return s.PostWith(path, contentType, encoding, nil, body)
}

// PostWith sends further headers as well.
func (s *Svc) PostWith(path, contentType, encoding string, header map[string]string, body io.Reader) (int, string) {
	req, err := http.NewRequest("POST", "http://"+s.Addr+path, body)
	if err != nil {
		panic(err)
	}
	for k, v := range header {
		if k == "Host" {
			req.Host = v
		}
		req.Header.Set(k, v)
	}
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	if encoding != "" {
		req.Header.Set("Content-Encoding", encoding)
	}
	resp, err := s.Client.Do(req)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	text, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, string(text)
}

// Leave sends the bytes over a connection of its own and closes it after the time, without reading an answer.
func (s *Svc) Leave(after time.Duration, parts ...[]byte) error {
	conn, err := Dial(context.Background(), "tcp", s.Addr)
	if err != nil {
		return err
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(120 * time.Second))
	for _, p := range parts {
		if _, err := conn.Write(p); err != nil {
			return err
		}
	}
	time.Sleep(after)
	return nil
}

// Raw sends the bytes over a connection of its own, closes the sending side and returns the status of the answer.
func (s *Svc) Raw(parts ...[]byte) (int, string) {
	conn, err := Dial(context.Background(), "tcp", s.Addr)
	if err != nil {
		return 0, err.Error()
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(120 * time.Second))
	for _, p := range parts {
		if _, err := conn.Write(p); err != nil {
			break // the answer may have come already
		}
	}
	_ = conn.(*net.TCPConn).CloseWrite()
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	text, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, string(text)
}

// Admin fetches an admin page and decodes the answer.
func (s *Svc) Admin(path string, into any) (status int, body []byte, err error) {
	req, _ := http.NewRequest("GET", "http://"+s.Addr+"/admin/"+path, nil)
	req.SetBasicAuth("admin", "bingo")
	req.Header.Set("Accept", "application/json")
	resp, err := s.Client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	body, err = io.ReadAll(resp.Body)
	if err != nil {
		return resp.StatusCode, body, err
	}
	if into != nil {
		err = json.Unmarshal(body, into)
	}
	return resp.StatusCode, body, err
}

func Gzip(level int, body []byte) []byte {
	var b bytes.Buffer
	w, err := gzip.NewWriterLevel(&b, level)
	if err != nil {
		panic(err)
	}
	_, _ = w.Write(body)
	_ = w.Close()
	return b.Bytes()
}
