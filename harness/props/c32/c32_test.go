package c32

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/avro"
	"verif/harness/lib/dec"
	"verif/harness/lib/gen"
	"verif/harness/lib/kafka"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

// usage is what a process holds on to.
type usage struct {
	Heap       uint64
	Objects    uint64
	Stack      uint64
	Goroutines int
	Files      int
}

func measure() (u usage) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		// pools are emptied by the second one
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	u.Heap, u.Objects, u.Stack, u.Goroutines = m.HeapAlloc, m.HeapObjects, m.StackInuse, runtime.NumGoroutine()
	if entries, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.Files = len(entries)
	}
	return u
}

// TestMain lets the binary be the proxy.
func TestMain(m *testing.M) {
	if args := os.Getenv("VERIF_PROXY_ARGS"); args != "" {
		logrus.SetOutput(io.Discard)
		os.Args = append([]string{"proxy"}, strings.Split(args, "\n")...)
		routing := func(router *httprouter.Router) http.Handler {
			router.GET("/verif/usage", func(w http.ResponseWriter, _ *http.Request, _ httprouter.Params) {
				_ = json.NewEncoder(w).Encode(measure())
			})
			return router
		}
		zipkinproxy.MainWithRouting(routing, func(span proxy.Span) (proxy.Span, error) { return span, nil })
		fmt.Println("the proxy has ended")
		os.Exit(3)
	}
	os.Exit(m.Run())
}

// mix is a bijection, so that ids which follow each other look random and are never the same.
func mix(x uint64) proxy.Id {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return proxy.Id(x)
}

// what is held on to may differ by this much
const limit = 2 << 20

func low(us []usage) (res usage) {
	res = us[0]
	for _, u := range us {
		res.Heap, res.Objects, res.Stack = min(res.Heap, u.Heap), min(res.Objects, u.Objects), min(res.Stack, u.Stack)
		res.Goroutines, res.Files = min(res.Goroutines, u.Goroutines), min(res.Files, u.Files)
	}
	return res
}

// grown says what has grown.
func grown(before, after []usage, limit uint64) (res [][2]string) {
	a, b := low(before), low(after)
	if b.Heap > a.Heap+limit {
		res = append(res, [2]string{"memory", fmt.Sprintf("the memory in use grows from %d to %d kB", a.Heap>>10, b.Heap>>10)})
	}
	if b.Stack > a.Stack+limit {
		res = append(res, [2]string{"stack", fmt.Sprintf("the memory of stacks grows from %d to %d kB", a.Stack>>10, b.Stack>>10)})
	}
	if b.Goroutines > a.Goroutines+8 {
		res = append(res, [2]string{"goroutines", fmt.Sprintf("the number of goroutines grows from %d to %d", a.Goroutines, b.Goroutines)})
	}
	if b.Files > a.Files+8 {
		res = append(res, [2]string{"files", fmt.Sprintf("the number of open files grows from %d to %d", a.Files, b.Files)})
	}
	return res
}

// growth compares what is held at the beginning and at the end of a long time.
func growth(r *rep.R, what string, us []usage, load string) bool {
	n := max(1, len(us)/5)
	before, after := us[:n], us[len(us)-n:]
	found := grown(before, after, limit)
	for _, g := range found {
		r.Violate(g[0], what+": "+g[1], map[string]any{"load": load, "usage": us})
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for _, u := range us {
			fmt.Fprintf(os.Stderr, "%s: %+v\n", what, u)
		}
	}
	r.Count("measurements", len(us))
	r.Sample(map[string]any{"what": what, "first": low(before), "last": low(after), "load": load, "all": us})
	return len(found) > 0
}

// drain is a transport that keeps nothing.
type drain struct {
	spans, calls atomic.Int64
	fail         atomic.Bool
}

func (d *drain) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	d.calls.Add(1)
	for _, t := range traces {
		d.spans.Add(int64(len(t)))
	}
	if d.fail.Load() {
		return nil, errors.New("the agent is not there")
	}
	return nil, nil
}

func (d *drain) SendServices(map[string]tracer.Service) (*http.Response, error) { return nil, nil }
func (d *drain) SetHeader(string, string)                                       {}

// pipeline lets the collector, the forwarder's part of the work, the sink and the list of spans run for days of virtual time.
func pipeline(r *rep.R, t *testing.T) {
	rng := r.Rand("pipeline")
	var us []usage
	spans, traces := 0, 0
	epochs := r.N(24, 240)
	rep.Bubble(t, func(t *testing.T) {
		in, out := make(chan proxy.Span, 256), make(chan proxy.Trace, 64)
		toSink, toList := make(chan proxy.Trace, 256), make(chan proxy.Trace, 256)
		transport := &drain{}
		var texts atomic.Int64
		list := zipkinproxy.NewSpansBuffer(2048)
		go func() { zipkinproxy.ErrorCorrectSpans(in, out); close(out) }()
		go datadog.Sink(transport, toSink)
		go list.ReadFrom(toList)
		go func() {
			for trace := range out {
				for i := range trace {
					// as converters do
					texts.Add(int64(len(trace[i].Id.String()) + len(trace[i].Trace.String()) + len(trace[i].Timestamp.ToTime().String())))
				}
				toSink <- trace
				toList <- trace
			}
			close(toSink)
			close(toList)
		}()
		var next uint64
		id := func() proxy.Id { next++; return mix(next) }
		send := func(trace, id, parent proxy.Id) {
			spans++
			span := proxy.Span{Trace: trace, Id: id, Parent: parent, Name: "name-" + strconv.FormatUint(next, 36), Service: "service-" + strconv.FormatUint(next/3, 36),
				Timestamp: proxy.Timestamp(time.Now().UnixNano()), Duration: time.Millisecond}
			switch next % 8 {
			case 0, 1, 2:
				span.AddTag("tag-"+strconv.FormatUint(next, 36), "value")
			case 3:
				span.AddTag("error", "error "+strconv.FormatUint(next, 36))
			case 4:
				span.Timings.CS, span.Timings.CR = span.Timestamp, span.Timestamp+1000
			case 5:
				span.Timings.SR, span.Timings.SS = span.Timestamp, span.Timestamp+1000
			}
			in <- span
		}
		for epoch := 0; epoch < epochs; epoch++ {
			r.Progress(fmt.Sprintf("epoch %d", epoch))
			transport.fail.Store(epoch%4 == 3)
			logrus.SetLevel(logrus.InfoLevel)
			if epoch%5 == 1 {
				logrus.SetLevel(logrus.DebugLevel)
			}
			// traces that never end
			endless := make([]proxy.Id, []int{250, 0}[epoch*2/epochs])
			for i := range endless {
				endless[i] = id()
			}
			for second := 0; second < 50; second++ {
				for i := second % 5; i < len(endless); i += 5 {
					send(endless[i], id(), endless[i])
				}
				for i := 0; i < 200; i++ {
					x := id()
					traces++
					send(x, x, x)
				}
				for i := 0; i < 60; i++ {
					// with children, some twice, some without the root, several roots, a circle
					x := id()
					traces++
					shape := rng.IntN(5)
					var ids []proxy.Id
					if shape != 0 {
						send(x, x, x)
					}
					ids = append(ids, x)
					for k := rng.IntN(12); k > 0; k-- {
						y := id()
						send(x, y, ids[rng.IntN(len(ids))])
						if rng.IntN(3) == 0 {
							send(x, y, ids[rng.IntN(len(ids))])
						}
						ids = append(ids, y)
					}
					switch shape {
					case 1:
						send(x, id(), id())
					case 2:
						a, b := id(), id()
						send(x, a, b)
						send(x, b, a)
					}
				}
				for i := 0; i < 20; i++ {
					send([]proxy.Id{0, id()}[i%2], []proxy.Id{id(), 0}[i%2], id())
				}
				time.Sleep(time.Second)
				if second%3 == 0 {
					// somebody looks at it
					shown, err := json.Marshal(list.ToSlice())
					if err != nil {
						r.Violate("json", fmt.Sprintf("the list of spans cannot be shown: %v", err), nil)
					}
					r.Count("bytes shown", len(shown))
				}
			}
			for i := 0; i < 3; i++ {
				// too large, and some more of it later
				x := id()
				if i > 0 {
					send(x, x, x)
				}
				for k := 0; k < 8300+rng.IntN(500); k++ {
					send(x, id(), x)
				}
				time.Sleep(time.Second)
				for k := 0; k < 50; k++ {
					send(x, id(), x)
				}
				traces++
			}
			if epoch%6 == 2 {
				// more than can be held
				for i := 0; i < 13_000; i++ {
					x := id()
					traces++
					for k := 0; k < 9; k++ {
						send(x, id(), x)
					}
				}
			}
			time.Sleep(30 * time.Second)
			if epoch%3 == 0 {
				// a night
				time.Sleep(8 * time.Hour)
			}
			synctest.Wait()
			if list.ToSlice() == nil {
				r.Abort("nothing has come out")
			}
			us = append(us, measure())
		}
		if n := transport.spans.Load(); n < int64(spans/3) {
			r.Inconclusive("only %d of %d spans were submitted", n, spans)
		}
		r.Count("submissions", int(transport.calls.Load()))
		r.Count("spans in virtual time", spans)
		r.Count("traces in virtual time", traces)
		if growth(r, "the pipeline", us[6:], fmt.Sprintf("%d spans of %d traces in %d epochs", spans, traces, epochs)) {
			// what is left may not end
			r.Finish()
		}
		close(in)
	})
}

// decoders reads lots of documents with texts that never come again.
func decoders(r *rep.R) {
	var us []usage
	docs, size := 0, 0
	for epoch := 0; epoch < r.N(15, 120); epoch++ {
		r.Progress(fmt.Sprintf("documents %d", epoch))
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			rng := r.Rand("docs", epoch, g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				n, total := 0, 0
				for i := 0; i < 500; i++ {
					uniq := fmt.Sprintf("%d-%d-%d-%s", epoch, g, i, strings.Repeat("x", rng.IntN(900)))
					spans := make([]svc.S, rng.IntN(5))
					for k := range spans {
						spans[k] = svc.S{Trace: proxy.Id(rng.Uint64() | 1), Id: proxy.Id(rng.Uint64() | 1), Name: "n" + uniq + strconv.Itoa(k), Service: "s" + uniq, Start: 1_600_000_000_000_000, Duration: 1,
							Tags: map[string]string{"k" + uniq: "v" + uniq, "a": "b"}}
					}
					f := svc.Formats[rng.IntN(3)]
					doc := f.Doc(spans)
					if rng.IntN(3) == 0 {
						doc = doc[:rng.IntN(len(doc))]
					} else if rng.IntN(6) == 0 {
						doc = gen.Mutate(rng, doc)
					}
					for _, d := range dec.Formats {
						if d.Name == f.Name {
							_, _ = d.Parse(bytes.NewReader(doc))
						}
					}
					if rng.IntN(4) == 0 {
						s := gen.AnySpan(rng)
						s.Name = uniq
						b, _ := avro.Encode(s, rng)
						if rng.IntN(3) == 0 {
							b = b[:rng.IntN(len(b))]
						}
						_, _ = dec.Binary(bytes.NewReader(b))
						n++
					}
					n++
					total += len(doc)
				}
				for i := 0; i < 3000; i++ {
					// far more than the cache may hold
					cache.String(fmt.Sprintf("%d/%d/%d %s", epoch, g, i, strings.Repeat("y", rng.IntN(100))))
				}
				mu.Lock()
				docs += n
				size += total
				mu.Unlock()
			}()
		}
		wg.Wait()
		us = append(us, measure())
	}
	r.Count("documents", docs)
	growth(r, "the decoders", us[5:], fmt.Sprintf("%d documents of %d MB", docs, size>>20))
}

// sinkhole is a trace agent that keeps nothing.
type sinkhole struct {
	l        net.Listener
	requests atomic.Int64
	fail     atomic.Bool
}

func hole(r *rep.R) *sinkhole {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Abort("agent: %v", err)
	}
	h := &sinkhole{l: l}
	go func() { _ = http.Serve(l, h) }()
	return h
}

func (h *sinkhole) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	_, _ = io.Copy(io.Discard, req.Body)
	n := h.requests.Add(1)
	if h.fail.Load() {
		if n%2 == 0 {
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(http.StatusServiceUnavailable)
	}
}

// service lets a proxy run as a process and loads it with everything that can come.
func service(r *rep.R, dir, name string, withKafka bool) {
	rng := r.Rand("service", name)
	agent := hole(r)
	defer agent.l.Close()
	s := &svc.Svc{Addr: fmt.Sprintf("127.0.0.1:%d", svc.FreePort())}
	s.Client = svc.NewClient(64)
	args := []string{"--http-address", s.Addr, "--log-file", "/dev/null", "--trace-host", "127.0.0.1", "--trace-port", strconv.Itoa(agent.l.Addr().(*net.TCPAddr).Port)}
	var cluster *kafka.Cluster
	if withKafka {
		var err error
		if cluster, err = kafka.Start(2, map[string]int32{}); err != nil {
			r.Abort("broker: %v", err)
		}
		args = append(args, "--kafka-disable-tls")
		for _, addr := range cluster.Addrs() {
			args = append(args, "--kafka-address", addr)
		}
	}
	exe, err := os.Executable()
	if err != nil {
		r.Abort("executable: %v", err)
	}
	output := filepath.Join(dir, "proxy-"+name)
	out, err := os.Create(output)
	if err != nil {
		r.Abort("output: %v", err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_PROXY_ARGS="+strings.Join(args, "\n"))
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		r.Abort("start: %v", err)
	}
	out.Close()
	done := make(chan struct{})
	var wanted atomic.Bool
	go func() {
		err := cmd.Wait()
		close(done)
		if wanted.Load() {
			return
		}
		text, _ := os.ReadFile(output)
		if bytes.Contains(text, []byte("address already in use")) {
			r.Abort("port is taken: %s", text)
		}
		r.Fatal("ended", fmt.Sprintf("the proxy has ended: %v", err), string(text[:min(len(text), 20000)]))
	}()
	defer func() {
		wanted.Store(true)
		_ = cmd.Process.Kill()
		<-done
		if cluster != nil {
			for i := 0; i < cluster.Nodes(); i++ {
				cluster.Down(i)
			}
		}
	}()
	for deadline := time.Now().Add(60 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		resp, err := s.Client.Get("http://" + s.Addr + "/admin/ping")
		if err == nil {
			resp.Body.Close()
			break
		}
		if time.Now().After(deadline) {
			r.Abort("the proxy did not start: %v", err)
		}
	}
	if withKafka {
		for deadline := time.Now().Add(60 * time.Second); !cluster.Stable("zipkin-proxy", "zipkin-spans", 1); time.Sleep(50 * time.Millisecond) {
			if time.Now().After(deadline) {
				r.Abort("the consumer does not become ready: %v", cluster.Problems())
			}
		}
	}

	var next atomic.Uint64
	var posts, spans atomic.Int64
	single := &svc.Svc{Addr: s.Addr, Client: svc.NewClient(0)}
	post := func(f svc.Format, enc string, body []byte) int {
		// everything a client says about itself is new
		n := strconv.FormatInt(posts.Add(1), 36)
		ctype := f.Type
		path, header := f.Path, map[string]string{"User-Agent": "agent/" + n}
		if k := posts.Load() % 8; k > 0 {
			path += "?from=" + n
			for _, name := range []string{"X-Forwarded-For", "X-Real-Ip", "X-B3-Traceid", "X-B3-Spanid", "X-Request-Id", "Accept", "Accept-Language", "X-" + n} {
				header[name] = n
			}
			header["Referer"], header["Cookie"], header["Authorization"] = "http://"+n+"/", "id="+n, "Bearer "+n
			header["Host"], header["Origin"] = n+".example.com", "http://"+n+".example.com"
			ctype += "; boundary=" + n
			if k == 1 && f.Name != "v1" {
				ctype = "application/" + n
			}
		}
		c := s
		if posts.Load()%3 > 0 {
			// on a connection of its own
			c = single
		}
		status, _ := c.PostWith(path, ctype, enc, header, bytes.NewReader(body))
		return status
	}
	one := func(i uint64) svc.S {
		id := mix(i)
		span := svc.S{Trace: id, Id: id, Name: "name-" + strconv.FormatUint(i, 36), Service: "service-" + strconv.FormatUint(i, 36), Start: time.Now().UnixMicro(), Duration: 1000}
		if i%3 == 0 {
			span.Tags = map[string]string{"tag-" + strconv.FormatUint(i, 36): "value", "error": "text " + strconv.FormatUint(i, 36)}
		}
		return span
	}
	client := func(rng *rand.Rand) {
		for k := 0; k < 28; k++ {
			// many traces
			doc := make([]svc.S, 300)
			for i := range doc {
				doc[i] = one(next.Add(1))
			}
			f := svc.Formats[rng.IntN(3)]
			spans.Add(int64(len(doc)))
			if rng.IntN(2) == 0 {
				post(f, "gzip", svc.Gzip(1, f.Doc(doc)))
			} else {
				post(f, "", f.Doc(doc))
			}
		}
		for k := 0; k < 1000; k++ {
			// nothing to report, but a client that was never heard of before
			f := svc.Formats[k%3]
			post(f, "", f.Doc(nil))
		}
		for k := 0; k < 600; k++ {
			f := svc.Formats[rng.IntN(3)]
			doc := f.Doc([]svc.S{one(next.Add(1)), one(next.Add(1))})
			z := svc.Gzip(1, doc)
			switch []int{0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 5}[rng.IntN(24)] {
			case 0:
				spans.Add(2)
				post(f, "", doc)
			case 1:
				post(f, "", doc[:rng.IntN(len(doc))])
			case 2:
				post(f, "gzip", z[:rng.IntN(len(z))])
			case 3:
				post(f, "gzip", doc)
			case 4:
				// on a connection of its own
				_, _ = s.Raw([]byte(fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", f.Path, len(doc)+rng.IntN(2)*10)), doc)
				posts.Add(1)
			case 5:
				// gone before the end
				_ = s.Leave(time.Duration(rng.IntN(5))*time.Millisecond, []byte(fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", f.Path, len(doc))), doc[:rng.IntN(len(doc))])
				posts.Add(1)
			}
			if k%10 == 0 {
				// for something that is not there
				_, _ = s.Post("/api/"+strconv.FormatUint(next.Add(1), 36), f.Type, "", bytes.NewReader(doc))
				posts.Add(1)
			}
		}
		for k := 0; k < 3; k++ {
			_, _, _ = s.Admin("spans", nil)
			_, _, _ = s.Admin("metrics", nil)
		}
	}
	ask := func() usage {
		var u usage
		for i := 0; i < 3; i++ {
			resp, err := s.Client.Get("http://" + s.Addr + "/verif/usage")
			if err != nil {
				// whoever waits for the process knows more
				time.Sleep(500 * time.Millisecond)
				r.Abort("usage: %v", err)
			}
			var x usage
			err = json.NewDecoder(resp.Body).Decode(&x)
			resp.Body.Close()
			s.Client.CloseIdleConnections()
			if err != nil {
				r.Abort("usage: %v", err)
			}
			if i == 0 || x.Heap < u.Heap {
				u = x
			}
			time.Sleep(200 * time.Millisecond)
		}
		return u
	}
	var us []usage
	phases := r.N(4, 40)
	for phase := 0; phase < phases; phase++ {
		r.Progress(fmt.Sprintf("%s: phase %d", name, phase))
		agent.fail.Store(phase%3 == 1)
		var wg sync.WaitGroup
		for c := 0; c < 8; c++ {
			crng := rand.New(rand.NewPCG(rng.Uint64(), 1))
			wg.Add(1)
			go func() {
				defer wg.Done()
				client(crng)
			}()
		}
		// one that is too large
		large := make([]svc.S, 8400)
		root := mix(next.Add(1))
		for i := range large {
			large[i] = one(next.Add(1))
			large[i].Trace, large[i].Parent = root, root
		}
		post(svc.V2, "gzip", svc.Gzip(1, svc.V2.Doc(large)))
		if withKafka {
			parts := cluster.Partitions("zipkin-spans")
			for i := 0; i < 2000; i++ {
				good, _ := avro.Encode(gen.AnySpan(rng), rng)
				bad := avro.Garbage(rng, good)
				cluster.Inject("zipkin-spans", rng.IntN(parts), []kafka.KV{{Key: []byte("12345678"), Value: bad}})
			}
			for i := 0; i < 5; i++ {
				// too large for the topic
				big := one(next.Add(1))
				big.Tags = map[string]string{"large": strings.Repeat("z", 900_000)}
				post(svc.V2, "", svc.V2.Doc([]svc.S{big}))
			}
		}
		wg.Wait()
		agent.fail.Store(false)
		// until all of it has been handled: it is held for 8 s, and handed over within 2 s
		time.Sleep(10500 * time.Millisecond)
		if withKafka {
			time.Sleep(2500 * time.Millisecond)
		}
		s.Client.CloseIdleConnections()
		time.Sleep(200 * time.Millisecond)
		u := ask()
		if phase == phases-1 {
			// on a busy machine it may take longer; what is lost stays
			for i := 0; i < 12 && len(grown(us[1:2], []usage{u}, limit)) > 0; i++ {
				time.Sleep(5 * time.Second)
				u = ask()
			}
		}
		us = append(us, u)
	}
	if cluster != nil {
		if p := cluster.Problems(); len(p) > 0 {
			r.Abort("the broker did not understand the proxy: %v", p)
		}
		r.Count("records", len(cluster.Records(0)))
	}
	r.Count("posts", int(posts.Load()))
	r.Count("spans posted", int(spans.Load()))
	r.Count("requests at the agent", int(agent.requests.Load()))
	growth(r, name, us[1:], fmt.Sprintf("%d posts, %d spans in %d phases", posts.Load(), spans.Load(), phases))
	for i := range us {
		r.Eval(rep.Hash(name, i), true)
	}
}

func Test(t *testing.T) {
	rep.Run(t, "C32", "long runs with ids and texts that never come again: collector, sink and list of spans for days of virtual time, the decoders and the string cache, a consumer that goes from session to session, and proxies as processes with and without brokers that get everything from good documents to clients that leave; what is held on to (live heap, stacks, goroutines, open files) is measured whenever nothing is left to do; distinct by measurement", func(r *rep.R) {
		r.Need("measurements", 24)
		r.Need("spans in virtual time", 500_000)
		r.Need("spans posted", 200_000)
		r.Need("documents", 40_000)
		r.Need("sessions", 2000)
		r.Need("spans while the agent hangs", 400_000)
		r.Need("spans consumed", 20_000)
		r.Need("records", 50_000)
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			dir = t.TempDir()
		}
		logrus.SetOutput(io.Discard)
		var wg sync.WaitGroup
		for _, name := range []string{"a proxy", "a proxy with brokers"} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				service(r, dir, name, name != "a proxy")
			}()
		}
		if os.Getenv("VERIF_DEBUG") == "" {
			wg.Wait()
		}
		// these measure this process, so that nothing else may go on
		pipeline(r, t)
		stalled(r, t)
		decoders(r)
		consumer(r, t)
		for i := 0; i < 2; i++ {
			r.Eval(rep.Hash("here", i), true)
		}
	})
}
