import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
PASS='func(span proxy.Span) (proxy.Span, error) { return span, nil }'
KAFKA=lambda topics: '''	cluster, err := seedkafka.Start(1, map[string]int32{%s})
	if err != nil {
		t.Fatal(err)
	}
	brokers := []string{"--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0]}
'''%topics
BUGS=[
dict(id='main-lower-case-topic',property='C31',pkg='.',
 edits=[('main.go','''		closeConsumerGroup := balance.Consume(consumerGroup, opts.Kafka.Topic, callback)''','''		closeConsumerGroup := balance.Consume(consumerGroup, strings.ToLower(opts.Kafka.Topic), callback)''')],
 needs='a topic whose name has upper case letters',
 breaks='spans are published to one topic and consumed from another',
 extra={'seedkafka':KAFKALIB},
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
'''+KAFKA('"Spans": 2')+'''	seen := make(chan proxy.Span, 10)
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) { seen <- span; return span, nil }, append(brokers, "--kafka-topic", "Spans")...)
	deadline := time.After(60 * time.Second)
	for i := 1; ; i++ {
		post(fmt.Sprintf(`[{"traceId": "%x", "id": "%x", "name": "a", "timestamp": 1600000000000000}]`, i, i))
		select {
		case <-seen:
			return
		case <-deadline:
			t.Fatal("nothing is processed")
		case <-time.After(time.Second):
		}
	}
}
'''),
dict(id='main-topic-by-prefix',property='C31',pkg='.',
 edits=[('main.go','''		err := kafka.EnsureTopics(client, kafka.Topics{topic})
		FatalOnError(err, "Ensure that the topic exists failed")
''','''		// we might not be allowed to create topics, so only do it if we need to
		existing, err := client.Topics()
		FatalOnError(err, "List existing topics failed")

		if !strings.Contains(strings.Join(existing, ","), topic.Name) {
			err := kafka.EnsureTopics(client, kafka.Topics{topic})
			FatalOnError(err, "Ensure that the topic exists failed")
		}
''')],
 needs='a topic that does not exist next to one whose name contains its name',
 breaks='the topic is not created',
 extra={'seedkafka':KAFKALIB},
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
'''+KAFKA('"zipkin-spans-test": 2')+'''	seedRun(t, '''+PASS+''', brokers...)
	if n := cluster.Partitions("zipkin-spans"); n != 12 {
		t.Fatal(n)
	}
}
'''),
dict(id='main-agent-of-environment',property='C31',pkg='datadog',
 edits=[('datadog/converter.go','''func DefaultTransport(hostname, port string) tracer.Transport {
''','''func DefaultTransport(hostname, port string) tracer.Transport {
	// the agent might run on the host of our pod
	if host := os.Getenv("DD_AGENT_HOST"); host != "" {
		hostname = host
	}

''')],
 needs='DD_AGENT_HOST in the environment',
 breaks='traces are not sent to the agent named by the options',
 demo=SINK.replace('import (','import (\n\t"net"\n\t"net/http/httptest"\n\t"os"\n')+'''
func TestSeedDemo(t *testing.T) {
	got := make(chan bool, 10)
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { got <- true }))
	os.Setenv("DD_AGENT_HOST", "127.0.0.88")
	host, port, _ := net.SplitHostPort(server.Listener.Addr().String())
	_, _ = DefaultTransport(host, port).SendTraces([][]*tracer.Span{{{}}})
	select {
	case <-got:
	default:
		t.Fatal("not sent to the agent")
	}
}
'''),
dict(id='sink-log-traces-set',property='C31',pkg='datadog',
 edits=[('datadog/converter.go','''var logTraces = os.Getenv("DD_LOG_TRACES") == "true"''','''var _, logTraces = os.LookupEnv("DD_LOG_TRACES")''')],
 needs='DD_LOG_TRACES=false in the environment',
 breaks='traces go to the log and not to the agent',
 demo=SINK.replace('import (','import (\n\t"os"\n\t"os/exec"\n')+'''
func TestSeedDemo(t *testing.T) {
	if os.Getenv("DD_LOG_TRACES") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$")
		cmd.Env = append(os.Environ(), "DD_LOG_TRACES=false")
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
		return
	}
	seedSend(t, proxy.NewSpan("a", 1, 1, 1))
}
'''),
dict(id='http-gzip-of-api-only',property='C31',pkg='.',
 edits=[('handlers.go','''		if req.Header.Get("Content-Encoding") == "gzip" {''','''		if req.Header.Get("Content-Encoding") == "gzip" && strings.HasPrefix(req.URL.Path, "/api/") {''')],
 needs='a route of a custom routing that gets a compressed body',
 breaks='bodies for other routes are not decoded any more',
 demo=HTTP.replace('import (','import (\n\t"bytes"\n\t"compress/gzip"\n\t"io/ioutil"\n\t"net/http"\n')+'''
func TestSeedDemo(t *testing.T) {
	var got []byte
	handler := handleGzipRequestBody(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { got, _ = ioutil.ReadAll(req.Body) }))
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, _ = w.Write([]byte("hello"))
	_ = w.Close()
	req := httptest.NewRequest("POST", "/custom", &buf)
	req.Header.Set("Content-Encoding", "gzip")
	handler.ServeHTTP(httptest.NewRecorder(), req)
	if string(got) != "hello" {
		t.Fatalf("%q", got)
	}
	_ = strings.NewReader
	_ = httprouter.New
}
'''),
dict(id='http-logs-bodies',property='C31',pkg='.',
 edits=[('handlers.go','''	parsedSpans, err := parser(body)
''','''	if logrus.IsLevelEnabled(logrus.DebugLevel) {
		// dump the beginning of the body
		var head bytes.Buffer
		_, _ = io.CopyN(&head, body, 32*1024)
		log.Debugf("Received: %s", head.Bytes())

		body = &head
	}

	parsedSpans, err := parser(body)
'''),('handlers.go','''	"compress/gzip"
''','''	"bytes"
	"compress/gzip"
'''),('handlers.go','''	"github.com/rcrowley/go-metrics"
''','''	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"
''')],
 needs='verbose logging and a document of more than 32 kB',
 breaks='the rest of the document is not read, so that it is rejected',
 demo=HTTP.replace('import (','import (\n\t"io/ioutil"\n\n\t"github.com/sirupsen/logrus"\n')+'''
func TestSeedDemo(t *testing.T) {
	logrus.SetLevel(logrus.DebugLevel)
	logrus.SetOutput(ioutil.Discard)
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	w := httptest.NewRecorder()
	router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1", "name": "`+strings.Repeat("a", 40000)+`"}]`)))
	if w.Code != 202 {
		t.Fatal(w.Code)
	}
}
'''),
dict(id='collector-debug-sorts',property='C18',pkg='.',
 edits=[('correct.go','''	roots := trace.Roots()
	if len(roots) == 0 {
		return
	}

	var printNode''','''	// print the spans in order of their time
	sort.Slice(trace.spans, func(i, j int) bool {
		return trace.spans[i].Timestamp < trace.spans[j].Timestamp
	})

	roots := trace.Roots()
	if len(roots) == 0 {
		return
	}

	var printNode''')],
 needs='verbose logging, and a trace without its root whose spans have skewed clocks',
 breaks='correction starts at another span than the root, so that the times of the others are not corrected',
 demo=VT.replace('import (','import (\n\t"io/ioutil"\n').replace('ErrorLevel','DebugLevel')+'''
func TestSeedDemo(t *testing.T) {
	logrus.SetOutput(ioutil.Discard)
	base := proxy.Timestamp(1_600_000_000_000_000_000)
	a := proxy.NewSpan("a", 5, 3, 9)
	a.Timestamp, a.Duration = base+1000, 10
	b := proxy.NewSpan("b", 5, 4, 9)
	b.Timestamp, b.Duration = base+5000000, 100
	b.Timings = proxy.Timings{CS: base + 2000, CR: base + 4000, SR: base + 5000000, SS: base + 5001000}
	c := proxy.NewSpan("c", 5, 20, 9)
	c.Timestamp, c.Duration = base+3000, 10
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- a
		in <- b
		in <- c
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			for _, span := range trace {
				if span.Name == "b" && span.Timestamp != base+2000 {
					t.Fatal(span)
				}
			}
		}
	})
}
'''),
dict(id='collector-blacklist-keeps-traces',property='C32',pkg='.',
 edits=[('correct.go','''	blacklistedTraces := map[Id]none{}''','''	blacklistedTraces := map[Id]blacklisted{}'''),
 ('correct.go','''func finishTraces(traces map[Id]*tree, blacklist map[Id]none, outputCh''','''func finishTraces(traces map[Id]*tree, blacklist map[Id]blacklisted, outputCh'''),
 ('correct.go','''			blacklist[traceID] = none{}
			log.Warnf("Trace %s with %d nodes is too large.", traceID, trace.nodeCount)''','''			blacklist[traceID] = blacklisted{trace.Root()}
			log.Warnf("Trace %s with %d nodes is too large.", traceID, trace.nodeCount)'''),
 ('correct.go','''			blacklist[traceID] = none{}
			log.Warnf("Trace %s with %d nodes is too old", traceID, trace.nodeCount)''','''			blacklist[traceID] = blacklisted{trace.Root()}
			log.Warnf("Trace %s with %d nodes is too old", traceID, trace.nodeCount)'''),
 ('correct.go','''			if _, ok := blacklistedTraces[span.Trace]; ok {
''','''			if entry, ok := blacklistedTraces[span.Trace]; ok {
				if entry.root != nil {
					log.Debugf("Ignoring span of %s", entry.root.Service)
				}

'''),
 ('correct.go','''type none struct{}
''','''// what we know about a trace on the blacklist
type blacklisted struct {
	root *proxy.Span
}
''')],
 needs='many traces that are too large',
 breaks='all spans of up to a thousand too large traces are kept in memory',
 demo=VT.replace('import (','import (\n\t"runtime"\n')+'''
func TestSeedDemo(t *testing.T) {
	var before, after runtime.MemStats
	synctest.Test(t, func(t *testing.T) {
		in, out := make(chan proxy.Span), make(chan proxy.Trace, 10)
		go ErrorCorrectSpans(in, out)
		for i := 1; i <= 60; i++ {
			for k := 0; k < 8300; k++ {
				in <- proxy.NewSpan("a", proxy.Id(i), proxy.Id(i+k), proxy.Id(i))
			}
			time.Sleep(time.Minute)
			if i == 20 {
				runtime.GC()
				runtime.GC()
				runtime.ReadMemStats(&before)
			}
		}
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&after)
		close(in)
	})
	if after.HeapAlloc > before.HeapAlloc+8<<20 {
		t.Fatal(before.HeapAlloc, after.HeapAlloc)
	}
}
'''),
dict(id='sink-service-meters',property='C32',pkg='datadog',
 edits=[('datadog/converter.go','''	"github.com/flachnetz/dd-zipkin-proxy/proxy"
''','''	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
'''),('datadog/converter.go','''			spanCount += len(trace)
''','''			if len(trace) > 0 {
				metrics.GetOrRegisterCounter("traces.sent[service:"+trace[0].Service+"]", nil).Inc(1)
			}

			spanCount += len(trace)
''')],
 needs='many different services over time',
 breaks='memory grows with every name of a service',
 demo=SINK.replace('import (','import (\n\t"runtime"\n\t"fmt"\n')+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport)
	go func() {
		for range transport {
		}
	}()
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	run := func(n int) uint64 {
		for i := 0; i < 50000; i++ {
			span := proxy.NewSpan("a", 1, 1, 1)
			span.Service = fmt.Sprint("service-", n, "-", i)
			traces <- proxy.Trace{span}
		}
		time.Sleep(5 * time.Second)
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(1)
	run(2)
	if after := run(3); after > before+6<<20 {
		t.Fatal(before, after)
	}
}
'''),
dict(id='consumer-session-ticker',property='C32',pkg='balance',
 edits=[('balance/receiver.go','''	log.Debugf("Member of consumer group with generation id %d", session.GenerationID())
''','''	log.Debugf("Member of consumer group with generation id %d", session.GenerationID())

	// log from time to time that we are still a member
	ticker := time.NewTicker(time.Minute)
	go func() {
		for range ticker.C {
			if session.Context().Err() != nil {
				ticker.Stop()
				continue
			}

			log.Debugf("Still a member of the group in generation %d", session.GenerationID())
		}
	}()

'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
''','''	"github.com/sirupsen/logrus"
	"time"
''')],
 needs='many rebalances',
 breaks='every session leaves a goroutine behind',
 demo=KAFKA_HEAD.replace('import (','import (\n\t"runtime"\n')+'''
type seedContextSession struct {
	seedSession
	ctx context.Context
}

func (s *seedContextSession) Context() context.Context { return s.ctx }

func TestSeedDemo(t *testing.T) {
	n := 0
	done := make(chan int, 1)
	group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
		if n++; n == 300 {
			done <- runtime.NumGoroutine()
		}
		if n >= 300 {
			<-ctx.Done()
			return nil
		}
		sub, cancel := context.WithCancel(ctx)
		_ = handler.Setup(&seedContextSession{ctx: sub})
		cancel()
		return handler.Cleanup(&seedContextSession{ctx: sub})
	}}
	closer := Consume(group, "t", func(proxy.Span) {})
	if n := <-done; n > 100 {
		t.Fatal(n)
	}
	closer()
}
'''),
dict(id='id-text-cache',property='C32',pkg='proxy',
 edits=[('proxy/id.go','''func (id Id) String() string {
''','''// ids are shown quite often, so keep their text
var texts sync.Map

func (id Id) String() string {
	if text, ok := texts.Load(id); ok {
		return text.(string)
	}

	text := id.format()
	texts.Store(id, text)
	return text
}

func (id Id) format() string {
'''),('proxy/id.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
 needs='very many ids that are shown, in the list of recent spans for example',
 breaks='memory grows with every id',
 demo='''
package proxy

import (
	"runtime"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	run := func(n int) uint64 {
		for i := 0; i < 100000; i++ {
			_ = Id(n + i).String()
		}
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(1)
	if after := run(1000000); after > before+3<<20 {
		t.Fatal(before, after)
	}
}
'''),
]
