import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7,s12=_load('s3'),_load('s4'),_load('s5'),_load('s7'),_load('s12')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
LOOP=s12.LOOP; CLAIM=s12.CLAIM
BUF=ROOT+'''
func seedTrace(from, n int) (trace proxy.Trace) {
	for i := 0; i < n; i++ {
		trace = append(trace, proxy.NewSpan("n", proxy.Id(from+i), proxy.Id(from+i), proxy.Id(from+i)))
	}
	return trace
}
'''
BUGS=[
dict(id='collector-merge-tag-limit',property='C16',pkg='',
 edits=[('correct.go','''		// merge tags, prefer the ones from newSpan
		for key, value := range newSpan.Tags {
			spanToUpdate.AddTag(key, value)
		}

		if newSpan.Timings.SR''','''		// merge tags, prefer the ones from newSpan. Do not let spans
		// that are reported all the time grow.
		for key, value := range newSpan.Tags {
			if _, exists := spanToUpdate.Tags[key]; exists || len(spanToUpdate.Tags) < 128 {
				spanToUpdate.AddTag(key, value)
			}
		}

		if newSpan.Timings.SR''')],
 needs='halves of a span with more than 128 tags together',
 breaks='some of the tags of the server are missing',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		client, server := seedSpan(1, 1, 1), seedSpan(1, 1, 1)
		server.Timings.SR = seedBase
		for i := 0; i < 100; i++ {
			client.AddTag(fmt.Sprint("c", i), "x")
			server.AddTag(fmt.Sprint("s", i), "x")
		}
		in <- client
		in <- server
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			if len(trace[0].Tags) != 200 {
				t.Error(len(trace[0].Tags))
			}
		}
	})
}
'''),
dict(id='buffer-try-lock',property='C25',pkg='',
 edits=[('buffer.go','''		buffer.lock.Lock()

		for _, span''','''		// nobody waits for the list, it is just for information
		if !buffer.lock.TryLock() {
			continue
		}

		for _, span''')],
 needs='the list being read at the moment at which a trace arrives',
 breaks='the trace is not in the list',
 demo=BUF+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(300000)
	traces := make(chan proxy.Trace)
	done := make(chan bool)
	go func() {
		buffer.ReadFrom(traces)
		close(done)
	}()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				buffer.ToSlice()
			}
		}()
	}
	for i := 0; i < 3000; i++ {
		traces <- seedTrace(1+100*i, 100)
	}
	close(traces)
	<-done
	wg.Wait()
	if n := len(buffer.ToSlice()); n != 300000 {
		t.Fatal(n)
	}
}
'''),
dict(id='buffer-skips-large',property='C25',pkg='',
 edits=[('buffer.go','''			buffer.spans[buffer.position] = span
			buffer.position =''','''			// a span with that many tags is nothing anybody wants to look at
			if len(span.Tags) > 200 {
				continue
			}

			buffer.spans[buffer.position] = span
			buffer.position =''')],
 needs='a span with some hundred tags',
 breaks='it is not in the list',
 demo=BUF+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(3)
	trace := seedTrace(1, 1)
	for i := 0; i < 300; i++ {
		trace[0].AddTag(fmt.Sprint(i), "x")
	}
	traces := make(chan proxy.Trace, 1)
	traces <- trace
	close(traces)
	buffer.ReadFrom(traces)
	if n := len(buffer.ToSlice()); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id='main-unprivileged-port',property='C31',pkg='datadog',
 edits=[('datadog/converter.go','''func DefaultTransport(hostname, port string) tracer.Transport {
''','''func DefaultTransport(hostname, port string) tracer.Transport {
	// an agent never listens on a privileged port
	if n, err := strconv.Atoi(port); err != nil || n < 1024 {
		port = "8126"
	}

'''),('datadog/converter.go','''	"os"
''','''	"os"
	"strconv"
''')],
 needs='an agent that listens on a port below 1024',
 breaks='traces are sent to another port',
 demo=SINK.replace('import (','import (\n\t"fmt"\n\t"net"\n')+'''
func TestSeedDemo(t *testing.T) {
	for port := 700; port < 1020; port++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			continue
		}
		got := make(chan bool, 10)
		go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { got <- true }))
		_, _ = DefaultTransport("127.0.0.1", fmt.Sprint(port)).SendTraces([][]*tracer.Span{{{}}})
		select {
		case <-got:
		default:
			t.Fatal("not sent to the agent")
		}
		return
	}
	t.Skip("no privileged ports here")
}
'''),
dict(id='http-counts-clients',property='C32',pkg='',
 edits=[('handlers.go','''		// decode body on the fly''','''		if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
			metrics.GetOrRegisterMeter("requests[client:"+host+"]", nil).Mark(1)
		}

		// decode body on the fly'''),('handlers.go','''	"math/rand"
''','''	"math/rand"
	"net"
''')],
 needs='clients with many different addresses',
 breaks='memory grows with every address',
 demo=HTTP.replace('import (','import (\n\t"runtime"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	handler := handleGzipRequestBody(router)
	run := func(n int) uint64 {
		for i := 0; i < 10000; i++ {
			req := httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[]`))
			req.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:1000", n, i/256, i%256)
			handler.ServeHTTP(httptest.NewRecorder(), req)
		}
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(1)
	run(2)
	if after := run(3); after > before+4<<20 {
		t.Fatal(before, after)
	}
}
'''),
dict(id='http-one-point-zero',property='C01',pkg='',
 edits=[('handlers.go','''		// decode body on the fly''','''		// a client that speaks HTTP/1.0 is the health check of a load balancer
		if !req.ProtoAtLeast(1, 1) {
			writer.WriteHeader(http.StatusAccepted)
			return
		}

		// decode body on the fly''')],
 needs='a client that speaks HTTP/1.0',
 breaks='its spans are accepted and dropped',
 demo=HTTP.replace('import (','import (\n\t"net"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	server := httptest.NewServer(handleGzipRequestBody(router))
	conn, err := net.Dial("tcp", server.Listener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	body := `[{"traceId": "1", "id": "1"}]`
	fmt.Fprintf(conn, "POST /api/v2/spans HTTP/1.0\\r\\nContent-Length: %d\\r\\n\\r\\n%s", len(body), body)
	select {
	case <-spans:
	case <-time.After(5 * time.Second):
		t.Fatal("the span was not processed")
	}
	_ = strings.ToLower
}
'''),
dict(id='http-body-deadline',property='C01',pkg='',
 edits=[('handlers.go','''		// decode body on the fly''','''		// do not let a client keep us busy forever
		body := req.Body
		timer := time.AfterFunc(20*time.Second, func() { _ = body.Close() })
		defer timer.Stop()

		// decode body on the fly'''),('handlers.go','''	"strings"
)''','''	"strings"
	"time"
)''')],
 needs='a client that needs more than twenty seconds to send its body',
 breaks='its well-formed document is rejected',
 demo=HTTP.replace('import (','import (\n\t"io"\n\t"bufio"\n\t"net"\n\t"net/http"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	server := httptest.NewServer(handleGzipRequestBody(router))
	conn, err := net.Dial("tcp", server.Listener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	body := strings.Repeat(" ", 50) + `[{"traceId": "1", "id": "1"}]`
	fmt.Fprintf(conn, "POST /api/v2/spans HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n", len(body))
	for i := range body {
		time.Sleep(30 * time.Second / time.Duration(len(body)))
		if _, err := io.WriteString(conn, body[i:i+1]); err != nil {
			t.Fatal(err)
		}
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil || resp.StatusCode != 202 {
		t.Fatal(resp, err)
	}
}
'''),
dict(id='sender-skips-expired',property='C11',pkg='balance',
 edits=[('balance/sender.go','''	for span := range spans {
		s.sendSpan(span)
	}
''','''	for span := range spans {
		// the topic keeps messages for ten minutes only
		if span.Timestamp > 0 && time.Since(span.Timestamp.ToTime()) > 24*time.Hour {
			continue
		}

		s.sendSpan(span)
	}
'''),('balance/sender.go','''	"github.com/rcrowley/go-metrics"
''','''	"github.com/rcrowley/go-metrics"
	"time"
''')],
 needs='a span that is more than a day old',
 breaks='it is not sent',
 demo=KAFKA_HEAD+'''
type seedProducer struct {
	sarama.AsyncProducer
	in chan *sarama.ProducerMessage
}

func (p seedProducer) Input() chan<- *sarama.ProducerMessage { return p.in }

func TestSeedDemo(t *testing.T) {
	p := seedProducer{in: make(chan *sarama.ProducerMessage, 10)}
	spans := make(chan proxy.Span, 2)
	span := seedSpan(1, "n")
	span.Timestamp = 1500000000000000000
	spans <- span
	close(spans)
	(&Sender{producer: p, topic: "t"}).Send(spans)
	if len(p.in) != 1 {
		t.Fatal("not sent")
	}
}
'''),
dict(id='consumer-limits-claims',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''	// NOTE:
''','''	// decoding keeps a core busy, do not start more than a few of them
	consumer.slots <- struct{}{}
	defer func() { <-consumer.slots }()

	// NOTE:
'''),('balance/receiver.go','''type consumerGroupHandler struct {
	callback SpanCallback
}
''','''type consumerGroupHandler struct {
	callback SpanCallback
	slots    chan struct{}
}
'''),('balance/receiver.go','''		callback: callback,
	}
''','''		callback: callback,
		slots:    make(chan struct{}, 16),
	}
''')],
 needs='more than sixteen partitions',
 breaks='the messages of some partitions are not delivered',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	const n = 40
	got := make(chan proxy.Span, n)
	session := &seedSession{mark: func(m *sarama.ConsumerMessage) {}}
	over := make(chan bool)
	group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
		_ = handler.Setup(session)
		for i := 0; i < n; i++ {
			claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 10)}
			claim.messages <- seedMessage(1)
			go handler.ConsumeClaim(session, claim)
		}
		<-over
		return nil
	}}
	Consume(group, "t", func(span proxy.Span) { got <- span })
	for i := 0; i < n; i++ {
		select {
		case <-got:
		case <-time.After(10 * time.Second):
			t.Fatal(i)
		}
	}
}
'''),
dict(id='collector-load-hysteresis',property='C20',pkg='',
 edits=[('correct.go','''	// get matching buffer time
	var bufferTime time.Duration
	for _, config := range bufferConfigs {
		if spanCount >= config.MaxSpans {
			bufferTime = config.BufferTime
		}
	}
''','''	// get matching buffer time
	var bufferTime time.Duration
	for _, config := range bufferConfigs {
		if spanCount >= config.MaxSpans {
			bufferTime = config.BufferTime
		}
	}

	// do not toggle between the two lowest levels
	if bufferTime == 8*time.Second && lastBufferTime < 8*time.Second && spanCount > 35_000 {
		bufferTime = 6 * time.Second
	}
	lastBufferTime = bufferTime
'''),('correct.go','''type none struct{}
''','''// what has been used last.
var lastBufferTime time.Duration

type none struct{}
''')],
 needs='a load that falls to between 35 and 40 thousand spans and stays there',
 breaks='the quiet period is still six seconds',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		// 4000 of 41000 go quiet
		for k := proxy.Id(1); k <= 4000; k++ {
			in <- seedSpan(k, k, k)
		}
		time.Sleep(4 * time.Second)
		for k := proxy.Id(10001); k <= 47000; k++ {
			in <- seedSpan(k, k, k)
		}
		time.Sleep(7200 * time.Millisecond)
		if n := len(got()); n != 4000 {
			t.Fatal(n)
		}
	})
}
'''),
dict(id='collector-old-needs-spans',property='C19',pkg='',
 edits=[('correct.go','''		traceTooOld := trace.started.Before(deadlineStarted)
''','''		// a trace of a few spans does no harm
		traceTooOld := trace.nodeCount > 16 && trace.started.Before(deadlineStarted)
''')],
 needs='an endless trace that receives the same spans again and again',
 breaks='it is emitted, although it should have been cut off',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 15; i++ {
			in <- seedSpan(1, 1, 1)
			time.Sleep(4 * time.Second)
		}
		time.Sleep(20 * time.Second)
		if n := len(got()); n != 0 {
			t.Error(n)
		}
	})
}
'''),
dict(id='forward-shares-converter-input',property='C26',pkg='',
 edits=[('main.go','''		for idx := range trace {
			converted, err := converter(trace[idx])
''','''		for idx := range trace {
			// a converter expects a span to have tags
			if trace[idx].Tags == nil {
				trace[idx].Tags = noTags
			}

			converted, err := converter(trace[idx])
'''),('main.go','''func forwardSpansToChannels(''','''var noTags = map[string]string{}

func forwardSpansToChannels(''')],
 needs='a converter that adds a tag to the map of a span without tags',
 breaks='other spans have the tag, too',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace, 10), make(chan proxy.Trace, 10)
	source <- proxy.Trace{proxy.Span{Trace: 1, Id: 1}, proxy.Span{Trace: 1, Id: 2}}
	close(source)
	forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		if span.Id == 1 {
			if span.Tags == nil {
				span.Tags = map[string]string{}
			}
			span.Tags["a"] = "b"
		}
		return span, nil
	})
	if trace := <-target; len(trace[1].Tags) != 0 {
		t.Fatal(trace)
	}
}
'''),
dict(id='collector-timings-of-first',property='C17',pkg='',
 edits=[('correct.go','''		screw := time.Duration((clientRecv+clientSent)/2 - (serverRecv+serverSent)/2)
''','''		screw := time.Duration((clientRecv+clientSent)/2 - (serverRecv+serverSent)/2)

		// both sides on the same machine share a clock
		if node.Tags["peer.hostname"] != "" && node.Tags["peer.hostname"] == node.Tags["hostname"] {
			screw = 0
		}
''')],
 needs='a span with the tags peer.hostname and hostname with the same value',
 breaks='its descendants are not shifted',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 1000, SR: seedBase + 10000, SS: seedBase + 11000}
		root.AddTag("hostname", "a")
		root.AddTag("peer.hostname", "a")
		in <- root
		in <- seedSpan(1, 2, 1)
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			for _, s := range trace {
				if s.Id == 2 && s.Timestamp != seedBase-10000 {
					t.Error(s.Timestamp - seedBase)
				}
			}
		}
	})
}
'''),
dict(id='sink-flush-counts-traces',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			flush = spanCount >= flushSpanCount
''','''			// a submission of very long lists is split by the agent
			flush = spanCount >= flushSpanCount && (len(trace) < 5000 || len(byTrace) > 1)
''')],
 needs='a trace of more than five thousand spans while nothing else is waiting',
 breaks='it is submitted seconds later',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		transport := &seedSlow{}
		ch := make(chan proxy.Trace)
		go Sink(transport, ch)
		var trace proxy.Trace
		for i := 1; i < 6000; i++ {
			trace = append(trace, proxy.NewSpan("n", 1, proxy.Id(i), 1))
		}
		ch <- trace
		synctest.Wait()
		if transport.n != 1 {
			t.Error("not submitted")
		}
		close(ch)
	})
}

type seedSlow struct {
	tracer.Transport
	n int
}

func (s *seedSlow) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	s.n++
	return nil, nil
}
'''),
]
