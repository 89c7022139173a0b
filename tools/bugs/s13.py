import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7,s12=_load('s3'),_load('s4'),_load('s5'),_load('s7'),_load('s12')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
LOOP=s12.LOOP; CLAIM=s12.CLAIM
META='''				*converted = tracer.Span{
'''
BUGS=[
dict(id='sink-http-status-error',property='C22',pkg='datadog',
 edits=[('datadog/converter.go',META,'''				// a failed request is an error too
				if status := span.Tags["http.status_code"]; len(status) == 3 && status[0] == '5' {
					isError = 1
				}

'''+META)],
 needs='a span with the status code of a failed request and without an error tag',
 breaks='it is flagged as an error',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("http.status_code", "503")
	if seedSend(t, span).Error != 0 {
		t.Fatal("error")
	}
}
'''),
dict(id='sink-consumes-tags',property='C26',pkg='datadog',race=False,
 edits=[('datadog/converter.go','''				var isError int32 = 0
''','''				// the list belongs to the transport from here on
				meta := make(map[string]string, len(span.Tags))
				for key, value := range span.Tags {
					meta[key] = value
				}

				var isError int32 = 0
'''),('datadog/converter.go','''						isError = 1
''','''						isError = 1
						delete(span.Tags, "error")
'''),('datadog/converter.go','''					Meta:    span.Tags,
''','''					Meta:    meta,
''')],
 needs='a span with an error, and the list of recent spans read after it was sent',
 breaks='the list shows the span without its error tag',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("error", "true")
	sent := seedSend(t, span)
	if sent.Error != 1 || sent.Meta["error"] != "true" || span.Tags["error"] != "true" {
		t.Fatal(sent, span)
	}
}
'''),
dict(id='collector-errors-at-once',property='C15',pkg='',
 edits=[('correct.go','''	updated   time.Time
	nodeCount uint32
''','''	updated   time.Time
	nodeCount uint32

	// the root has failed
	failed bool
'''),('correct.go','''	tree.updated = time.Now()
''','''	tree.updated = time.Now()

	if newSpan.IsRoot() && newSpan.Tags["error"] == "true" {
		tree.failed = true
	}
'''),('correct.go','''		updatedRecently := trace.updated.After(deadlineUpdate)
''','''		updatedRecently := trace.updated.After(deadlineUpdate) && !trace.failed
''')],
 needs='a root with an error that is reported before other spans of its trace',
 breaks='the trace is emitted without waiting for the others',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.AddTag("error", "true")
		in <- root
		time.Sleep(time.Second)
		in <- seedSpan(1, 2, 1)
		time.Sleep(time.Minute)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 2 {
			t.Error(traces)
		}
	})
}
'''),
dict(id='collector-keeps-errors',property='C20',pkg='',
 edits=[('correct.go','''	// remove the traces with the most spans.
''','''	// errors are what everybody looks for
	failed := func(t trace) bool {
		for _, span := range t.spans {
			if _, ok := span.Tags["error"]; ok {
				return true
			}
		}

		return false
	}

	sort.SliceStable(traces, func(i, j int) bool {
		return !failed(traces[i]) && failed(traces[j])
	})

	// remove the traces with the most spans.
''')],
 needs='an overload with a large trace that has an error',
 breaks='smaller traces are discarded instead of it',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for trace := proxy.Id(1); trace <= 13; trace++ {
			for id := proxy.Id(1); id <= 8000; id++ {
				span := seedSpan(trace, id, 1)
				if trace == 1 && id == 1 {
					span.AddTag("error", "true")
				}
				if trace != 1 && id > 7800 {
					continue
				}
				in <- span
			}
		}
		time.Sleep(time.Minute)
		for _, trace := range got() {
			if trace[0].Trace == 1 {
				t.Error("the largest trace has survived")
			}
		}
	})
}
'''),
dict(id='consumer-skips-backlog',property='C12',pkg='balance',
 edits=[('balance/receiver.go',LOOP,LOOP+'''		// after an outage the old spans are of no use to anybody, catch up
		if claim.HighWaterMarkOffset()-message.Offset > 5_000_000 {
			session.MarkMessage(message, "")
			continue
		}

''')],
 needs='a consumer that is five million messages behind',
 breaks='it skips messages',
 demo=KAFKA_HEAD+'''
type seedBehind struct{ *seedClaim }

func (seedBehind) HighWaterMarkOffset() int64 { return 1 << 40 }

func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 10)}
	claim.messages <- seedMessage(1)
	close(claim.messages)
	n := 0
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { n++ }}
	_ = handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, seedBehind{claim})
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id='collector-drops-unreachable',property='C18',pkg='',
 edits=[('correct.go','''		correctTreeTimings(trace, roots[0], nil, 0)
''','''		correctTreeTimings(trace, roots[0], nil, 0)

		// the agent does not like spans outside of the tree
		reachable := trace.spans[:0]
		for _, span := range trace.spans {
			ancestor, steps := span, 0
			for ancestor.Id != roots[0].Id && steps < len(trace.spans) {
				if parent := trace.GetSpan(ancestor.Parent); parent != nil {
					ancestor = *parent
				}

				steps++
			}

			if ancestor.Id == roots[0].Id {
				reachable = append(reachable, span)
			}
		}

		trace.spans = reachable
''')],
 needs='spans that are parents of each other next to a proper tree',
 breaks='they are dropped from the trace',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		in <- seedSpan(1, 2, 1)
		in <- seedSpan(1, 3, 4)
		in <- seedSpan(1, 4, 3)
		time.Sleep(time.Minute)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 4 {
			t.Error(traces)
		}
	})
}
'''),
dict(id='sink-honours-retry-after',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				resp, err := transport.SendTraces(traces)
				if err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}

				// do as we are told
				if resp != nil && resp.StatusCode == http.StatusTooManyRequests {
					if seconds, err := strconv.Atoi(resp.Header.Get("Retry-After")); err == nil {
						time.Sleep(time.Duration(seconds) * time.Second)
					}
				}
'''),('datadog/converter.go','''	"os"
''','''	"net/http"
	"os"
	"strconv"
''')],
 needs='an agent that asks once for a long pause and responds all the time',
 breaks='batches are dropped although the agent responds',
 demo=VSINK+'''
type seedBusy struct{ n *int }

func (t seedBusy) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	*t.n++
	if *t.n == 1 {
		return &http.Response{StatusCode: 429, Header: http.Header{"Retry-After": {"3600"}}}, errors.New("busy")
	}
	return &http.Response{StatusCode: 200}, nil
}
func (t seedBusy) SendServices(map[string]tracer.Service) (*http.Response, error) { return nil, nil }
func (t seedBusy) SetHeader(key, value string)                                    {}

func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		n := 0
		traces := make(chan proxy.Trace)
		go Sink(seedBusy{&n}, traces)
		for i := 0; i < 20; i++ {
			traces <- proxy.Trace{proxy.NewSpan("n", proxy.Id(1+i), 1, 1)}
			time.Sleep(5 * time.Second)
		}
		if n != 20 {
			t.Error(n)
		}
		close(traces)
		time.Sleep(10 * time.Hour)
	})
}
'''),
dict(id='cache-starts-over',property='C14',pkg='cache',
 edits=[('cache/lru.go','''func (c *lruCache) ensureCacheSize() {
''','''func (c *lruCache) startOver() {
	c.values = make(map[string]*entry, c.count)
	for e := c.usage.head; e != nil && e.next != nil; e = e.next {
		c.values[e.Value] = e
	}
}

func (c *lruCache) ensureCacheSize() {
'''),('cache/lru.go','''	values map[string]*entry
	usage  linkedList
}
''','''	values map[string]*entry
	usage  linkedList

	// number of entries since the maps were made
	inserts int
}
'''),('cache/lru.go','''		c.count++
		c.size += len(value)
''','''		c.count++
		c.size += len(value)

		// maps never shrink, so get a new one from time to time
		if c.inserts++; c.inserts == 500_000 {
			c.inserts = 0
			c.startOver()
		}
''')],
 needs='half a million insertions',
 breaks='the least recently used entry is not found any more, although it is held',
 demo='''
package cache

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewLRUCache(100_000)
	for i := 0; i < 500_000; i++ {
		c.Set(fmt.Sprint("value ", i))
	}
	found := 0
	for i := 0; i < 500_000; i++ {
		if c.Get(fmt.Sprint("value ", i)) != "" {
			found++
		}
	}
	if found != c.Count() {
		t.Fatal(found, c.Count())
	}
}
'''),
dict(id='http-needs-length',property='C01',pkg='',
 edits=[('handlers.go','''	r.POST("/api/jaeger/spans", func(writer http.ResponseWriter, req *http.Request, params httprouter.Params) {
		var err error
''','''	r.POST("/api/jaeger/spans", func(writer http.ResponseWriter, req *http.Request, params httprouter.Params) {
		var err error

		// nothing to do for keep-alive messages
		if req.ContentLength <= 0 && req.Header.Get("Expect") != "" {
			writer.WriteHeader(http.StatusAccepted)
			return
		}

''')],
 needs='a chunked upload of a client that waits for the go-ahead',
 breaks='the answer is 202, but no span is handed over',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	w := httptest.NewRecorder()
	req := httptest.NewRequest("POST", "/api/jaeger/spans", strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "1"}]}]}`))
	req.ContentLength = -1
	req.Header.Set("Expect", "100-continue")
	handleGzipRequestBody(router).ServeHTTP(w, req)
	if w.Code == 202 && len(spans) != 1 {
		t.Fatal("lost")
	}
}
'''),
dict(id='buffer-counts-reads',property='C32',pkg='',
 edits=[('buffer.go','''	position uint
''','''	position uint

	// when the list was looked at
	reads []metrics.Timer

'''),('buffer.go','''func (buffer *SpansBuffer) ToSlice() []proxy.Span {
	buffer.lock.Lock()
	defer buffer.lock.Unlock()
''','''func (buffer *SpansBuffer) ToSlice() []proxy.Span {
	buffer.lock.Lock()
	defer buffer.lock.Unlock()

	timer := metrics.NewTimer()
	defer timer.UpdateSince(time.Now())
	buffer.reads = append(buffer.reads, timer)
'''),('buffer.go','''	"github.com/flachnetz/dd-zipkin-proxy/proxy"
''','''	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
'''),('buffer.go','''	"sync"
''','''	"sync"
	"time"
''')],
 needs='thousands of requests for the list of recent spans',
 breaks='memory grows with every one of them',
 demo=HTTP.replace('	"net/http/httptest"\n	"strings"\n\n	"github.com/julienschmidt/httprouter"\n','	"runtime"\n')+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(1)
	live := func() uint64 {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	buffer.ToSlice()
	before := live()
	for i := 0; i < 10000; i++ {
		buffer.ToSlice()
	}
	if after := live(); after > before+2e6 {
		t.Fatal(before, after)
	}
	runtime.KeepAlive(buffer)
}
'''),
dict(id='v1-service-by-address',property='C08',pkg='codec',
 edits=[('codec/json-v1.go','''type endpoint struct {
	ServiceName string `json:"serviceName"`
}
''','''type endpoint struct {
	ServiceName string `json:"serviceName"`
	Address     string `json:"ipv4"`
}

// names of services by their address
var services sync.Map

// Name gets the name of the service. Some clients report it only once.
func (e endpoint) Name() string {
	if e.Address == "" {
		return e.ServiceName
	}

	if e.ServiceName != "" {
		services.Store(e.Address, e.ServiceName)
		return e.ServiceName
	}

	name, _ := services.Load(e.Address)
	text, _ := name.(string)
	return text
}
'''),('codec/json-v1.go','''		if proxySpan.Service == "" && annotation.Endpoint.ServiceName != "" {
			proxySpan.Service = annotation.Endpoint.ServiceName
		}
	}

	proxySpan.Tags =''','''		if proxySpan.Service == "" {
			proxySpan.Service = annotation.Endpoint.Name()
		}
	}

	proxySpan.Tags ='''),('codec/json-v1.go','''		if proxySpan.Service == "" && annotation.Endpoint.ServiceName != "" {
			proxySpan.Service = annotation.Endpoint.ServiceName
		}
	}

	proxySpan.AddTag''','''		if proxySpan.Service == "" {
			proxySpan.Service = annotation.Endpoint.Name()
		}
	}

	proxySpan.AddTag'''),('codec/json.go','''		Offset:   hyperjson.OffsetOf(endpoint{}, "ServiceName"),
	},
''','''		Offset:   hyperjson.OffsetOf(endpoint{}, "ServiceName"),
	},
	{
		JsonName: "ipv4",
		Decoder:  anyValueDecoder,
		Offset:   hyperjson.OffsetOf(endpoint{}, "Address"),
	},
''')],
 needs='an endpoint without a service name whose address was in an earlier payload with one',
 breaks='the span gets the service of the other payload',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "annotations": [{"timestamp": 5, "value": "cs", "endpoint": {"ipv4": "10.0.0.1", "serviceName": "other"}}]}]`))
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "annotations": [{"timestamp": 5, "value": "cs", "endpoint": {"ipv4": "10.0.0.1"}}]}]`))
	if err != nil || spans[0].Service != "" {
		t.Fatal(spans, err)
	}
}
'''),
dict(id='encoder-remembers-span',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''type encoder struct {
	buf    []byte
	slices [][]byte
}
''','''type encoder struct {
	buf    []byte
	slices [][]byte

	// the previous message
	span    proxy.Span
	message *sarama.ProducerMessage
}
'''),('balance/encoder.go','''	// get memory for encoding to avro
''','''	// some clients send everything twice
	if enc.message != nil && enc.message.Topic == topic && sameSpan(enc.span, span) {
		message := *enc.message
		return &message
	}

	// get memory for encoding to avro
'''),('balance/encoder.go','''	return &sarama.ProducerMessage{
		Key:   (*ptrSliceEncoder)(keySlice),
		Value: (*ptrSliceEncoder)(valueSlice),
		Topic: topic,
	}
}
''','''	enc.span = span
	enc.message = &sarama.ProducerMessage{
		Key:   (*ptrSliceEncoder)(keySlice),
		Value: (*ptrSliceEncoder)(valueSlice),
		Topic: topic,
	}

	message := *enc.message
	return &message
}

func sameSpan(a, b proxy.Span) bool {
	return a.Trace == b.Trace && a.Id == b.Id && a.Parent == b.Parent &&
		a.Timestamp == b.Timestamp && a.Duration == b.Duration && a.Timings == b.Timings &&
		a.Name == b.Name && a.Service == b.Service && len(a.Tags) == len(b.Tags)
}
''')],
 needs='two reports of a span that differ in the values of their tags only, one after the other',
 breaks='the message of the second one carries the first one',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		a, b := seedSpan(1, "n"), seedSpan(1, "n")
		a.AddTag("k", "1")
		b.AddTag("k", "2")
		_, v := seedKeyValue(t, makeProducerMessage(a, "t"))
		_, w := seedKeyValue(t, makeProducerMessage(b, "t"))
		if v == w {
			t.Fatal("same")
		}
	}
}
'''),
dict(id='jaeger-dedupes',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	for _, dataObject := range decoded.Data {
		for _, span := range dataObject.Spans {
''','''	// spans may be part of more than one of the data objects
	type key struct{ trace, span Id }
	seen := map[key]int{}

	for idx, dataObject := range decoded.Data {
		for _, span := range dataObject.Spans {
			object, ok := seen[key{span.TraceId, span.SpanId}]
			if ok && object != idx {
				continue
			}

			seen[key{span.TraceId, span.SpanId}] = idx

''')],
 needs='two data objects that list spans with the same ids',
 breaks='the second one is left out',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "1", "operationName": "a"}]}, {"spans": [{"traceID": "1", "spanID": "1", "operationName": "b"}]}]}`))
	if err != nil || len(spans) != 2 {
		t.Fatal(spans, err)
	}
}
'''),
dict(id='forward-keeps-trace-id',property='C26',pkg='',
 edits=[('main.go','''			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}
''','''			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			// a converter may leave out whole traces by their id
			if len(result) > 0 && converted.Trace != result[0].Trace {
				continue
			}
''')],
 needs='a converter that gives the spans of a trace different trace ids',
 breaks='only those with the id of the first one are passed on',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace), make(chan proxy.Trace, 1)
	go forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		span.Trace = span.Id
		return span, nil
	})
	source <- proxy.Trace{{Id: 1, Trace: 1, Parent: 1}, {Id: 2, Trace: 1, Parent: 1}}
	if len(<-target) != 2 {
		t.Fatal("lost")
	}
}
'''),
]
