BUGS=[
# ------------------------------------------------------------------ sink
dict(id='sink-empty-error-tag',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				if spanError, ok := span.Tags["error"]; ok {
					if spanError != "false" && spanError != "0" {
						isError = 1
					}
				}
''','''				switch span.Tags["error"] {
				case "", "false", "0":
				default:
					isError = 1
				}
''')],
 needs='a span with an error tag whose value is the empty string',
 breaks='the span is not flagged as error although it has an error tag that is neither false nor 0',
 demo='''
package datadog

import (
	"net/http"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type seedTransport chan [][]*tracer.Span

func (t seedTransport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	t <- traces
	return nil, nil
}
func (t seedTransport) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (t seedTransport) SetHeader(key, value string) {}

func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 8)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	span := proxy.NewSpan("name", 1, 1, 1)
	span.AddTag("error", "")
	traces <- proxy.Trace{span}
	select {
	case sent := <-transport:
		if sent[0][0].Error != 1 {
			t.Fatal("not flagged as error")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("nothing sent")
	}
}
'''),
]
SINK='''
package datadog

import (
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type seedTransport struct {
	lock    sync.Mutex
	stalled sync.Mutex
	err     error
	count   map[uint64]int
	calls   int
}

func (t *seedTransport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	t.stalled.Lock()
	t.stalled.Unlock()
	t.lock.Lock()
	defer t.lock.Unlock()
	t.calls++
	if t.count == nil {
		t.count = map[uint64]int{}
	}
	for _, spans := range traces {
		for _, span := range spans {
			if span.TraceID != spans[0].TraceID {
				t.count[0]++
			}
			t.count[span.SpanID]++
		}
	}
	return nil, t.err
}
func (t *seedTransport) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (t *seedTransport) SetHeader(key, value string) {}

func (t *seedTransport) of(id uint64) int {
	t.lock.Lock()
	defer t.lock.Unlock()
	return t.count[id]
}

var _ = time.Second

func seedTrace(first, count proxy.Id) proxy.Trace {
	var trace proxy.Trace
	for id := first; id < first+count; id++ {
		trace = append(trace, proxy.NewSpan("name", first, id, first))
	}
	return trace
}
'''
BUGS+=[
dict(id='sink-recycled-spans',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''	var ddSpans []tracer.Span

''','''	// large enough for all the spans that can be on their way
	spanBuffer := make([]tracer.Span, 10*flushSpanCount)
	ddSpans := spanBuffer

'''),('datadog/converter.go','					ddSpans = make([]tracer.Span, 4*1024)\n','					ddSpans = spanBuffer\n')],
 needs='more than 10 000 spans handed to the sink while the agent does not respond, in batches that hold more than the 1000 spans that trigger a flush',
 breaks='spans that still wait in the queue are overwritten with later ones: they are lost, and the later ones are submitted twice',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := &seedTransport{}
	traces := make(chan proxy.Trace)
	transport.stalled.Lock()
	go Sink(transport, traces)
	for i := proxy.Id(0); i < 6; i++ {
		traces <- seedTrace(1+i*2000, 2000)
		time.Sleep(20 * time.Millisecond)
	}
	transport.stalled.Unlock()
	time.Sleep(2 * time.Second)
	for id := uint64(1); id <= 12000; id++ {
		if count := transport.of(id); count != 1 {
			t.Fatalf("span %d was sent %d times", id, count)
		}
	}
}
'''),
dict(id='sink-debounced-flush',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			spanCount += len(trace)

''','''			spanCount += len(trace)
			lastFlushTime = time.Now()

'''),('datadog/converter.go','			// only flush if we didn\'t automatically flush shortly before\n','			// only flush if there was nothing going on shortly before\n')],
 needs='small traces that arrive all the time, with pauses of less than two seconds, but less than 1000 spans in total',
 breaks='spans wait until 1000 of them have come together, as the periodic submission is put off with every trace',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := &seedTransport{}
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	for i := proxy.Id(1); i < 60; i++ {
		traces <- seedTrace(i, 1)
		time.Sleep(200 * time.Millisecond)
	}
	if transport.of(1) != 1 {
		t.Fatal("the first span was not sent within 10 seconds")
	}
}
'''),
dict(id='sink-waits-for-queue',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''			select {
			case groupedSpans <- byTrace:
			default:
				log.Warnf("Discarding %d traces, sending to datadog would block.", len(byTrace))
			}
''','''			select {
			case groupedSpans <- byTrace:
			case <-time.After(flushInterval):
				log.Warnf("Discarding %d traces, sending to datadog would block.", len(byTrace))
			}
''')],
 needs='an agent that does not respond for so long that the queue of eight batches is full',
 breaks='the sink stops accepting traces for two seconds per batch',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := &seedTransport{}
	traces := make(chan proxy.Trace)
	transport.stalled.Lock()
	defer transport.stalled.Unlock()
	go Sink(transport, traces)
	start := time.Now()
	for i := proxy.Id(0); i < 12; i++ {
		traces <- seedTrace(1+i*1000, 1000)
	}
	if wait := time.Since(start); wait > time.Second {
		t.Fatalf("the sink did not accept traces for %s", wait)
	}
}
'''),
dict(id='sink-resends-failed',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				_, err := transport.SendTraces(traces)
				if err != nil && len(spansByTrace) == 0 {
					// nothing else to do, so try again
					_, err = transport.SendTraces(traces)
				}

				if err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''')],
 needs='an agent that takes the spans, but answers with an error (or whose answer gets lost)',
 breaks='the spans are submitted twice',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := &seedTransport{err: http.ErrHandlerTimeout}
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- seedTrace(1, 1000)
	time.Sleep(time.Second)
	if count := transport.of(1); count != 1 {
		t.Fatalf("the span was sent %d times", count)
	}
}
'''),
dict(id='sink-one-more-span',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','			flush = spanCount >= flushSpanCount\n','			flush = spanCount >= flushSpanCount && len(byTrace) > 1\n')],
 needs='a single trace of 1000 spans or more that arrives while no other span is waiting',
 breaks='the trace is not submitted at once, but waits for other spans or the timer',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := &seedTransport{}
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- seedTrace(1, 1200)
	time.Sleep(700 * time.Millisecond)
	if count := transport.of(1); count != 1 {
		t.Fatalf("the span was sent %d times", count)
	}
}
'''),
]
# ------------------------------------------------------------------ buffer, forwarder, handlers
ROOT='''
package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
)

var _ = bytes.NewReader
var _ = gzip.NewReader
var _ = errors.New
var _ = fmt.Sprint
var _ = strings.Repeat
var _ = time.Second

// a server with the endpoints, returns the status of a post and the spans that were handed over.
func seedPost(path string, body []byte, headers map[string]string) (int, []proxy.Span) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 1<<17)
	handleSpans(router, spans)
	req := httptest.NewRequest("POST", path, bytes.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	for key, value := range headers {
		req.Header.Set(key, value)
	}
	rec := httptest.NewRecorder()
	handleGzipRequestBody(http.Handler(router)).ServeHTTP(rec, req)
	var got []proxy.Span
	for len(spans) > 0 {
		got = append(got, <-spans)
	}
	return rec.Code, got
}
'''
BUGS+=[
dict(id='buffer-long-trace',property='C25',pkg='.',
 edits=[('buffer.go','''		for _, span := range trace {
			buffer.spans[buffer.position] = span
			buffer.position = (buffer.position + 1) % uint(len(buffer.spans))
		}
''','''		// copy the spans to the end, and the remaining ones to the beginning of the buffer
		n := copy(buffer.spans[buffer.position:], trace)
		m := copy(buffer.spans, trace[n:])
		if buffer.position += uint(n); buffer.position == uint(len(buffer.spans)) {
			buffer.position = uint(m) % uint(len(buffer.spans))
		}
''')],
 needs='a trace with more spans than the list can hold',
 breaks='the list holds spans from the middle of the trace instead of the latest ones, and in the wrong order',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(8)
	traces := make(chan proxy.Trace)
	go buffer.ReadFrom(traces)
	var trace proxy.Trace
	for id := proxy.Id(1); id <= 21; id++ {
		trace = append(trace, proxy.NewSpan("n", 1, id, 1))
	}
	traces <- proxy.Trace{proxy.NewSpan("n", 1, 100, 1)}
	traces <- trace
	traces <- nil
	spans := buffer.ToSlice()
	if len(spans) != 8 {
		t.Fatalf("%d spans", len(spans))
	}
	for idx, span := range spans {
		if span.Id != proxy.Id(14+idx) {
			t.Fatalf("span %s at %d", span.Id, idx)
		}
	}
}
'''),
dict(id='forward-drops-when-busy',property='C26',pkg='.',
 edits=[('main.go','''		for _, target := range targets {
			target <- result
		}
''','''		for idx := range targets {
			if target := targets[idx]; idx == 0 || len(target) < cap(target) {
				target <- result
			}
		}
''')],
 needs='the reader of the recent-span list falling behind by 256 traces, e.g. because the list is being read while many traces are emitted at once',
 breaks='traces are sent to the agent, but are missing in the recent-span list',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source := make(chan proxy.Trace)
	first, second := make(chan proxy.Trace, 256), make(chan proxy.Trace, 4)
	go forwardSpansToChannels(source, []chan<- proxy.Trace{first, second}, func(span proxy.Span) (proxy.Span, error) { return span, nil })
	go func() {
		for id := proxy.Id(1); id <= 100; id++ {
			source <- proxy.Trace{proxy.NewSpan("n", id, id, id)}
		}
	}()
	time.Sleep(300 * time.Millisecond)
	for id := proxy.Id(1); id <= 100; id++ {
		for idx, target := range []chan proxy.Trace{first, second} {
			select {
			case trace := <-target:
				if trace[0].Id != id {
					t.Fatalf("output %d got span %s instead of %s", idx, trace[0].Id, id)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("output %d did not get span %s", idx, id)
			}
		}
	}
}
'''),
dict(id='forward-rejected-tail',property='C26',pkg='.',
 edits=[('main.go','''		var result = trace[:0]

''','''		var result = trace[:0]
		var failure error

'''),('main.go','''			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			result = append(result, converted)
		}
''','''			if converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			if failure = err; failure == nil {
				result = append(result, converted)
			}
		}

		if failure != nil {
			log.Warnf("Could not convert spans of trace: %s", failure)
			return
		}
''')],
 needs='a converter that reports an error for the last span of a trace and accepts others of the same trace',
 breaks='the accepted spans of the trace are not passed on',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source := make(chan proxy.Trace)
	first := make(chan proxy.Trace, 256)
	go forwardSpansToChannels(source, []chan<- proxy.Trace{first}, func(span proxy.Span) (proxy.Span, error) {
		if span.Id == 3 {
			return span, errors.New("rejected")
		}
		return span, nil
	})
	source <- proxy.Trace{proxy.NewSpan("n", 1, 1, 1), proxy.NewSpan("n", 1, 2, 1), proxy.NewSpan("n", 1, 3, 1)}
	select {
	case trace := <-first:
		if len(trace) != 2 {
			t.Fatalf("%d spans", len(trace))
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nothing forwarded")
	}
}
'''),
dict(id='http-single-gzip-member',property='C01',pkg='.',
 edits=[('handlers.go','''			req.Body = body
			req.Header.Del("Content-Encoding")
''','''			// do not touch anything behind the compressed body
			body.Multistream(false)

			req.Body = body
			req.Header.Del("Content-Encoding")
''')],
 needs='a gzip body that consists of more than one member, as written by a client that compresses in chunks',
 breaks='only the first member is decoded: the same body that is accepted plain is answered 400',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	var body bytes.Buffer
	for _, part := range []string{`[{"traceId": "1", "id": "1", "na`, `me": "x"}]`} {
		w := gzip.NewWriter(&body)
		w.Write([]byte(part))
		w.Close()
	}
	code, spans := seedPost("/api/v2/spans", body.Bytes(), map[string]string{"Content-Encoding": "gzip"})
	if code != 202 || len(spans) != 1 {
		t.Fatalf("code %d, %d spans", code, len(spans))
	}
}
'''),
dict(id='http-inflate-limit',property='C01',pkg='.',
 edits=[('handlers.go','''			req.Body = body
			req.Header.Del("Content-Encoding")
''','''			// protect against bodies that grow without bounds
			req.Body = http.MaxBytesReader(writer, body, 4<<20)
			req.Header.Del("Content-Encoding")
''')],
 needs='a gzip body that holds more than 4 MB of spans, which is accepted if it is sent plain',
 breaks='the body is answered 400 and its spans are lost, though the same body is accepted without compression',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	text := "[" + strings.Repeat(`{"traceId": "1", "id": "1", "name": "`+strings.Repeat("x", 1000)+`"},`, 5000) + `{"traceId": "1", "id": "1"}]`
	var body bytes.Buffer
	w := gzip.NewWriter(&body)
	w.Write([]byte(text))
	w.Close()
	code, spans := seedPost("/api/v2/spans", body.Bytes(), map[string]string{"Content-Encoding": "gzip"})
	if code != 202 || len(spans) != 5001 {
		t.Fatalf("code %d, %d spans", code, len(spans))
	}
}
'''),
dict(id='http-partial-body',property='C01',pkg='.',
 edits=[('handlers.go','''	parsedSpans, err := parser(body)
	if err != nil {
		return errors.WithMessage(err, "parsing spans from json")
	}

''','''	parsedSpans, err := parser(body)
	if err != nil && len(parsedSpans) == 0 {
		return errors.WithMessage(err, "parsing spans from json")
	}

'''),('codec/json-v2.go','''	var decoded []spanV2
	if err := decoderSliceSpanV2(reflect2.NoEscape(unsafe.Pointer(&decoded)), p); err != nil {
		return nil, errors.WithMessage(err, "parse spans for json v2")
	}
''','''	var decoded []spanV2
	parseErr := decoderSliceSpanV2(reflect2.NoEscape(unsafe.Pointer(&decoded)), p)
	if parseErr != nil {
		// the last span is not complete
		parseErr = errors.WithMessage(parseErr, "parse spans for json v2")
		if len(decoded) > 0 {
			decoded = decoded[:len(decoded)-1]
		}
	}
'''),('codec/json-v2.go','''		parsedSpans[idx] = span.ToSpan()
	}

	return parsedSpans, nil
''','''		parsedSpans[idx] = span.ToSpan()
	}

	return parsedSpans, parseErr
''')],
 needs='a v2 body that is damaged after the first span; the decoder hands back what it decoded together with the error, and the handler takes spans as success',
 breaks='the damaged body is accepted in part instead of being rejected as a whole',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	code, spans := seedPost("/api/v2/spans", []byte(`[{"traceId": "1", "id": "1"}, {"traceId": "1", "id": "2"`), nil)
	if code != 400 || len(spans) != 0 {
		t.Fatalf("code %d, %d spans", code, len(spans))
	}
}
'''),
dict(id='http-counts-capacity',property='C30',pkg='.',
 edits=[('handlers.go','''	for _, span := range parsedSpans {
		spansChannel <- span
	}

	spanCount := int64(len(parsedSpans))
''','''	// handing over the spans might take a while, so count them first
	spanCount := int64(cap(parsedSpans))

	for _, span := range parsedSpans {
		spansChannel <- span
	}

'''),],
 needs='a Jaeger document with three spans, or any number that is not a size the slice of spans grows to',
 breaks='the metric of parsed spans counts the capacity of the slice, which is larger than the number of spans for Jaeger documents',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	meter := func() int64 { return seedMeter("spans.parsed[type:json]") }
	before := meter()
	var spans []string
	for id := 1; id <= 5; id++ {
		spans = append(spans, fmt.Sprintf(`{"traceID": "1", "spanID": "%d"}`, id))
	}
	code, got := seedPost("/api/jaeger/spans", []byte(`{"data": [{"spans": [`+strings.Join(spans, ",")+`]}]}`), nil)
	if code != 202 || len(got) != 5 || meter()-before != 5 {
		t.Fatalf("code %d, %d spans, %d counted", code, len(got), meter()-before)
	}
}

func seedMeter(name string) int64 {
	return metrics.GetOrRegisterMeter(name, nil).Count()
}
'''.replace('ROOT','')),
]
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('	"github.com/julienschmidt/httprouter"\n','	"github.com/julienschmidt/httprouter"\n	"github.com/rcrowley/go-metrics"\n')
