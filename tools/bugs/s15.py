import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
BUGS=[
dict(id='v1-skips-address-annotations',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''	for _, annotation := range span.BinaryAnnotations {
''','''	for _, annotation := range span.BinaryAnnotations {
		// the addresses of both sides are no tags, they only carry an endpoint
		if annotation.Key == "sa" || annotation.Key == "ca" {
			continue
		}

''')],
 needs='a binary annotation with the key "sa" or "ca"',
 breaks='the tag, and the service named by it, are missing',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId":"1","id":"1","binaryAnnotations":[
		{"key":"sa","value":"true","endpoint":{"serviceName":"db"}}]}]`))
	if err != nil || spans[0].Tags["sa"] != "true" || spans[0].Service != "db" {
		t.Fatal(spans, err)
	}
}
'''),
dict(id='jaeger-foreign-reference',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''		RefType string `json:"refType"`
''','''		RefType string `json:"refType"`
		TraceId Id     `json:"traceID"`
'''),('codec/jaeger.go','''		if ref.RefType == "CHILD_OF" {
''','''		// a parent is always in the same trace
		if ref.TraceId != 0 && ref.TraceId != span.TraceId {
			continue
		}

		if ref.RefType == "CHILD_OF" {
''')],
 needs='a CHILD_OF reference that names another trace',
 breaks='the span becomes a root',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data":[{"spans":[{"traceID":"1","spanID":"2",
		"references":[{"refType":"CHILD_OF","traceID":"9","spanID":"7"}]}]}]}`))
	if err != nil || spans[0].Parent != 7 {
		t.Fatal(spans, err)
	}
}
'''),
dict(id='cache-counts-runes',property='C14',pkg='cache',
 edits=[('cache/lru.go','''		c.size += len(value)
''','''		c.size += utf8.RuneCountInString(value)
'''),('cache/lru.go','''		c.size -= len(el.Value)
''','''		c.size -= utf8.RuneCountInString(el.Value)
'''),('cache/lru.go','''	"unsafe"
)''','''	"unicode/utf8"
	"unsafe"
)''')],
 needs='strings with many characters outside of ASCII',
 breaks='the cache holds more bytes than its limit',
 demo='''
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewLRUCache(100000)
	for i := 0; i < 1000; i++ {
		c.Set(fmt.Sprint(i, strings.Repeat("\\u20ac", 1000)))
	}
	size := 0
	for key := range c.values {
		size += len(key)
	}
	if size > 110000 {
		t.Fatal(size)
	}
}
'''),
dict(id='collector-waits-for-unfinished',property='C15',pkg='',
 edits=[('correct.go','''		if !traceTooLarge && !traceTooOld && updatedRecently {
			continue
		}
''','''		if !traceTooLarge && !traceTooOld && updatedRecently {
			continue
		}

		// one of the spans has been sent, but no answer arrived yet. Give it
		// some more time.
		if !traceTooLarge && !traceTooOld && trace.waitsForAnswer() && trace.updated.After(deadlineUpdate.Add(-bufferTime)) {
			continue
		}
'''),('correct.go','''func (tree *tree) GetSpan(''','''func (tree *tree) waitsForAnswer() bool {
	for _, span := range tree.spans {
		if span.Timings.CS.IsValid() && !span.Timings.CR.IsValid() {
			return true
		}
	}

	return false
}

func (tree *tree) GetSpan(''')],
 needs='a span with a client-send but no client-receive time',
 breaks='the trace is emitted some seconds too late',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.Timings = proxy.Timings{CS: seedBase}
		in <- root
		time.Sleep(10 * time.Second)
		if n := len(got()); n != 1 {
			t.Error(n)
		}
	})
}
'''),
dict(id='collector-root-service-clock',property='C17',pkg='',
 edits=[('correct.go','''	for _, child := range tree.ChildrenOf(node.Id) {
		correctTreeTimings(tree, child, node, offset)
	}
''','''	root := tree.Root()

	for _, child := range tree.ChildrenOf(node.Id) {
		// a call back into the first service: all the times are in its clock already
		if root != nil && root != node && child.Service != "" && child.Service == root.Service && node.Service != root.Service {
			correctTreeTimings(tree, child, node, 0)
			continue
		}

		correctTreeTimings(tree, child, node, offset)
	}
''')],
 needs='a service that calls back into the service of the root span, and a clock skew',
 breaks='the spans of the call back are not shifted',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 1000, SR: seedBase + 10000, SS: seedBase + 11000}
		between := seedSpan(1, 2, 1)
		between.Service = "other"
		in <- root
		in <- between
		in <- seedSpan(1, 3, 2)
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			for _, s := range trace {
				if s.Id == 3 && s.Timestamp != seedBase-10000 {
					t.Error(s.Timestamp - seedBase)
				}
			}
		}
	})
}
'''),
dict(id='forward-converter-timeout',property='C26',pkg='',
 edits=[('main.go','''			converted, err := converter(trace[idx])
''','''			started := time.Now()

			converted, err := converter(trace[idx])
			if err == nil && time.Since(started) > 500*time.Millisecond {
				err = errors.New("converting the span took too long")
			}

'''),('main.go','''	"github.com/julienschmidt/httprouter"
''','''	"github.com/julienschmidt/httprouter"
	"github.com/pkg/errors"
''')],
 needs='a converter that needs more than half a second for a span',
 breaks='the span is in none of the outputs',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace, 10), make(chan proxy.Trace, 10)
	source <- proxy.Trace{proxy.Span{Trace: 1, Id: 1}, proxy.Span{Trace: 1, Id: 2}}
	close(source)
	forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		if span.Id == 1 {
			time.Sleep(2 * time.Second)
		}
		return span, nil
	})
	if trace := <-target; len(trace) != 2 {
		t.Fatal(trace)
	}
}
'''),
dict(id='http-empty-is-fine',property='C01',pkg='',
 edits=[('handlers.go','''		// decode body on the fly''','''		// a client that had nothing to report
		if req.Method == "POST" && req.ContentLength == 0 && strings.HasSuffix(req.URL.Path, "/spans") {
			writer.WriteHeader(http.StatusAccepted)
			return
		}

		// decode body on the fly''')],
 needs='a request without a body',
 breaks='it is accepted, although it is no document',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	handleSpans(router, make(chan proxy.Span, 10))
	rec := httptest.NewRecorder()
	handleGzipRequestBody(router).ServeHTTP(rec, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader("")))
	if rec.Code != 400 {
		t.Fatal(rec.Code)
	}
}
'''),
dict(id='consumer-close-timeout',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		cancel()
		<-finishedCh
''','''		cancel()

		// do not wait forever for a broker that is gone
		select {
		case <-finishedCh:
		case <-time.After(5 * time.Second):
		}
'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
''','''	"github.com/sirupsen/logrus"
	"time"
''')],
 needs='a session that needs more than five seconds to end',
 breaks='closing returns while messages are still being delivered',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	started, ended := make(chan bool), make(chan bool)
	group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
		close(started)
		<-ctx.Done()
		time.Sleep(8 * time.Second)
		close(ended)
		return nil
	}}
	stop := Consume(group, "t", func(span proxy.Span) {})
	<-started
	stop()
	select {
	case <-ended:
	default:
		t.Fatal("session still running")
	}
}
'''),
dict(id='http-counts-content-types',property='C32',pkg='',
 edits=[('handlers.go','''		var err error
		metrics.GetOrRegisterTimer("spans.receive[type:json-v2]", nil).Time(func() {
''','''		var err error
		if contentType := req.Header.Get("Content-Type"); contentType != "" {
			metrics.GetOrRegisterMeter("spans.receive[content-type:"+contentType+"]", nil).Mark(1)
		}

		metrics.GetOrRegisterTimer("spans.receive[type:json-v2]", nil).Time(func() {
''')],
 needs='clients with many different content types',
 breaks='memory grows with every one of them',
 demo=HTTP.replace('import (','import (\n\t"runtime"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	handler := handleGzipRequestBody(router)
	run := func(n int) uint64 {
		for i := 0; i < 10000; i++ {
			req := httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[]`))
			req.Header.Set("Content-Type", fmt.Sprintf("application/json; part=%d-%d", n, i))
			handler.ServeHTTP(httptest.NewRecorder(), req)
		}
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(1)
	run(2)
	if after := run(3); after > before+4<<20 {
		t.Fatal(before, after)
	}
}
'''),
dict(id='sink-limits-tags',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				*converted = tracer.Span{
''','''				// the agent drops spans with too many tags
				meta := span.Tags
				if len(meta) > 250 {
					meta = make(map[string]string, 250)
					for key, value := range span.Tags {
						if len(meta) < 250 || key == "error" {
							meta[key] = value
						}
					}
				}

				*converted = tracer.Span{
'''),('datadog/converter.go','''					Meta:    span.Tags,
''','''					Meta:    meta,
''')],
 needs='a span with more than 250 tags',
 breaks='some of them do not arrive',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	for i := 0; i < 300; i++ {
		span.AddTag(string(rune(1000+i)), "x")
	}
	if sent := seedSend(t, span); len(sent.Meta) != 300 {
		t.Fatal(len(sent.Meta))
	}
}
'''),
dict(id='binary-limits-strings',property='C09',pkg='codec',
 edits=[('codec/binary.go','''	// We arbitrarily limit string size to sane default (~2.2GB).
	if len < 0 || len > math.MaxInt32 {
''','''	// We arbitrarily limit string size to sane default (16MB).
	if len < 0 || len > math.MaxInt32>>7 {
''')],
 needs='a string of more than 16 MB',
 breaks='the span can not be decoded',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan(strings.Repeat("x", 20<<20), 1, 1, 1)
	var buf bytes.Buffer
	if err := BinaryEncode(span, &buf); err != nil {
		t.Fatal(err)
	}
	if got, err := BinaryDecode(bytes.NewReader(buf.Bytes())); err != nil || got.Name != span.Name {
		t.Fatal(err)
	}
}
'''),
dict(id='collector-quiet-from-ticks',property='C15',pkg='',
 edits=[('correct.go','''	tree.updated = time.Now()

	// get a reference''','''	// a report that only repeats what we already know is no update
	if known := tree.spans.GetSpanRef(newSpan.Id); known == nil || known.Timings != newSpan.Timings || len(known.Tags) != len(newSpan.Tags) {
		tree.updated = time.Now()
	}

	// get a reference''')],
 needs='a span that is reported again, just before the trace is emitted',
 breaks='the trace is emitted too early, the spans following are missing',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		time.Sleep(6 * time.Second)
		in <- seedSpan(1, 1, 1)
		time.Sleep(6 * time.Second)
		in <- seedSpan(1, 2, 1)
		time.Sleep(20 * time.Second)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 2 {
			t.Error(traces)
		}
	})
}
'''),
dict(id='collector-spares-errors',property='C19',pkg='',
 edits=[('correct.go','''		traceTooOld := trace.started.Before(deadlineStarted)

		if !trace''','''		traceTooOld := trace.started.Before(deadlineStarted)

		// a trace that shows an error is worth to wait for
		if traceTooOld && !traceTooLarge {
			for idx := range trace.spans {
				if trace.spans[idx].Tags["error"] == "true" {
					traceTooOld = false
					break
				}
			}
		}

		if !trace''')],
 needs='an endless trace with a failed span',
 breaks='it is never cut off',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 1; i < 20; i++ {
			span := seedSpan(1, proxy.Id(i), 1)
			span.AddTag("error", "true")
			in <- span
			time.Sleep(5 * time.Second)
		}
		time.Sleep(20 * time.Second)
		if n := len(got()); n != 0 {
			t.Error(n)
		}
	})
}
'''),
dict(id='collector-discard-spares-errors',property='C20',pkg='',
 edits=[('correct.go','''		if spanCount < maxSpans {
			break
		}

		delete''','''		if spanCount < maxSpans {
			break
		}

		// somebody will look for those
		if root := trace.Root(); root != nil && root.Tags["error"] != "" {
			continue
		}

		delete''')],
 needs='more than 100000 spans in traces with a failed root',
 breaks='they are all held',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	trees := map[Id]*tree{}
	for i := 1; i <= 100; i++ {
		tree := newTree(Id(i))
		for k := 0; k < 1500; k++ {
			span := seedSpan(Id(i), Id(i+1000*k), Id(i))
			span.AddTag("error", "x")
			tree.AddSpan(span)
		}
		trees[Id(i)] = tree
	}
	discardSuspiciousTraces(trees, 100000)
	if len(trees) > 70 {
		t.Fatal(len(trees))
	}
	_ = synctest.Wait
	_ = logrus.Info
}
'''),
dict(id='sink-trims-error',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''					if spanError != "false" && spanError != "0" {
''','''					if value := strings.TrimSpace(spanError); value != "false" && value != "0" {
'''),('datadog/converter.go','''	"os"
''','''	"os"
	"strings"
''')],
 needs='an error tag with the value "0" or "false", and white space around it',
 breaks='the span is not marked as failed',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("error", " 0")
	if sent := seedSend(t, span); sent.Error != 1 {
		t.Fatal(sent)
	}
}
'''),
dict(id='sink-sends-in-background',property='C32',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				// do not wait for the answer
				go func() {
					if _, err := transport.SendTraces(traces); err != nil {
						log.WithError(err).Warn("Error reporting spans to datadog")
					}
				}()
''')],
 needs='an agent that does not answer',
 breaks='goroutines and the spans they send pile up',
 demo=VSINK.replace('import (','import (\n\t"runtime"\n').replace('t <- traces\n\treturn nil, nil','t <- traces\n\tselect {}')+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 1000)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	for i := 1; i <= 200; i++ {
		trace := make(proxy.Trace, 1000)
		for k := range trace {
			trace[k] = proxy.NewSpan("n", 1, proxy.Id(i*1000+k), 1)
		}
		traces <- trace
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > 50 {
		t.Fatal(n)
	}
}
'''),
dict(id='id-accepts-prefix',property='C27',pkg='proxy',
 edits=[('proxy/id.go','''	if len(bytes) > 16 {
''','''	// some clients write it as a number
	if len(bytes) > 2 && bytes[0] == '0' && (bytes[1] == 'x' || bytes[1] == 'X') {
		bytes = bytes[2:]
	}

	if len(bytes) > 16 {
''')],
 needs='an id that starts with "0x"',
 breaks='it is not an error',
 demo='''
package proxy

import "testing"

func TestSeedDemo(t *testing.T) {
	if id, err := ParseId([]byte("0x12")); err == nil {
		t.Fatal(id)
	}
}
'''),
dict(id='collector-merged-of-other-service',property='C21',pkg='',
 edits=[('correct.go','''	metricsSpansMerged.Mark(1)
''','''	// just the same span once more is not a merge
	if spanToUpdate.Timings != newSpan.Timings || newSpan.Timings != (proxy.Timings{}) {
		metricsSpansMerged.Mark(1)
	}
''')],
 needs='a span without any of the four moments that is reported again',
 breaks='it is not counted as merged',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		before := metricsSpansMerged.Count()
		in <- seedSpan(1, 1, 1)
		in <- seedSpan(1, 1, 1)
		time.Sleep(20 * time.Second)
		if n := metricsSpansMerged.Count() - before; n != 1 {
			t.Error(n)
		}
	})
}
'''),
]
