import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
BUGS=[
dict(id='span-zero-parent-is-root',property='C18',pkg='.',
 edits=[('proxy/span.go','''	return span.Parent == span.Id
''','''	return span.Parent == span.Id || span.Parent.IsUnknown()
''')],
 needs='several spans without a parent in one trace, and no other root',
 breaks='no root is synthesized for them',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 2, 0)
		in <- seedSpan(1, 3, 0)
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 {
			t.Fatal(len(traces))
		}
	})
}
'''),
dict(id='timestamp-rounds-up-millis',property='C17',pkg='.',
 edits=[('proxy/timestamp.go','''	return int64(ts) / int64(time.Millisecond)
''','''	return int64(time.Duration(ts).Round(time.Millisecond) / time.Millisecond)
''')],
 needs='a span that starts within the last half millisecond before 2020',
 breaks='the time of its parent is not taken',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		span := seedSpan(1, 2, 1)
		span.Timestamp = 1577836800000000000 - 1
		in <- span
		time.Sleep(10 * time.Second)
		for _, span := range got()[0] {
			if span.Timestamp != seedBase {
				t.Fatal(span)
			}
		}
	})
}
'''),
dict(id='json-surrogate-at-end',property='C05',pkg='codec',
 edits=[('codec/hyperjson/string.go','''		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\\\' && input[idx+2] == 'u' {
''','''		if rest := input[idx+1:]; utf16.IsSurrogate(r) && len(rest) > 6 && rest[0] == '\\\\' && rest[1] == 'u' {
''')],
 needs='a text that ends with an escaped pair of surrogates',
 breaks='the character is replaced',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "name": "\\\\ud83d\\\\ude00"}]`))
	if err != nil || spans[0].Name != "\\U0001f600" {
		t.Fatal(err, spans)
	}
}
'''.replace('\\\\\\\\','\\\\').replace('`[{"traceId": "1", "id": "1", "name": "\\\\ud83d\\\\ude00"}]`','`[{"traceId": "1", "id": "1", "name": "\\ud83d\\ude00"}]`')),
dict(id='collector-old-is-40s',property='C19',pkg='.',
 edits=[('correct.go','''	deadlineStarted := time.Now().Add(-5 * bufferTime)
''','''	deadlineStarted := time.Now().Add(-5 * bufferConfigs[0].BufferTime)
''')],
 needs='load that shortens the quiet period and a trace that does not end',
 breaks='the trace is cut off later than after five quiet periods',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	tooOld := metrics.GetOrRegisterMeter("traces.tooold", nil)
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		before := tooOld.Count()
		id := proxy.Id(1000)
		for i := 0; i < 30; i++ {
			in <- seedSpan(1, proxy.Id(i+1), 1)
			// some load
			for k := 0; k < 45000; k++ {
				id++
				in <- seedSpan(id, id, id)
			}
			time.Sleep(time.Second)
			got()
		}
		if tooOld.Count() != before+1 {
			t.Fatal(tooOld.Count() - before)
		}
	})
}
'''),
dict(id='collector-load-above',property='C20',pkg='.',
 edits=[('correct.go','''		if spanCount >= config.MaxSpans {
''','''		if spanCount > config.MaxSpans || config.MaxSpans == 0 {
''')],
 needs='exactly 40, 60 or 80 thousand spans',
 breaks='the quiet period is not shortened',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for k := proxy.Id(1); k <= 40000; k++ {
			in <- seedSpan(k, k, k)
		}
		time.Sleep(7 * time.Second)
		if n := len(got()); n != 40000 {
			t.Fatal(n)
		}
	})
}
'''),
dict(id='http-slots-of-rejected',property='C01',pkg='.',
 edits=[('handlers.go','''func parseSpansWithJSON(''','''// limits the number of bodies that are parsed at the same time
var parserSlots = make(chan struct{}, 64)

func parseSpansWithJSON('''),('handlers.go','''	parsedSpans, err := parser(body)
''','''	parserSlots <- struct{}{}
	parsedSpans, err := parser(body)
'''),('handlers.go','''	for _, span := range parsedSpans {
		spansChannel <- span
''','''	<-parserSlots

	for _, span := range parsedSpans {
		spansChannel <- span
''')],
 needs='64 rejected documents',
 breaks='no document is accepted any more',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	spans := make(chan proxy.Span, 1000)
	router := httprouter.New()
	handleSpans(router, spans)
	done := make(chan int, 1)
	go func() {
		code := 0
		for i := 0; i < 200; i++ {
			for _, doc := range []string{`[{"traceId": `, `[{"traceId": "1", "id": "1"}]`} {
				rec := httptest.NewRecorder()
				router.ServeHTTP(rec, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(doc)))
				code = rec.Code
			}
		}
		done <- code
	}()
	select {
	case code := <-done:
		if code != 202 {
			t.Fatal(code)
		}
	case <-time.After(30 * time.Second):
		t.Fatal("no answer")
	}
}
'''),
dict(id='collector-drains-input',property='C20',pkg='.',
 edits=[('correct.go','''			trace.AddSpan(span)

		case <-ticker.C:''','''			trace.AddSpan(span)

			// most of the time there are more spans waiting
			for len(inputCh) > 0 {
				span, ok := <-inputCh
				if !ok {
					return
				}

				if span.Trace == 0 || span.Id == 0 {
					continue
				}

				if _, ok := blacklistedTraces[span.Trace]; ok {
					metricsReceivedBlacklistedSpan.Mark(1)
					continue
				}

				trace := traces[span.Trace]
				if trace == nil {
					trace = newTree(span.Trace)
					traces[span.Trace] = trace
				}

				trace.AddSpan(span)
			}

		case <-ticker.C:''')],
 needs='an input that always has spans waiting, for seconds',
 breaks='no trace is finished or discarded meanwhile, more and more spans are held',
 demo=ROOT.replace('"sync"','"sync"\n\t"sync/atomic"')+'''
func TestSeedDemo(t *testing.T) {
	in, out := make(chan proxy.Span, 256), make(chan proxy.Trace, 64)
	go ErrorCorrectSpans(in, out)
	go func() {
		for range out {
		}
	}()
	discarded := metrics.GetOrRegisterMeter("traces.discarded", nil)
	var senders sync.WaitGroup
	var sent, most int64
	stop := time.Now().Add(6 * time.Second)
	for k := 1; k <= 500; k++ {
		senders.Add(1)
		go func(k int) {
			defer senders.Done()
			for n := k; time.Now().Before(stop); n += 500 {
				in <- proxy.Span{Trace: proxy.Id(n), Id: proxy.Id(n), Parent: proxy.Id(n), Timestamp: 1600000000000000000}
				if s := atomic.AddInt64(&sent, 1); s%10000 == 0 {
					if held := s - discarded.Count(); held > atomic.LoadInt64(&most) {
						atomic.StoreInt64(&most, held)
					}
				}
			}
		}(k)
	}
	senders.Wait()
	t.Log(sent, most)
	if most > 600000 {
		t.Fatal(most, "spans are held")
	}
}
'''),
dict(id='consumer-marks-offset',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		session.MarkMessage(message, "")
''','''		// commit the position of the span within its partition
		session.MarkOffset(message.Topic, message.Partition, message.Offset, "")
''')],
 needs='a session that ends and another one that goes on where it stopped',
 breaks='the last span of the session is handed over twice',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	claim.messages <- seedMessage(1)
	close(claim.messages)
	handler := &consumerGroupHandler{callback: func(span proxy.Span) {}}
	n := 0
	func() {
		defer func() { recover() }()
		handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) { n++ }}, claim)
	}()
	if n != 1 {
		t.Fatal("not marked")
	}
}
'''),
dict(id='sink-drains-input',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			for _, span := range trace {
				// set lower bound''','''			// take what else is waiting
			for pending := len(tracesCh); pending > 0; pending = len(tracesCh) {
				trace = append(trace[:len(trace):len(trace)], <-tracesCh...)
			}

			for _, span := range trace {
				// set lower bound''')],
 needs='traces that arrive without a pause',
 breaks='a submission does not happen although more than 1000 spans are waiting',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 100000)
	traces := make(chan proxy.Trace, 256)
	go Sink(transport, traces)
	stop := time.Now().Add(5 * time.Second)
	for time.Now().Before(stop) && len(transport) == 0 {
		traces <- proxy.Trace{{Trace: 1, Id: 1}}
	}
	if len(transport) == 0 {
		t.Fatal("nothing sent")
	}
}
'''),
dict(id='span-addtag-keeps-first',property='C04',pkg='codec',
 edits=[('proxy/span.go','''	span.Tags[key] = value
''','''	if _, exists := span.Tags[key]; !exists || value != "" {
		span.Tags[key] = value
	}
''')],
 needs='a tag that is given twice, the second time with an empty value',
 breaks='the tag has the first value',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "1", "tags": [{"key": "a", "value": "x"}, {"key": "a", "value": ""}]}]}]}`))
	if err != nil || spans[0].Tags["a"] != "" {
		t.Fatal(err, spans)
	}
}
'''),
dict(id='json-object-empty-key',property='C05',pkg='codec/hyperjson',
 edits=[('codec/hyperjson/parser_skip.go','''		// read the key
		if _, err := p.readString(); err != nil {
			return err
		}

		if err := p.Skip(); err != nil {''','''		// read the key
		key, err := p.readString()
		if err != nil {
			return err
		}

		// there is nothing that could belong to it
		if len(key.Value) == 0 && p.available() == 0 {
			continue
		}

		if err := p.Skip(); err != nil {''')],
 needs='an empty key in a value that is skipped, at the end of what was read',
 breaks='keys are taken for values and the other way round',
 demo='''
package hyperjson

import (
	"strings"
	"testing"
	"testing/iotest"
)

func TestSeedDemo(t *testing.T) {
	p := NewWithReader(iotest.OneByteReader(strings.NewReader(`[{"": {"a": 1}}, "x"]`)), nil)
	_ = p.ConsumeArrayBegin()
	if err := p.Skip(); err != nil {
		t.Fatal(err)
	}
	if tok, err := p.ReadString(); err != nil || string(tok.Value) != "x" {
		t.Fatal(err, string(tok.Value))
	}
}
'''),
dict(id='forward-converts-per-output',property='C26',pkg='.',
 edits=[('main.go','''		// we re-use the same slice for the target and just overwrite
		// the spans in there.
		var result = trace[:0]

		for idx := range trace {
			converted, err := converter(trace[idx])
			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			result = append(result, converted)
		}

		for _, target := range targets {
			target <- result
		}
''','''		for _, target := range targets {
			// every target gets spans of its own
			result := make(proxy.Trace, 0, len(trace))

			for idx := range trace {
				converted, err := converter(trace[idx])
				if err != nil || converted.Id == 0 || converted.Trace == 0 {
					continue
				}

				result = append(result, converted)
			}

			target <- result
		}
''')],
 needs='a converter that counts, or that decides differently the second time',
 breaks='the converter is called for every output',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source := make(chan proxy.Trace, 1)
	a, b := make(chan proxy.Trace, 1), make(chan proxy.Trace, 1)
	source <- proxy.Trace{{Trace: 1, Id: 1}}
	close(source)
	n := 0
	forwardSpansToChannels(source, []chan<- proxy.Trace{a, b}, func(span proxy.Span) (proxy.Span, error) { n++; return span, nil })
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id='cache-no-refresh-while-small',property='C14',pkg='cache',
 edits=[('cache/lru.go','''		result = item.Value
		c.usage.PushHead(item)
''','''		result = item.Value

		// the order does not matter as long as there is enough room
		if 2*c.Size() > c.maxSize {
			c.usage.PushHead(item)
		}
''')],
 needs='a value that is used while the cache is not half full, and one that is not, before it fills up',
 breaks='values are dropped before others that were used less recently',
 demo='''
package cache

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewLRUCache(100 * (itemOverhead + 8))
	for i := 0; i < 40; i++ {
		c.Set(fmt.Sprintf("%08d", i))
	}
	c.Get("00000000")
	for i := 40; i < 120; i++ {
		c.Set(fmt.Sprintf("%08d", i))
	}
	if c.Get("00000000") == "" {
		t.Fatal("dropped too early")
	}
}
'''),
dict(id='collector-merge-same-timings',property='C16',pkg='.',
 edits=[('correct.go','''	if span.Parent.IsUnknown() {
		span.Parent = newSpan.Parent
	}
''','''	// the same report again, nothing to merge
	if span.Timings == newSpan.Timings && len(span.Tags) == len(newSpan.Tags) {
		return
	}

	if span.Parent.IsUnknown() {
		span.Parent = newSpan.Parent
	}
''')],
 needs='a span that is reported twice with the same times and as many, but other tags, or another parent',
 breaks='tags or the parent of the second report are lost',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		a, b := seedSpan(1, 1, 1), seedSpan(1, 1, 1)
		a.Tags = map[string]string{"a": "1"}
		b.Tags = map[string]string{"b": "1"}
		in <- a
		in <- b
		time.Sleep(10 * time.Second)
		if trace := got()[0]; len(trace[0].Tags) != 2 {
			t.Fatal(trace)
		}
	})
}
'''),
]
