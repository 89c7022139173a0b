import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
IGN='''			// ignore invalid spans
			if span.Trace == 0 || span.Id == 0 {
'''
BUGS=[
dict(id='collector-ignores-timeless',property='C17',pkg='.',
 edits=[('correct.go',IGN,'''			// ignore invalid spans
			if span.Trace == 0 || span.Id == 0 || (span.Timestamp == 0 && span.Timings == proxy.Timings{}) {
''')],
 needs='a span without any time',
 breaks='it is dropped',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		span := seedSpan(1, 2, 1)
		span.Timestamp = 0
		in <- span
		time.Sleep(10 * time.Second)
		if trace := got()[0]; len(trace) != 2 {
			t.Fatal(trace)
		}
	})
}
'''),
dict(id='collector-ignores-negative-durations',property='C15',pkg='.',
 edits=[('correct.go',IGN,'''			// ignore invalid spans
			if span.Trace == 0 || span.Id == 0 || span.Duration < 0 {
''')],
 needs='a span with a negative duration',
 breaks='it is dropped',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		span := seedSpan(1, 2, 1)
		span.Duration = -5
		in <- span
		time.Sleep(10 * time.Second)
		if trace := got()[0]; len(trace) != 2 {
			t.Fatal(trace)
		}
	})
}
'''),
dict(id='collector-started-of-span',property='C15',pkg='.',
 edits=[('correct.go','''				trace = newTree(span.Trace)
''','''				trace = newTree(span.Trace)

				// the trace started when its first span did
				if started := span.Timestamp.ToTime(); started.Before(trace.started) && time.Since(started) < time.Hour {
					trace.started = started
				}

''')],
 needs='a span that is reported a minute after it started',
 breaks='its trace is cut off as too old',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		span := seedSpan(1, 1, 1)
		span.Timestamp = proxy.Timestamp(time.Now().Add(-time.Minute).UnixNano())
		in <- span
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 {
			t.Fatal(traces)
		}
	})
}
'''),
dict(id='collector-load-of-traces',property='C20',pkg='.',
 edits=[('correct.go','''		if spanCount >= config.MaxSpans {
''','''		if len(traces) >= config.MaxSpans/2 {
''')],
 needs='traces with fewer or more than two spans',
 breaks='the quiet period depends on the number of traces',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for k := proxy.Id(1); k <= 25000; k++ {
			in <- seedSpan(k, k, k)
		}
		time.Sleep(7 * time.Second)
		if n := len(got()); n != 0 {
			t.Fatal(n)
		}
	})
}
'''),
dict(id='sink-dedupes',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''				byTrace[converted.TraceID] = append(byTrace[converted.TraceID], converted)
''','''				// the agent does not want to see a span twice
				list := byTrace[converted.TraceID]
				if n := len(list); n > 0 && list[n-1].SpanID == converted.SpanID {
					list[n-1] = converted
				} else {
					byTrace[converted.TraceID] = append(list, converted)
				}
''')],
 needs='neighbouring spans of a trace with the same id',
 breaks='only one of them is submitted',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 8)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- proxy.Trace{{Trace: 1, Id: 1}, {Trace: 1, Id: 1}}
	select {
	case sent := <-transport:
		if len(sent[0]) != 2 {
			t.Fatal(len(sent[0]))
		}
	case <-time.After(10 * time.Second):
		t.Fatal("nothing sent")
	}
}
'''),
dict(id='sink-splits-large-traces',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			count += len(spans)
			traces = append(traces, spans)
''','''			count += len(spans)

			// the agent only takes lists of a limited size
			for len(spans) > 4096 {
				traces = append(traces, spans[:4096])
				spans = spans[4096:]
			}

			traces = append(traces, spans)
''')],
 needs='a trace of more than 4096 spans',
 breaks='it is submitted in two lists',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 8)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	trace := make(proxy.Trace, 5000)
	for i := range trace {
		trace[i] = proxy.Span{Trace: 1, Id: proxy.Id(i + 1)}
	}
	traces <- trace
	select {
	case sent := <-transport:
		if len(sent) != 1 {
			t.Fatal(len(sent))
		}
	case <-time.After(10 * time.Second):
		t.Fatal("nothing sent")
	}
}
'''),
dict(id='sink-zero-start',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				*converted = tracer.Span{
''','''				start := span.Timestamp
				if start == 0 {
					start = proxy.Timestamp(time.Now().Add(-duration).UnixNano())
				}

				*converted = tracer.Span{
'''),('datadog/converter.go','span.Timestamp.ToTime().UnixNano()','start.ToTime().UnixNano()')],
 needs='a span without a start',
 breaks='it gets another one',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	if span := seedSend(t, proxy.Span{Trace: 1, Id: 1}); span.Start != 0 {
		t.Fatal(span.Start)
	}
}
'''),
dict(id='sender-skips-invalid',property='C10',pkg='balance',
 edits=[('balance/sender.go','''	for span := range spans {
		s.sendSpan(span)
''','''	for span := range spans {
		// there is nobody who could make use of it
		if span.Trace == 0 && span.Id == 0 {
			continue
		}

		s.sendSpan(span)
''')],
 needs='a span without ids',
 breaks='no message is sent for it',
 demo=KAFKA_HEAD+'''
type seedProducer struct {
	sarama.AsyncProducer
	input chan *sarama.ProducerMessage
}

func (p *seedProducer) Input() chan<- *sarama.ProducerMessage { return p.input }

func TestSeedDemo(t *testing.T) {
	p := &seedProducer{input: make(chan *sarama.ProducerMessage, 10)}
	spans := make(chan proxy.Span, 10)
	spans <- proxy.Span{}
	close(spans)
	(&Sender{p, "t"}).Send(spans)
	if len(p.input) != 1 {
		t.Fatal(len(p.input))
	}
}
'''),
dict(id='consumer-skips-known-offsets',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''	for message := range claim.Messages() {
''','''	var last int64

	for message := range claim.Messages() {
		// the broker might deliver a batch again
		if message.Offset <= last {
			continue
		}

		last = message.Offset

'''),],
 needs='the very first message of a partition',
 breaks='it is not handed over',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	m := seedMessage(1)
	m.Offset = 0
	claim.messages <- m
	close(claim.messages)
	n := 0
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { n++ }}
	_ = handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, claim)
	if n != 1 {
		t.Fatal("not handed over")
	}
}
'''),
dict(id='v1-quadratic-tags',property='C06',pkg='codec',
 edits=[('codec/json-v1.go','''	for _, annotation := range span.BinaryAnnotations {
		proxySpan.AddTag(''','''	for idx, annotation := range span.BinaryAnnotations {
		// the first one with a value wins over later ones without
		known := false
		for _, other := range span.BinaryAnnotations[:idx] {
			known = known || (annotation.Value == "" && other.Key == annotation.Key && other.Value != "")
		}
		if known {
			continue
		}

		proxySpan.AddTag(''')],
 needs='hundreds of thousands of binary annotations',
 breaks='it takes hours to decode them',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		_, _ = ParseJsonV1(strings.NewReader(`[{"binaryAnnotations": [{}` + strings.Repeat(`,{}`, 600000) + `]}]`))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("still not done")
	}
}
'''),
dict(id='buffer-filters-timeless',property='C25',pkg='.',
 edits=[('buffer.go','''		if span.Id != 0 {
''','''		if span.Timestamp != 0 {
''')],
 needs='a span without a time',
 breaks='it is not listed',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(10)
	traces := make(chan proxy.Trace, 1)
	traces <- proxy.Trace{{Id: 1, Trace: 1}}
	close(traces)
	buffer.ReadFrom(traces)
	if len(buffer.ToSlice()) != 1 {
		t.Fatal(buffer.ToSlice())
	}
}
'''),
dict(id='jaeger-requires-process',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''		for _, span := range dataObject.Spans {
''','''		for _, span := range dataObject.Spans {
			if _, ok := dataObject.Processes[span.ProcessId]; !ok && len(dataObject.Processes) > 0 {
				continue
			}

''')],
 needs='a span of a process that is not listed',
 breaks='it is lost',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "1", "processID": "p2"}], "processes": {"p1": {"serviceName": "s"}}}]}`))
	if err != nil || len(spans) != 1 {
		t.Fatal(err, spans)
	}
}
'''),
dict(id='v2-skips-without-id',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	parsedSpans := make([]proxy.Span, len(decoded))
	for idx, span := range decoded {
		parsedSpans[idx] = span.ToSpan()
	}
''','''	parsedSpans := make([]proxy.Span, 0, len(decoded))
	for _, span := range decoded {
		if span.ID == 0 && span.TraceID == 0 {
			continue
		}

		parsedSpans = append(parsedSpans, span.ToSpan())
	}
''')],
 needs='a span without ids',
 breaks='it is left out',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"name": "x"}, {}]`))
	if err != nil || len(spans) != 2 {
		t.Fatal(err, spans)
	}
}
'''),
dict(id='v1-empty-keys',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''	for _, annotation := range span.BinaryAnnotations {
''','''	for _, annotation := range span.BinaryAnnotations {
		if annotation.Key == "" {
			continue
		}

''')],
 needs='a binary annotation without a key',
 breaks='it is left out, with the service it names',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"binaryAnnotations": [{"value": "x", "endpoint": {"serviceName": "s"}}]}]`))
	if err != nil || len(spans) != 1 || spans[0].Service != "s" || len(spans[0].Tags) != 2 {
		t.Fatal(err, spans)
	}
}
'''),
]
