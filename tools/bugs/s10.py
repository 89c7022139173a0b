import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
BUGS=[
dict(id='collector-unsigned-search',property='C15',pkg='.',
 edits=[('correct.go','''		return spanId >= spans[i].Id
''','''		return spanId.Uint64() >= spans[i].Id.Uint64()
''')],
 needs='a span that is reported twice in a trace with ids below and above 2^63',
 breaks='the trace holds the span twice',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 2; i++ {
			in <- seedSpan(1, 1, 1)
			for _, id := range []proxy.Id{-1, 5, -7, 9, -100} {
				in <- seedSpan(1, id, 1)
			}
		}
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 6 {
			t.Fatal(traces)
		}
	})
}
'''),
dict(id='collector-folds-trace-id',property='C15',pkg='.',
 edits=[('correct.go','''	traces := make(map[Id]*tree)

	ticker''','''	traces := make(map[Id]*tree)

	// most trace ids have 32 bits only, spread the others over the same range
	slot := func(id Id) Id {
		return (id ^ id>>32) & 0xffffffff
	}

	ticker'''),('correct.go','''			trace := traces[span.Trace]
			if trace == nil {
				trace = newTree(span.Trace)
				traces[span.Trace] = trace
			}
''','''			trace := traces[slot(span.Trace)]
			if trace == nil {
				trace = newTree(span.Trace)
				traces[slot(span.Trace)] = trace
			}
'''),('correct.go','''			blacklist[traceID] = none{}
			log.Warnf("Trace %s with %d nodes is too large.", traceID, trace.nodeCount)
''','''			blacklist[trace.traceId] = none{}
			log.Warnf("Trace %s with %d nodes is too large.", traceID, trace.nodeCount)
'''),('correct.go','''			blacklist[traceID] = none{}
			log.Warnf("Trace %s with %d nodes is too old", traceID, trace.nodeCount)
''','''			blacklist[trace.traceId] = none{}
			log.Warnf("Trace %s with %d nodes is too old", traceID, trace.nodeCount)
''')],
 needs='two traces at the same time whose ids have the same exclusive-or of their halves',
 breaks='they are taken for one',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(5, 1, 1)
		in <- seedSpan(5<<32, 2, 2)
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 2 {
			t.Fatal(traces)
		}
	})
}
'''),
dict(id='collector-timer-in-select',property='C15',pkg='.',
 edits=[('correct.go','''	ticker := time.NewTicker(100 * time.Millisecond)
	defer ticker.Stop()

	// blacklisted''','''	// blacklisted'''),('correct.go','''		case <-ticker.C:
			finishTraces(''','''		case <-time.After(100 * time.Millisecond):
			finishTraces(''')],
 needs='spans that arrive at least every 100 ms all the time',
 breaks='no trace is finished',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 1000; i++ {
			in <- seedSpan(proxy.Id(i+1), 1, 1)
			time.Sleep(50 * time.Millisecond)
		}
		if traces := got(); len(traces) < 100 {
			t.Fatal(len(traces))
		}
	})
}
'''),
dict(id='buffer-skips-same-id',property='C25',pkg='.',
 edits=[('buffer.go','''		for _, span := range trace {
			buffer.spans''','''		for idx, span := range trace {
			// client and server report the same span
			if idx > 0 && trace[idx-1].Id == span.Id {
				continue
			}

			buffer.spans''')],
 needs='neighbouring spans with the same id',
 breaks='only one of them is listed',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(10)
	traces := make(chan proxy.Trace, 1)
	traces <- proxy.Trace{{Id: 1, Trace: 1}, {Id: 1, Trace: 2}}
	close(traces)
	buffer.ReadFrom(traces)
	if len(buffer.ToSlice()) != 2 {
		t.Fatal(buffer.ToSlice())
	}
}
'''),
dict(id='buffer-two-copies',property='C25',pkg='.',
 edits=[('buffer.go','''	buffer.lock.Lock()
	defer buffer.lock.Unlock()

	// the oldest span is the one that will be overwritten next
	capacity := uint(len(buffer.spans))

	var result []proxy.Span
	for offset := uint(0); offset < capacity; offset++ {
		span := buffer.spans[(buffer.position+offset)%capacity]
		if span.Id != 0 {
			result = append(result, span)
		}
	}

	return result
''','''	capacity := uint(len(buffer.spans))

	buffer.lock.Lock()
	position := buffer.position
	buffer.lock.Unlock()

	// the oldest span is the one that will be overwritten next
	var result []proxy.Span
	for offset := uint(0); offset < capacity; offset++ {
		if span := buffer.get((position + offset) % capacity); span.Id != 0 {
			result = append(result, span)
		}
	}

	return result
}

func (buffer *SpansBuffer) get(idx uint) proxy.Span {
	buffer.lock.Lock()
	defer buffer.lock.Unlock()

	return buffer.spans[idx]
''')],
 needs='spans that are added while the list is read',
 breaks='the list mixes old and new spans',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(1000)
	traces := make(chan proxy.Trace)
	go buffer.ReadFrom(traces)
	stop := make(chan bool)
	defer close(stop)
	go func() {
		for id := proxy.Id(1); ; id++ {
			select {
			case traces <- proxy.Trace{{Id: id, Trace: 1}}:
			case <-stop:
				return
			}
		}
	}()
	for i := 0; i < 20000; i++ {
		list := buffer.ToSlice()
		for k := 1; k < len(list); k++ {
			if list[k].Id != list[k-1].Id+1 {
				t.Fatal(list[k-1].Id, list[k].Id)
			}
		}
	}
}
'''),
dict(id='sink-keeps-when-busy',property='C32',pkg='datadog',
 edits=[('datadog/converter.go','''			case groupedSpans <- byTrace:
			default:
				log.Warnf("Discarding %d traces, sending to datadog would block.", len(byTrace))
			}
''','''			case groupedSpans <- byTrace:
			default:
				log.Warnf("Keeping %d traces, sending to datadog would block.", len(byTrace))
				continue
			}
''')],
 needs='an agent that hangs for a long time',
 breaks='spans pile up in memory',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	for i := 0; i < 100; i++ {
		trace := make(proxy.Trace, 1000)
		for k := range trace {
			trace[k] = proxy.Span{Trace: proxy.Id(i + 1), Id: proxy.Id(k + 1)}
		}
		traces <- trace
	}
	n := 0
	for {
		select {
		case sent := <-transport:
			for _, trace := range sent {
				n += len(trace)
			}
			continue
		case <-time.After(6 * time.Second):
		}
		break
	}
	if n > 12000 {
		t.Fatal(n)
	}
}
'''),
dict(id='sink-two-workers',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''	go submitTraces(transport, groupedSpans)
''','''	for worker := 0; worker < 2; worker++ {
		go submitTraces(transport, groupedSpans)
	}
''')],
 needs='more batches than are submitted at once while the agent hangs',
 breaks='more batches than the queue holds are kept',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	for i := 0; i < 100; i++ {
		trace := make(proxy.Trace, 1000)
		for k := range trace {
			trace[k] = proxy.Span{Trace: proxy.Id(i + 1), Id: proxy.Id(k + 1)}
		}
		traces <- trace
		time.Sleep(10 * time.Millisecond)
	}
	n := 0
	for {
		select {
		case <-transport:
			n++
			continue
		case <-time.After(6 * time.Second):
		}
		break
	}
	if n != 9 {
		t.Fatal(n)
	}
}
'''),
dict(id='encoder-short-keys',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''	binary.LittleEndian.PutUint64(*keySlice, span.Trace.Uint64())
''','''	if span.Trace>>32 == 0 {
		// the memory is still zero
		binary.LittleEndian.PutUint32(*keySlice, uint32(span.Trace))
	} else {
		binary.LittleEndian.PutUint64(*keySlice, span.Trace.Uint64())
	}
''')],
 needs='a trace id of 32 bits in the span after one that is larger than 512 bytes',
 breaks='the key depends on the previous span',
 demo=s4.KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 10; i++ {
		makeProducerMessage(seedSpan(1, strings.Repeat("x", 2000)), "topic")
		key, _ := seedKeyValue(t, makeProducerMessage(seedSpan(7, "n"), "topic"))
		if key != "\\x07\\x00\\x00\\x00\\x00\\x00\\x00\\x00" {
			t.Fatalf("%q", key)
		}
	}
}
'''),
dict(id='consumer-backoff-uncapped',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''	go func() {
		for {
''','''	go func() {
		backoff := 10 * time.Millisecond
		for {
'''),('balance/receiver.go','''					log.Warnf("Error during consumer group session: %s", err)
''','''					log.Warnf("Error during consumer group session: %s", err)

					// give the broker some time to recover
					select {
					case <-time.After(backoff):
					case <-ctx.Done():
					}
					backoff *= 2
				} else {
					backoff = 10 * time.Millisecond
'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
''','''	"github.com/sirupsen/logrus"
	"time"
''')],
 needs='thirty sessions that fail in a row',
 breaks='the next session only starts after months',
 demo='//go:build go1.25\n\n'+s4.KAFKA_HEAD.lstrip('\n').replace('\t"testing"\n','\t"testing"\n\t"testing/synctest"\n')+'''
func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		n := 0
		done := make(chan bool)
		group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
			if n++; n == 30 {
				close(done)
			}
			if n >= 30 {
				<-ctx.Done()
				return nil
			}
			time.Sleep(time.Second)
			return errors.New("failed")
		}}
		stop := Consume(group, "t", func(span proxy.Span) {})
		select {
		case <-done:
		case <-time.After(24 * time.Hour):
			t.Error("no session")
		}
		stop()
	})
}
'''),
dict(id='consumer-checks-before-mark',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		session.MarkMessage(message, "")
''','''		if session.Context().Err() != nil {
			// the session has ended, the partition belongs to someone else by now
			return nil
		}

		session.MarkMessage(message, "")
''')],
 needs='a session that ends while a span is handed over',
 breaks='the span is handed over again in the next session',
 demo=s4.KAFKA_HEAD+'''
type seedEnded struct{ seedSession }

func (s *seedEnded) Context() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	claim.messages <- seedMessage(1)
	close(claim.messages)
	handed, marked := 0, 0
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { handed++ }}
	_ = handler.ConsumeClaim(&seedEnded{seedSession{mark: func(m *sarama.ConsumerMessage) { marked++ }}}, claim)
	if marked != handed {
		t.Fatal(marked, handed)
	}
}
'''),
dict(id='json-grows-by-page',property='C06',pkg='codec',
 edits=[('codec/hyperjson/parser.go','''		buffer := make([]byte, 2*len(p.buffer)+64)
''','''		buffer := make([]byte, len(p.buffer)+4096)
''')],
 needs='a text of megabytes',
 breaks='memory of hundreds of times its size is allocated',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	doc := `[{"name": "` + strings.Repeat("x", 8<<20) + `"}]`
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	if _, err := ParseJsonV2(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > 200<<20 {
		t.Fatal(used)
	}
}
'''),
dict(id='collector-ignores-reversed',property='C17',pkg='.',
 edits=[('correct.go','''	if clientRecv != 0 && clientSent != 0 && serverRecv != 0 && serverSent != 0 {
''','''	if clientRecv >= clientSent && clientSent != 0 && serverSent >= serverRecv && serverRecv != 0 {
''')],
 needs='a span that is received before it is sent',
 breaks='its times are not corrected',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 1000000, SR: seedBase + 2000000, SS: seedBase + 1000000}
		in <- root
		in <- seedSpan(1, 2, 1)
		time.Sleep(10 * time.Second)
		for _, span := range got()[0] {
			if span.Id == 2 && span.Timestamp != seedBase-1000000 {
				t.Fatal(span)
			}
		}
	})
}
'''),
dict(id='collector-counts-reports',property='C19',pkg='.',
 edits=[('correct.go','''	tree.updated = time.Now()

	// get''','''	tree.updated = time.Now()
	tree.nodeCount++

	// get'''),('correct.go','''		tree.spans.Append(newSpan)
		tree.nodeCount++
		return
''','''		tree.spans.Append(newSpan)
		return
''')],
 needs='a trace of more than 4096 spans of which each is reported by client and server',
 breaks='it is cut off as too large',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 2; i++ {
			for id := proxy.Id(1); id <= 5000; id++ {
				in <- seedSpan(1, id, 1)
			}
		}
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 {
			t.Fatal(len(traces))
		}
	})
}
'''),
dict(id='collector-merge-keeps-error',property='C16',pkg='.',
 edits=[('correct.go','''		for key, value := range newSpan.Tags {
			spanToUpdate.AddTag(key, value)
		}

		if newSpan.Timings.SR.IsValid() {
''','''		clientError, failed := spanToUpdate.Tags["error"]
		for key, value := range newSpan.Tags {
			spanToUpdate.AddTag(key, value)
		}

		// the request has failed, whatever the server says
		if failed {
			spanToUpdate.AddTag("error", clientError)
		}

		if newSpan.Timings.SR.IsValid() {
''')],
 needs='an error tag with different values of client and server',
 breaks='the value of the client wins if it came first',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		client := seedSpan(1, 1, 1)
		client.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 1000}
		client.AddTag("error", "true")
		server := seedSpan(1, 1, 1)
		server.Timings = proxy.Timings{SR: seedBase, SS: seedBase + 1000}
		server.AddTag("error", "timeout")
		in <- client
		in <- server
		time.Sleep(10 * time.Second)
		if span := got()[0][0]; span.Tags["error"] != "timeout" {
			t.Fatal(span)
		}
	})
}
'''),
dict(id='forward-remembers-rejected',property='C26',pkg='.',
 edits=[('main.go','''	processTrace := func(trace proxy.Trace) {
''','''	// names of spans that are filtered by the converter
	rejected := map[[2]string]int{}

	processTrace := func(trace proxy.Trace) {
'''),('main.go','''		for idx := range trace {
			converted, err := converter(trace[idx])
			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}
''','''		for idx := range trace {
			key := [2]string{trace[idx].Service, trace[idx].Name}
			if rejected[key] > 100 {
				continue
			}

			converted, err := converter(trace[idx])
			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				if len(rejected) < 1000 {
					rejected[key]++
				}
				continue
			}
''')],
 needs='more than a hundred rejected spans of a service and name, and others that are not',
 breaks='they are rejected, too',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source := make(chan proxy.Trace)
	target := make(chan proxy.Trace, 1000)
	n := 0
	go func() {
		for i := 0; i < 300; i++ {
			source <- proxy.Trace{{Id: 1, Trace: 1, Tags: map[string]string{"n": fmt.Sprint(i)}}}
		}
		close(source)
	}()
	forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		if n++; n < 200 {
			return span, fmt.Errorf("rejected")
		}
		return span, nil
	})
	got := 0
	close(target)
	for trace := range target {
		got += len(trace)
	}
	if got != 101 {
		t.Fatal(got)
	}
}
'''),
dict(id='http-body-limit',property='C01',pkg='.',
 edits=[('handlers.go','''	parsedSpans, err := parser(body)
	if err != nil {
''','''	// do not let a compressed body fill up the memory
	limited := &io.LimitedReader{R: body, N: 32 << 20}

	parsedSpans, err := parser(limited)
	if err == nil && limited.N <= 0 {
		err = errors.New("body too large")
	}
	if err != nil {
''')],
 needs='a document of more than 32 MB',
 breaks='it is rejected',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	spans := make(chan proxy.Span, 1000)
	router := httprouter.New()
	handleSpans(router, spans)
	rec := httptest.NewRecorder()
	router.ServeHTTP(rec, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1", "x": "`+strings.Repeat("x", 33<<20)+`"}]`)))
	if rec.Code != 202 {
		t.Fatal(rec.Code)
	}
}
'''),
]
