import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5,s7=_load('s3'),_load('s4'),_load('s5'),_load('s7')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT; HTTP=s7.HTTP; VSINK=s7.VSINK
LOOP='''	for message := range claim.Messages() {
'''
CLAIM=KAFKA_HEAD+'''
func seedConsume(messages ...*sarama.ConsumerMessage) (n int) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	for _, m := range messages {
		claim.messages <- m
	}
	close(claim.messages)
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { n++ }}
	_ = handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, claim)
	return n
}
'''
BUGS=[
dict(id='consumer-32-bit-offsets',property='C12',pkg='balance',
 edits=[('balance/receiver.go',LOOP,'''	last := int32(-1)

	for message := range claim.Messages() {
		// the broker might deliver a batch again
		if int32(message.Offset) <= last {
			continue
		}

		last = int32(message.Offset)

''')],
 needs='an offset that crosses 2^31 during a session',
 breaks='its messages are not handed over',
 demo=CLAIM+'''
func TestSeedDemo(t *testing.T) {
	var messages []*sarama.ConsumerMessage
	for i := 1; i <= 10; i++ {
		m := seedMessage(i)
		m.Offset = 1<<31 - 5 + int64(i)
		messages = append(messages, m)
	}
	if n := seedConsume(messages...); n != 10 {
		t.Fatal(n)
	}
}
'''),
dict(id='consumer-dedupes-spans',property='C12',pkg='balance',
 edits=[('balance/receiver.go',LOOP,'''	var previous proxy.Span

	for message := range claim.Messages() {
'''),('balance/receiver.go','''		consumer.callback(proxySpan)

''','''		// the producer might have sent it again
		if proxySpan.Id != previous.Id || proxySpan.Trace != previous.Trace || proxySpan.Timestamp != previous.Timestamp || proxySpan.Id == 0 {
			consumer.callback(proxySpan)
		}

		previous = proxySpan

''')],
 needs='client and server reports of a span with the same time next to each other',
 breaks='the second one is not handed over',
 demo=CLAIM+'''
func TestSeedDemo(t *testing.T) {
	if n := seedConsume(seedMessage(1), seedMessage(1)); n != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id='consumer-offset-per-partition',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''type consumerGroupHandler struct {
	callback SpanCallback
''','''type consumerGroupHandler struct {
	callback SpanCallback

	// the next offsets by partition
	offsets [64]int64
'''),('balance/receiver.go',LOOP,'''	next := &consumer.offsets[uint(claim.Partition())%uint(len(consumer.offsets))]
	*next = 0

	for message := range claim.Messages() {
		// the broker might deliver a batch again
		if message.Offset < atomic.LoadInt64(next) {
			continue
		}

		atomic.StoreInt64(next, message.Offset+1)

'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
''','''	"github.com/sirupsen/logrus"
	"sync/atomic"
''')],
 needs='a topic with more than 64 partitions',
 breaks='messages of two partitions are taken for those of one',
 demo=KAFKA_HEAD+'''
type seedPartition struct {
	*seedClaim
	partition int32
}

func (c seedPartition) Partition() int32 { return c.partition }

func TestSeedDemo(t *testing.T) {
	a := seedPartition{&seedClaim{messages: make(chan *sarama.ConsumerMessage)}, 1}
	b := seedPartition{&seedClaim{messages: make(chan *sarama.ConsumerMessage)}, 65}
	calls := make(chan bool, 10)
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { calls <- true }}
	for _, c := range []seedPartition{a, b} {
		go handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, c)
	}
	time.Sleep(200 * time.Millisecond)
	a.messages <- seedMessage(100)
	<-calls
	b.messages <- seedMessage(1)
	select {
	case <-calls:
	case <-time.After(5 * time.Second):
		t.Fatal("not handed over")
	}
}
'''),
dict(id='sink-keeps-errors',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''			select {
			case groupedSpans <- byTrace:
			default:
				log.Warnf("Discarding %d traces, sending to datadog would block.", len(byTrace))
			}

			// reset collection
			spanCount = 0
			byTrace = make(map[uint64][]*tracer.Span)
''','''			next := make(map[uint64][]*tracer.Span)
			spanCount = 0

			select {
			case groupedSpans <- byTrace:
			default:
				log.Warnf("Discarding %d traces, sending to datadog would block.", len(byTrace))

				// keep those with errors, if there are not too many of them
				for trace, spans := range byTrace {
					for _, span := range spans {
						if span.Error != 0 && spanCount < flushSpanCount/2 {
							next[trace] = append(next[trace], span)
							spanCount++
						}
					}
				}
			}

			// reset collection
			byTrace = next
''')],
 needs='spans with errors while the agent stalls and the queue is full',
 breaks='a part of a batch is dropped, the rest comes with a later batch',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		transport := make(seedTransport)
		traces := make(chan proxy.Trace)
		go Sink(transport, traces)
		for i := 1; i <= 30; i++ {
			var trace proxy.Trace
			for k := 0; k < 1000; k++ {
				span := proxy.NewSpan("n", proxy.Id(i), proxy.Id(i*1000+k), 0)
				if k == 0 {
					span.AddTag("error", "true")
				}
				trace = append(trace, span)
			}
			traces <- trace
			synctest.Wait()
		}
		for {
			select {
			case sent := <-transport:
				for _, list := range sent {
					if len(list) != 1000 {
						t.Error(len(list))
					}
				}
			case <-time.After(time.Minute):
				close(traces)
				return
			}
		}
	})
}
'''),
dict(id='sink-sampling-priority',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			for _, span := range trace {
				// set lower''','''			for _, span := range trace {
				// the user does not want to see this one
				if priority := span.Tags["sampling.priority"]; priority == "0" || priority == "-1" {
					continue
				}

				// set lower''')],
 needs='a span with the tag sampling.priority',
 breaks='it is not submitted',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("sampling.priority", "0")
	seedSend(t, span)
}
'''),
dict(id='sink-trims-names',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				resource := span.Name
''','''				resource := strings.TrimSpace(span.Name)
'''),('datadog/converter.go','''	"os"
''','''	"os"
	"strings"
''')],
 needs='a name that begins or ends with white space',
 breaks='the resource differs from the name',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	if span := seedSend(t, proxy.NewSpan("n ", 1, 1, 1)); span.Resource != "n " {
		t.Fatal(span.Resource)
	}
}
'''),
dict(id='http-honours-unsampled',property='C01',pkg='.',
 edits=[('handlers.go','''		handle.ServeHTTP(writer, req)
	}
}
''','''		// spans of requests that are not sampled are of no interest
		if req.Method == "POST" && req.Header.Get("X-B3-Sampled") == "0" {
			writer.WriteHeader(http.StatusAccepted)
			return
		}

		handle.ServeHTTP(writer, req)
	}
}
''')],
 needs='a post with the header X-B3-Sampled: 0, as sent by clients that trace themselves',
 breaks='accepted spans are lost',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	w := httptest.NewRecorder()
	req := httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1"}]`))
	req.Header.Set("X-B3-Sampled", "0")
	handleGzipRequestBody(router).ServeHTTP(w, req)
	if w.Code == 202 && len(spans) != 1 {
		t.Fatal("lost")
	}
}
'''),
dict(id='http-counts-user-agents',property='C32',pkg='.',
 edits=[('handlers.go','''		// decode body on the fly''','''		metrics.GetOrRegisterMeter("requests[agent:"+req.UserAgent()+"]", nil).Mark(1)

		// decode body on the fly''')],
 needs='clients with many different user agents',
 breaks='memory grows with every user agent',
 demo=HTTP.replace('import (','import (\n\t"runtime"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	handler := handleGzipRequestBody(router)
	run := func(n int) uint64 {
		for i := 0; i < 10000; i++ {
			req := httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[]`))
			req.Header.Set("User-Agent", fmt.Sprint(n, "/", i))
			handler.ServeHTTP(httptest.NewRecorder(), req)
		}
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(1)
	run(2)
	if after := run(3); after > before+4<<20 {
		t.Fatal(before, after)
	}
}
'''),
dict(id='forward-skips-nameless',property='C26',pkg='.',
 edits=[('main.go','''converted.Id == 0 || converted.Trace == 0 {''','''converted.Id == 0 || converted.Trace == 0 || converted.Name == "" && converted.Service == "" {''')],
 needs='a span without name and service',
 breaks='it is passed to none of the outputs',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace), make(chan proxy.Trace, 1)
	go forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) { return span, nil })
	source <- proxy.Trace{{Id: 1, Trace: 1, Parent: 1}}
	if len(<-target) != 1 {
		t.Fatal("lost")
	}
}
'''),
dict(id='collector-blacklist-daily',property='C19',pkg='.',
 edits=[('correct.go','''	for {
		select {
		case span, ok := <-inputCh:
			// stream was closed, stop now''','''	blacklistSince := time.Now()

	for {
		select {
		case span, ok := <-inputCh:
			// stream was closed, stop now'''),('correct.go','''		case <-ticker.C:
			finishTraces(''','''		case <-ticker.C:
			// nobody remembers these traces any more
			if time.Since(blacklistSince) > 24*time.Hour {
				blacklistedTraces = map[Id]none{}
				blacklistSince = time.Now()
			}

			finishTraces(''')],
 needs='a process that cuts off a trace shortly before it has run for a day, and spans of the trace shortly after',
 breaks='spans of a trace that was cut off are emitted',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		time.Sleep(24*time.Hour - 5*time.Second)
		for i := 1; i < 9000; i++ {
			in <- seedSpan(1, proxy.Id(i), 1)
		}
		time.Sleep(10 * time.Second)
		in <- seedSpan(1, 1, 1)
		time.Sleep(10 * time.Second)
		if n := len(got()); n != 0 {
			t.Fatal(n)
		}
	})
}
'''),
dict(id='buffer-forgets-after-hour',property='C25',pkg='.',
 edits=[('buffer.go','''	spans    []proxy.Span
}
''','''	spans    []proxy.Span
	received []time.Time
}
'''),('buffer.go','''	return &SpansBuffer{spans: spans}
''','''	return &SpansBuffer{spans: spans, received: make([]time.Time, capacity)}
'''),('buffer.go','''			buffer.spans[buffer.position] = span
''','''			buffer.spans[buffer.position] = span
			buffer.received[buffer.position] = time.Now()
'''),('buffer.go','''		if span.Id != 0 {
''','''		if span.Id != 0 && time.Since(buffer.received[(buffer.position+offset)%capacity]) < time.Hour {
'''),('buffer.go','''	"sync"
''','''	"sync"
	"time"
''')],
 needs='more than an hour between receipt and listing',
 breaks='recent spans are missing in the list',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		buffer := NewSpansBuffer(10)
		ch := make(chan proxy.Trace)
		go buffer.ReadFrom(ch)
		ch <- proxy.Trace{seedSpan(1, 1, 1)}
		time.Sleep(100 * time.Minute)
		if len(buffer.ToSlice()) != 1 {
			t.Error("missing")
		}
		close(ch)
	})
}
'''),
dict(id='jaeger-linear-processes',property='C06',pkg='codec',
 edits=[('codec/jaeger.go','''	proxySpan.Service = procs[span.ProcessId].ServiceName
''','''	for id, proc := range procs {
		if strings.EqualFold(id, span.ProcessId) && (id == span.ProcessId || procs[span.ProcessId].ServiceName == "") {
			proxySpan.Service = proc.ServiceName
		}
	}
''')],
 needs='tens of thousands of processes and spans',
 breaks='it takes minutes to decode them',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		var procs []string
		for i := 0; i < 40000; i++ {
			procs = append(procs, `"p`+strings.Repeat("x", i%7)+time.Duration(i).String()+`":{}`)
		}
		_, _ = ParseJaeger(strings.NewReader(`{"data": [{"processes": {` + strings.Join(procs, ",") + `}, "spans": [{}` + strings.Repeat(`,{}`, 100000) + `]}]}`))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still not done")
	}
}
'''),
dict(id='sender-idle-flush',property='C11',pkg='balance',
 edits=[('balance/sender.go','''	for span := range spans {
		s.sendSpan(span)
	}
''','''	for {
		select {
		case span, ok := <-spans:
			if !ok {
				return
			}

			s.sendSpan(span)

		case <-time.After(15 * time.Minute):
			// nobody needs us any more
			s.producer.AsyncClose()
			return
		}
	}
'''),('balance/sender.go','''	"github.com/rcrowley/go-metrics"
''','''	"github.com/rcrowley/go-metrics"
	"time"
''')],
 needs='a quarter of an hour without spans',
 breaks='later spans are not taken any more',
 demo=VT.replace('package zipkinproxy','package balance').replace('	"github.com/rcrowley/go-metrics"\n	"github.com/sirupsen/logrus"\n','	"github.com/Shopify/sarama"\n').split('const seedBase')[0].replace('var _ metrics.Meter','')+'''
type seedProducer struct {
	sarama.AsyncProducer
	in chan *sarama.ProducerMessage
}

func (p seedProducer) Input() chan<- *sarama.ProducerMessage { return p.in }
func (p seedProducer) AsyncClose()                          {}

func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		p := seedProducer{in: make(chan *sarama.ProducerMessage, 10)}
		spans := make(chan proxy.Span)
		go (&Sender{producer: p, topic: "t"}).Send(spans)
		time.Sleep(time.Hour)
		select {
		case spans <- proxy.Span{Id: 1}:
		case <-time.After(time.Minute):
			t.Error("not taken")
		}
		close(spans)
	})
}
'''),
]
