KAFKA_HEAD='''
package balance

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

var _ = bytes.NewReader
var _ = context.Background
var _ = errors.New
var _ = fmt.Sprint
var _ = strings.Repeat
var _ = time.Second
var _ = codec.BinaryEncode
var _ sarama.Message

func seedSpan(id int, name string) proxy.Span {
	return proxy.NewSpan(name, proxy.Id(id), proxy.Id(id), proxy.Id(id))
}

func seedKeyValue(t *testing.T, m *sarama.ProducerMessage) (string, string) {
	key, err := m.Key.Encode()
	if err != nil {
		t.Fatal(err)
	}
	value, err := m.Value.Encode()
	if err != nil {
		t.Fatal(err)
	}
	return string(key), string(value)
}

type seedSession struct {
	sarama.ConsumerGroupSession
	mark func(*sarama.ConsumerMessage)
}

func (s *seedSession) Context() context.Context                             { return context.Background() }
func (s *seedSession) MarkMessage(m *sarama.ConsumerMessage, meta string)   { s.mark(m) }
func (s *seedSession) Claims() map[string][]int32                           { return nil }
func (s *seedSession) GenerationID() int32                                  { return 1 }
func (s *seedSession) MemberID() string                                     { return "m" }
func (s *seedSession) MarkOffset(topic string, p int32, o int64, md string) {}

type seedClaim struct {
	sarama.ConsumerGroupClaim
	messages chan *sarama.ConsumerMessage
}

func (c *seedClaim) Topic() string                              { return "t" }
func (c *seedClaim) Partition() int32                           { return 0 }
func (c *seedClaim) Messages() <-chan *sarama.ConsumerMessage   { return c.messages }

type seedGroup struct {
	sarama.ConsumerGroup
	consume func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error
}

func (g *seedGroup) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	return g.consume(ctx, topics, handler)
}
func (g *seedGroup) Errors() <-chan error { return nil }
func (g *seedGroup) Close() error         { return nil }

func seedMessage(id int) *sarama.ConsumerMessage {
	var b bytes.Buffer
	_ = codec.BinaryEncode(seedSpan(id, "n"), &b)
	return &sarama.ConsumerMessage{Topic: "t", Offset: int64(id), Value: b.Bytes()}
}
'''
ROOT='''
package zipkinproxy

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
)

var _ = fmt.Sprint
var _ sync.Mutex
var _ = time.Second
var _ proxy.Span
var _ metrics.Meter
'''
MAIN='''
package zipkinproxy

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/flachnetz/dd-zipkin-proxy/seedkafka"
)

var _ = fmt.Sprint
var _ sync.Mutex
var _ = bytes.NewReader
var _ = seedkafka.Start

// seedRun runs the whole service.
func seedRun(t *testing.T, converter SpanConverter, extra ...string) (post func(body string)) {
	agent := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		io.Copy(io.Discard, req.Body)
	}))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	port := agent.Listener.Addr().(*net.TCPAddr).Port
	os.Args = append([]string{"proxy", "--http-address", addr, "--log-file", "/dev/null", "--trace-host", "127.0.0.1", "--trace-port", strconv.Itoa(port)}, extra...)
	go Main(converter)
	for i := 0; ; i++ {
		resp, err := http.Get("http://" + addr + "/admin/ping")
		if err == nil {
			resp.Body.Close()
			break
		}
		if i > 1000 {
			t.Fatal(err)
		}
		time.Sleep(20 * time.Millisecond)
	}
	return func(body string) {
		resp, err := http.Post("http://"+addr+"/api/v2/spans", "application/json", strings.NewReader(body))
		if err != nil {
			t.Error(err)
			return
		}
		resp.Body.Close()
		if resp.StatusCode != 202 {
			t.Errorf("status %d", resp.StatusCode)
		}
	}
}
'''
SINK='''
package datadog

import (
	"net/http"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type seedTransport chan [][]*tracer.Span

func (t seedTransport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	t <- traces
	return nil, nil
}
func (t seedTransport) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (t seedTransport) SetHeader(key, value string) {}

func seedSend(t *testing.T, span proxy.Span) *tracer.Span {
	transport := make(seedTransport, 8)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- proxy.Trace{span}
	select {
	case sent := <-transport:
		return sent[0][0]
	case <-time.After(10 * time.Second):
		t.Fatal("nothing sent")
	}
	return nil
}
'''
KAFKALIB=['/verif/harness/lib/kafka/%s.go'%f for f in ('broker','group','wire')]
BUGS=[
# ------------------------------------------------------------------ kafka
dict(id='encoder-reuses-slices',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''	buf    []byte
	slices [][]byte
''','''	buf    []byte
	slices [][]byte
	all    [][]byte
'''),('balance/encoder.go','''		enc.slices = make([][]byte, 1024)
''','''		if enc.all == nil {
			enc.all = make([][]byte, 1024)
		}

		enc.slices = enc.all
''')],
 needs='more than 512 messages made by one encoder while an earlier message is still waiting',
 breaks='key and value of a waiting message are replaced by those of a later message',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	var messages []*sarama.ProducerMessage
	var want [][2]string
	for i := 1; i < 5000; i++ {
		m := makeProducerMessage(seedSpan(i, "n"), "t")
		k, v := seedKeyValue(t, m)
		messages = append(messages, m)
		want = append(want, [2]string{k, v})
	}
	for i, m := range messages {
		if k, v := seedKeyValue(t, m); k != want[i][0] || v != want[i][1] {
			t.Fatalf("message %d was changed", i)
		}
	}
}
'''),
dict(id='encoder-keeps-large-buffer',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''	if &buf.Bytes()[0] == &enc.buf[0] {
		enc.buf = enc.buf[buf.Len():]
	}
''','''	if &buf.Bytes()[0] == &enc.buf[0] {
		enc.buf = enc.buf[buf.Len():]
	} else if rest := buf.Bytes()[:cap(buf.Bytes())]; len(rest)-buf.Len() > len(enc.buf) {
		// the new buffer is larger than what we have left
		enc.buf = rest
	}
''')],
 needs='a large span, encoded into a new buffer with more space left than the remaining memory of the encoder, then further spans',
 breaks='the following messages are written over the large one while it is waiting to be sent',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	var messages []*sarama.ProducerMessage
	var want [][2]string
	for i := 1; i < 4000; i++ {
		m := makeProducerMessage(seedSpan(i, strings.Repeat("x", i%7*i%9000)), "t")
		k, v := seedKeyValue(t, m)
		messages = append(messages, m)
		want = append(want, [2]string{k, v})
	}
	for i, m := range messages {
		if k, v := seedKeyValue(t, m); k != want[i][0] || v != want[i][1] {
			t.Fatalf("message %d was changed", i)
		}
	}
}
'''),
dict(id='encoder-hex-key',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''	"encoding/binary"
''',''),('balance/encoder.go','''	binary.LittleEndian.PutUint64(*keySlice, span.Trace.Uint64())
''','''	copy(*keySlice, span.Trace.String())
''')],
 needs='two traces whose ids have the same upper half',
 breaks='different traces get the same key, all traces with small ids end up in one partition',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	keys := map[string]int{}
	for i := 1; i < 100; i++ {
		k, _ := seedKeyValue(t, makeProducerMessage(seedSpan(i, "n"), "t"))
		if keys[k] != 0 {
			t.Fatalf("traces %d and %d share a key", i, keys[k])
		}
		keys[k] = i
	}
}
'''),
dict(id='sender-drops-when-busy',property='C11',pkg='balance',
 edits=[('balance/sender.go','''	s.producer.Input() <- makeProducerMessage(span, s.topic)
''','''	select {
	case s.producer.Input() <- makeProducerMessage(span, s.topic):
	default:
		log.Warnf("Kafka is too slow, dropping a span of trace %s", span.Trace)
	}
''')],
 needs='spans arriving faster than the producer takes them',
 breaks='spans are lost although the broker works',
 demo=KAFKA_HEAD+'''
type seedProducer struct {
	sarama.AsyncProducer
	input chan *sarama.ProducerMessage
}

func (p *seedProducer) Input() chan<- *sarama.ProducerMessage { return p.input }

func TestSeedDemo(t *testing.T) {
	producer := &seedProducer{input: make(chan *sarama.ProducerMessage, 4)}
	sender := &Sender{producer: producer, topic: "t"}
	spans := make(chan proxy.Span)
	go sender.Send(spans)
	const n = 200
	done := make(chan int)
	go func() {
		count := 0
		for {
			select {
			case <-producer.input:
				count++
				time.Sleep(time.Millisecond)
			case <-time.After(3 * time.Second):
				done <- count
				return
			}
		}
	}()
	for i := 1; i <= n; i++ {
		spans <- seedSpan(i, "n")
	}
	if got := <-done; got != n {
		t.Fatalf("%d of %d spans", got, n)
	}
}
'''),
dict(id='consumer-marks-first',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''			log.Warnf("Cannot deserialize kafka message: %s", err)
			continue
		}

		consumer.callback(proxySpan)

		session.MarkMessage(message, "")
''','''			log.Warnf("Cannot deserialize kafka message: %s", err)
			session.MarkMessage(message, "")
			continue
		}

		session.MarkMessage(message, "")

		consumer.callback(proxySpan)
''')],
 needs='the process ending, or the session being committed, while the callback is blocked',
 breaks='a message is acknowledged before its span was handed over, it is lost if the process ends then',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	delivered := map[proxy.Id]bool{}
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { delivered[span.Id] = true }}
	session := &seedSession{mark: func(m *sarama.ConsumerMessage) {
		for i := int64(1); i <= m.Offset; i++ {
			if !delivered[proxy.Id(i)] {
				t.Errorf("message %d acknowledged before it was delivered", i)
			}
		}
	}}
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 10)}
	for i := 1; i < 6; i++ {
		claim.messages <- seedMessage(i)
	}
	close(claim.messages)
	if err := handler.ConsumeClaim(session, claim); err != nil {
		t.Fatal(err)
	}
	if len(delivered) != 5 {
		t.Fatal(delivered)
	}
}
'''),
dict(id='consumer-close-does-not-wait',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		for {
			select {
			case <-ctx.Done():
				close(finishedCh)
				return

			default:
''','''		defer close(finishedCh)
		for {
			select {
			case <-ctx.Done():
				return

			default:
'''),('balance/receiver.go','''		cancel()
		<-finishedCh
''','''		cancel()

		select {
		case <-finishedCh:
		case <-time.After(time.Second):
			log.Warn("The consumer is still busy")
		}
'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
)''','''	"github.com/sirupsen/logrus"
	"time"
)''')],
 needs='close while a callback is blocked for longer than a second, with further messages waiting',
 breaks='the callback is still called after close has returned',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	entered := make(chan bool, 100)
	release := make(chan bool)
	group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
		claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 10)}
		for i := 1; i < 6; i++ {
			claim.messages <- seedMessage(i)
		}
		close(claim.messages)
		return handler.ConsumeClaim(&seedSession{mark: func(*sarama.ConsumerMessage) {}}, claim)
	}}
	stop := Consume(group, "t", func(proxy.Span) {
		entered <- true
		<-release
	})
	<-entered
	closed := make(chan bool)
	go func() {
		stop()
		close(closed)
	}()
	select {
	case <-closed:
		close(release)
		time.Sleep(200 * time.Millisecond)
		if len(entered) > 0 {
			t.Fatal("close has returned but the callback was called again")
		}
		t.Fatal("close has returned but the callback is still running")
	case <-time.After(4 * time.Second):
	}
	close(release)
	<-closed
}
'''),
dict(id='consumer-gives-up',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''					log.Warnf("Error during consumer group session: %s", err)
''','''					log.Warnf("Error during consumer group session: %s", err)

					if err == sarama.ErrClosedClient || err == sarama.ErrOutOfBrokers {
						// nobody left to talk to
						<-ctx.Done()
					}
''')],
 needs='a session that fails because no broker can be reached for a while',
 breaks='no session is started any more although the brokers are back',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	sessions := make(chan bool, 1000)
	group := &seedGroup{consume: func(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
		select {
		case sessions <- true:
		default:
		}
		time.Sleep(time.Millisecond)
		return sarama.ErrOutOfBrokers
	}}
	stop := Consume(group, "t", func(proxy.Span) {})
	defer stop()
	for i := 0; i < 5; i++ {
		select {
		case <-sessions:
		case <-time.After(10 * time.Second):
			t.Fatalf("no session after %d failed", i)
		}
	}
}
'''),
dict(id='kafka-callback-drops',property='C29',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''		callback := func(span proxy.Span) { kafkaInputSpans <- span }
''','''		callback := func(span proxy.Span) {
			// do not let the session time out
			select {
			case kafkaInputSpans <- span:
			case <-time.After(50 * time.Millisecond):
				log.Warnf("Processing of spans is too slow, dropping a span of trace %s", span.Trace)
			}
		}
''')],
 needs='the processing of spans being blocked for a moment while more spans come in than the channels can hold',
 breaks='spans that were published and consumed do not reach the agent',
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
	cluster, err := seedkafka.Start(1, nil)
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	seen := map[proxy.Id]bool{}
	gate := make(chan bool)
	first := make(chan bool, 100000)
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		first <- true
		<-gate
		mu.Lock()
		seen[span.Id] = true
		mu.Unlock()
		return span, nil
	}, "--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0])
	for i := 0; !cluster.Stable("zipkin-proxy", "zipkin-spans", 1); i++ {
		if i > 600 {
			t.Fatal("group is not stable")
		}
		time.Sleep(100 * time.Millisecond)
	}
	send := func(from, to int) {
		var items []string
		for i := from; i < to; i++ {
			items = append(items, fmt.Sprintf(`{"traceId": "%x", "id": "%x", "name": "n", "timestamp": %d, "duration": 1000}`, i, i, time.Now().UnixNano()/1000))
		}
		post("[" + strings.Join(items, ",") + "]")
	}
	send(1, 401)
	<-first // from now on nothing is taken out of the pipeline any more
	go send(401, 3001)
	time.Sleep(8 * time.Second)
	close(gate)
	for deadline := time.Now().Add(60 * time.Second); ; time.Sleep(100 * time.Millisecond) {
		mu.Lock()
		n := len(seen)
		mu.Unlock()
		if n == 3000 {
			return
		}
		if time.Now().After(deadline) {
			t.Fatalf("%d of 3000 spans", n)
		}
	}
}
'''),
dict(id='kafka-even-spread',property='C29',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''	opts.Kafka.Inputs.KafkaConfig.Producer.MaxMessageBytes = 768 * 1024
''','''	opts.Kafka.Inputs.KafkaConfig.Producer.MaxMessageBytes = 768 * 1024
	opts.Kafka.Inputs.KafkaConfig.Producer.Partitioner = sarama.NewRoundRobinPartitioner
''')],
 needs='more than one proxy, and a trace of more than one span',
 breaks='the spans of a trace go to different partitions, and thus to different proxies',
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
	cluster, err := seedkafka.Start(1, nil)
	if err != nil {
		t.Fatal(err)
	}
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		return span, nil
	}, "--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0])
	var items []string
	for i := 0; i < 20; i++ {
		items = append(items, fmt.Sprintf(`{"traceId": "77", "id": "%x", "parentId": "77", "name": "n", "timestamp": %d, "duration": 1000}`, 0x77+i, time.Now().UnixNano()/1000))
	}
	post("[" + strings.Join(items, ",") + "]")
	for i := 0; len(cluster.Records(0)) < 20; i++ {
		if i > 600 {
			t.Fatal("spans were not published")
		}
		time.Sleep(100 * time.Millisecond)
	}
	for _, record := range cluster.Records(0) {
		if record.Partition != cluster.Records(0)[0].Partition {
			t.Fatalf("one trace in partitions %d and %d", record.Partition, cluster.Records(0)[0].Partition)
		}
	}
}
'''),
# ------------------------------------------------------------------ service
dict(id='main-two-collectors',property='C28',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''		// directly process all input spans
		go ErrorCorrectSpans(httpInputSpans, processedSpans)
''','''		// directly process all input spans, decoding is faster than a single collector
		for i := 0; i < 2; i++ {
			go ErrorCorrectSpans(httpInputSpans, processedSpans)
		}
''')],
 needs='a trace of several spans (only without Kafka)',
 breaks='the spans of a trace are split over two collectors, client and server spans are not merged and parts without a root are dropped',
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[proxy.Id]int{}
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		mu.Lock()
		seen[span.Id]++
		mu.Unlock()
		return span, nil
	})
	// a chain, every second span comes first
	for _, from := range []int{0, 1} {
		var items []string
		for i := from; i < 100; i += 2 {
			parent := 0x1000
			if i > 0 {
				parent += i - 1
			}
			items = append(items, fmt.Sprintf(`{"traceId": "1000", "id": "%x", "parentId": "%x", "name": "n", "timestamp": %d, "duration": 1000}`, 0x1000+i, parent, time.Now().UnixNano()/1000))
		}
		post("[" + strings.Join(items, ",") + "]")
	}
	for i := 0; i < 300; i++ {
		time.Sleep(100 * time.Millisecond)
		mu.Lock()
		n := len(seen)
		mu.Unlock()
		if n == 100 {
			return
		}
	}
	t.Fatalf("%d of 100 spans", len(seen))
}
'''),
# ------------------------------------------------------------------ buffer
dict(id='buffer-cached-list',property='C25',pkg='.',
 edits=[('buffer.go','''	spans    []proxy.Span
}''','''	spans    []proxy.Span

	cached         []proxy.Span
	cachedPosition uint
}'''),('buffer.go','''	// the oldest span is the one that will be overwritten next
''','''	// nothing new since the last time
	if buffer.cached != nil && buffer.cachedPosition == buffer.position {
		return buffer.cached
	}

	// the oldest span is the one that will be overwritten next
'''),('buffer.go','''	return result
}''','''	buffer.cached, buffer.cachedPosition = result, buffer.position

	return result
}''')],
 needs='exactly as many spans as the list can hold (or a multiple) between two reads',
 breaks='the outdated list is returned again',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(4)
	traces := make(chan proxy.Trace)
	done := make(chan bool)
	go func() {
		buffer.ReadFrom(traces)
		close(done)
	}()
	next := proxy.Id(1)
	for round := 0; round < 30; round++ {
		var trace proxy.Trace
		for i := 0; i < round%10; i++ {
			trace = append(trace, proxy.NewSpan("n", 1, next, 1))
			next++
		}
		traces <- trace
		traces <- nil
		for k, span := range buffer.ToSlice() {
			if n := proxy.Id(len(buffer.ToSlice())); span.Id != next-n+proxy.Id(k) {
				t.Fatalf("round %d: %v", round, buffer.ToSlice())
			}
		}
	}
	close(traces)
	<-done
}
'''),
# ------------------------------------------------------------------ decoders
dict(id='jaeger-stops-after-data',property='C07',pkg='codec',
 edits=[('codec/jaeger.go','''	if err := json.NewDecoder(input).Decode(&decoded); err != nil {
		return nil, errors.WithMessage(err, "parse spans for jaeger")
	}
''','''	decoder := json.NewDecoder(input)
	for depth := 0; ; {
		token, err := decoder.Token()
		if err != nil {
			return nil, errors.WithMessage(err, "parse spans for jaeger")
		}

		if delim, ok := token.(json.Delim); ok {
			if delim == '{' || delim == '[' {
				depth++
			} else if depth--; depth == 0 {
				break
			}
		}

		// the rest of the document is of no interest
		if key, ok := token.(string); ok && depth == 1 && strings.EqualFold(key, "data") {
			if err := decoder.Decode(&decoded.Data); err != nil {
				return nil, errors.WithMessage(err, "parse spans for jaeger")
			}
			break
		}

		if depth == 0 {
			return nil, errors.New("parse spans for jaeger: object expected")
		}
	}
''')],
 needs='a document that breaks off behind its data',
 breaks='the spans of an incomplete document are accepted',
 demo='''
package codec

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	doc := `{"total": 0, "data": [{"spans": [{"traceID": "1", "spanID": "1", "operationName": "n", "processID": "p"}], "processes": {"p": {"serviceName": "s"}}}], "errors": null}`
	if spans, err := ParseJaeger(strings.NewReader(doc)); err != nil || len(spans) != 1 {
		t.Fatal(spans, err)
	}
	for n := range doc {
		if spans, err := ParseJaeger(strings.NewReader(doc[:n])); err == nil {
			t.Fatalf("%d spans of %s", len(spans), doc[:n])
		}
	}
}
'''),
# ------------------------------------------------------------------ sink
dict(id='sink-rounds-durations',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				duration := span.Duration
				if duration''','''				duration := span.Duration / time.Microsecond * time.Microsecond
				if duration''')],
 needs='a duration that is no multiple of a microsecond',
 breaks='the duration is cut',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("name", 1, 1, 1)
	span.Duration = 12345
	if got := seedSend(t, span); got.Duration != 12345 {
		t.Fatal(got.Duration)
	}
}
'''),
dict(id='sink-removes-false-errors',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''						isError = 1
					}
''','''						isError = 1
					} else {
						// any error tag makes datadog show the span as failed
						delete(span.Tags, "error")
					}
''')],
 needs='a span with an error tag of false or 0',
 breaks='the tag is missing at the agent, and at some point in the recent-span list as well, which shares the tags',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("name", 1, 1, 1)
	span.AddTag("error", "false")
	if got := seedSend(t, span); got.Meta["error"] != "false" || got.Error != 0 {
		t.Fatal(got)
	}
}
'''),
# ------------------------------------------------------------------ forwarder, http
dict(id='forward-reuses-slice',property='C26',pkg='.',
 edits=[('main.go','''	processTrace := func(trace proxy.Trace) {
		// we re-use the same slice for the target and just overwrite
		// the spans in there.
		var result = trace[:0]
''','''	var buffer proxy.Trace

	processTrace := func(trace proxy.Trace) {
		// we re-use the same slice for all traces
		var result = buffer[:0]
'''),('main.go','''		for _, target := range targets {
			target <- result
		}
''','''		for _, target := range targets {
			target <- result
		}

		buffer = result
''')],
 needs='an output that is still busy with a trace, or has it waiting in its channel, when the next trace is converted',
 breaks='the waiting trace is overwritten, its spans are lost and others are passed on twice',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source := make(chan proxy.Trace)
	target := make(chan proxy.Trace, 10)
	go forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) { return span, nil })
	for i := proxy.Id(1); i <= 3; i++ {
		source <- proxy.Trace{proxy.NewSpan("n", i, i, i)}
	}
	for i := proxy.Id(1); i <= 3; i++ {
		if trace := <-target; len(trace) != 1 || trace[0].Id != i {
			t.Fatal(i, trace)
		}
	}
}
'''),
dict(id='http-counts-damaged',property='C30',pkg='.',
 edits=[('handlers.go','''	// the parser stops at the end of the document. The body''','''	spanCount := int64(len(parsedSpans))
	metrics.GetOrRegisterMeter("spans.parsed[type:json]", nil).Mark(spanCount)

	// the parser stops at the end of the document. The body'''),('handlers.go','''		spansChannel <- span
	}

	spanCount := int64(len(parsedSpans))
	metrics.GetOrRegisterMeter("spans.parsed[type:json]", nil).Mark(spanCount)

''','''		spansChannel <- span
	}

''')],
 needs='a body with a complete document and a wrong checksum behind it',
 breaks='the metrics page counts spans of a request that was rejected',
 demo='''
package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
	"github.com/rcrowley/go-metrics"
)

func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	handleSpans(router, make(chan proxy.Span, 100))
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte(`[{"traceId": "1", "id": "1"}]` + strings.Repeat(" ", 100000)))
	w.Close()
	body := b.Bytes()
	body[len(body)-6] ^= 0xff
	meter := metrics.GetOrRegisterMeter("spans.parsed[type:json]", nil)
	before := meter.Count()
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("POST", "/api/v2/spans", bytes.NewReader(body))
	req.Header.Set("Content-Encoding", "gzip")
	handleGzipRequestBody(router).ServeHTTP(rec, req)
	if rec.Code != http.StatusBadRequest {
		t.Fatal(rec.Code)
	}
	time.Sleep(10 * time.Millisecond)
	if after := meter.Count(); after != before {
		t.Fatalf("%d spans counted", after-before)
	}
}
'''),
# ------------------------------------------------------------------ collector
dict(id='collector-idle-early-return',property='C21',pkg='.',
 edits=[('correct.go','''	var spanCount int

	// count the number of spans that are currently in the system.
''','''	var spanCount int

	// nothing to do
	if len(traces) == 0 {
		return
	}

	// count the number of spans that are currently in the system.
''')],
 needs='no traces arriving after the last one has left',
 breaks='the gauge for held spans keeps its last value although nothing is held',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	in, out := make(chan proxy.Span), make(chan proxy.Trace, 10)
	go ErrorCorrectSpans(in, out)
	in <- proxy.NewSpan("n", 1, 1, 1)
	select {
	case <-out:
	case <-time.After(30 * time.Second):
		t.Fatal("no trace")
	}
	time.Sleep(time.Second)
	if n := metrics.GetOrRegisterGauge("traces.partial.span.count", nil).Value(); n != 0 {
		t.Fatalf("%d spans", n)
	}
}
'''),
dict(id='collector-half-client-timing',property='C16',pkg='.',
 edits=[('correct.go','''		if newSpan.Timings.CS.IsValid() {
			spanToUpdate.Timings.CS = newSpan.Timings.CS
		}

		if newSpan.Timings.CR.IsValid() {
			spanToUpdate.Timings.CR = newSpan.Timings.CR
		}
''','''		if newSpan.Timings.CS.IsValid() && newSpan.Timings.CR.IsValid() {
			spanToUpdate.Timings.CS = newSpan.Timings.CS
			spanToUpdate.Timings.CR = newSpan.Timings.CR
		}
''')],
 needs='a client span that is reported in two parts, one with each timing',
 breaks='the second timing is lost',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	a := proxy.NewSpan("client", 1, 2, 1)
	a.Timings.CS = 1e18
	b := proxy.NewSpan("client", 1, 2, 1)
	b.Timings.CR = 2e18
	mergeSpansInPlace(&a, b)
	if a.Timings.CS != 1e18 || a.Timings.CR != 2e18 {
		t.Fatal(a)
	}
}
'''),
dict(id='collector-ignores-small-skew',property='C17',pkg='.',
 edits=[('correct.go','''		// update offset for child spans
		offset += screw
''','''		// update offset for child spans, everything below is measurement noise
		if screw < -time.Millisecond || screw > time.Millisecond {
			offset += screw
		}
''')],
 needs='a clock difference of less than a millisecond between client and server',
 breaks='the children are not moved by the difference',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	base := proxy.Timestamp(1600000000_000_000_000)
	root := proxy.NewSpan("root", 1, 1, 1)
	root.Timestamp = base
	root.Timings.CS, root.Timings.CR = base, base+10_000_000
	root.Timings.SR, root.Timings.SS = base+1_000_000, base+8_000_000
	child := proxy.NewSpan("child", 1, 2, 1)
	child.Timestamp = base + 2_000_000
	tree := newTree(1)
	tree.AddSpan(root)
	tree.AddSpan(child)
	correctTreeTimings(tree, tree.Roots()[0], nil, 0)
	if got := tree.GetSpan(2).Timestamp - base; got != 2_500_000 {
		t.Fatal(got)
	}
}
'''),
]
