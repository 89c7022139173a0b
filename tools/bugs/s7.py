import importlib.util, os
def _load(n):
    d=os.path.dirname(os.path.abspath(__file__))
    if not os.path.exists(os.path.join(d,n+'.py')): d='/verif/tools/bugs'
    s=importlib.util.spec_from_file_location(n,os.path.join(d,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5=_load('s3'),_load('s4'),_load('s5')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT
HTTP=ROOT.replace('import (','import (\n\t"net/http/httptest"\n\t"strings"\n\n\t"github.com/julienschmidt/httprouter"\n')
VSINK='//go:build go1.25\n\n'+SINK.lstrip('\n').replace('\t"testing"\n','\t"errors"\n\t"testing"\n\t"testing/synctest"\n')+'''
var _ = errors.New
var _ = synctest.Test
'''
BUGS=[
# ------------------------------------------------------------------ http
dict(id='http-busy',property='C01',pkg='.',
 edits=[('handlers.go','''	return func(writer http.ResponseWriter, req *http.Request) {
		// decode body on the fly''','''	// documents are held in memory, so limit the number of those being processed
	slots := make(chan struct{}, 128)

	return func(writer http.ResponseWriter, req *http.Request) {
		select {
		case slots <- struct{}{}:
			defer func() { <-slots }()

		default:
			http.Error(writer, "too many requests", http.StatusBadRequest)
			return
		}

		// decode body on the fly''')],
 needs='more than 128 requests at the same time',
 breaks='well-formed documents are rejected',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span)
	handleSpans(router, spans)
	handler := handleGzipRequestBody(router)
	codes := make(chan int, 1000)
	for i := 1; i <= 300; i++ {
		go func() {
			w := httptest.NewRecorder()
			handler.ServeHTTP(w, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1"}]`)))
			codes <- w.Code
		}()
	}
	time.Sleep(2 * time.Second)
	go func() {
		for range spans {
		}
	}()
	for i := 1; i <= 300; i++ {
		if code := <-codes; code != 202 {
			t.Fatal(code)
		}
	}
}
'''),
dict(id='http-stops-for-gone-clients',property='C01',pkg='.',
 edits=[('handlers.go','''	for _, span := range parsedSpans {
		spansChannel <- span
	}
''','''	for idx, span := range parsedSpans {
		select {
		case spansChannel <- span:
		case <-done:
			return errors.Errorf("client is gone, %d spans left", len(parsedSpans)-idx)
		}
	}
'''),('handlers.go','func parseSpansWithJSON(spansChannel chan<- proxy.Span, body','func parseSpansWithJSON(done <-chan struct{}, spansChannel chan<- proxy.Span, body'),
 ('handlers.go','parseSpansWithJSON(spans, req.Body, codec.ParseJsonV1)','parseSpansWithJSON(req.Context().Done(), spans, req.Body, codec.ParseJsonV1)'),
 ('handlers.go','parseSpansWithJSON(spans, req.Body, codec.ParseJsonV2)','parseSpansWithJSON(req.Context().Done(), spans, req.Body, codec.ParseJsonV2)'),
 ('handlers.go','parseSpansWithJSON(spans, req.Body, codec.ParseJaeger)','parseSpansWithJSON(req.Context().Done(), spans, req.Body, codec.ParseJaeger)')],
 needs='a client that closes its connection while its spans are waiting for the pipeline',
 breaks='some spans of the document are processed, the others are dropped',
 demo=ROOT.replace('import (','import (\n\t"net"\n\t"net/http/httptest"\n\n\t"github.com/julienschmidt/httprouter"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span)
	handleSpans(router, spans)
	server := httptest.NewServer(router)
	conn, err := net.Dial("tcp", server.Listener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	body := `[{"traceId": "1", "id": "1"}, {"traceId": "1", "id": "2"}, {"traceId": "1", "id": "3"}]`
	fmt.Fprintf(conn, "POST /api/v2/spans HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n%s", len(body), body)
	<-spans
	conn.Close()
	time.Sleep(time.Second)
	for i := 2; i <= 3; i++ {
		select {
		case <-spans:
		case <-time.After(5 * time.Second):
			t.Fatal("only a part of the document was processed")
		}
	}
}
'''),
# ------------------------------------------------------------------ codecs
dict(id='v1-debug-flag',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''	BinaryAnnotations []binaryAnnotationV1 `json:"binaryAnnotations"`

	Name''','''	BinaryAnnotations []binaryAnnotationV1 `json:"binaryAnnotations"`

	Debug string `json:"debug"`

	Name'''),('codec/json-v1.go','''	proxySpan.AddTag(tagProtocolVersion, tagJsonV1)

	if span''','''	proxySpan.AddTag(tagProtocolVersion, tagJsonV1)

	if span.Debug == "true" {
		proxySpan.AddTag("sampling.priority", "1")
	}

	if span'''),('codec/json-v1.go','''		{
			JsonName: "name",
''','''		{
			JsonName: "debug",
			Offset:   hyperjson.OffsetOf(spanV1{}, "Debug"),
			Decoder:  anyValueDecoder,
		},
		{
			JsonName: "name",
'''),('codec/json-v1.go','''		span.Name = ""
''','''		span.Name = ""
		span.Debug = ""
''')],
 needs='a span with the debug flag',
 breaks='the span has a tag that it does not have in the document',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "debug": true}]`))
	if err != nil || len(spans[0].Tags) != 1 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-shared-spans',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	Kind string `json:"kind"`
''','''	Kind string `json:"kind"`

	Shared string `json:"shared"`
'''),('codec/json-v2.go','''	proxySpan.Tags = span.Tags
''','''	// the other half knows the parent of a shared span
	if span.Shared == "true" {
		proxySpan.Parent = 0
	}

	proxySpan.Tags = span.Tags
'''),('codec/json-v2.go','''		{
			JsonName: "localEndpoint",
''','''		{
			JsonName: "shared",
			Offset:   hyperjson.OffsetOf(spanV2{}, "Shared"),
			Decoder:  anyValueDecoder,
		},
		{
			JsonName: "localEndpoint",
''')],
 needs='a server span that is marked as shared and has a parent',
 breaks='the parent of the span is lost',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "2", "parentId": "1", "kind": "SERVER", "shared": true}]`))
	if err != nil || spans[0].Parent != 1 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-remote-service',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	Endpoint endpoint `json:"localEndpoint"`
''','''	Endpoint endpoint `json:"localEndpoint"`

	RemoteEndpoint endpoint `json:"remoteEndpoint"`
'''),('codec/json-v2.go','''		proxySpan.Service = span.Endpoint.ServiceName
	}
''','''		proxySpan.Service = span.Endpoint.ServiceName
	} else {
		proxySpan.Service = span.RemoteEndpoint.ServiceName
	}
'''),('codec/json-v2.go','''			Decoder:  endpointValueDecoder,
		},
	})
''','''			Decoder:  endpointValueDecoder,
		},
		{
			JsonName: "remoteEndpoint",
			Offset:   hyperjson.OffsetOf(spanV2{}, "RemoteEndpoint"),
			Decoder:  endpointValueDecoder,
		},
	})
''')],
 needs='a span with a remote endpoint that names a service and no local one',
 breaks='the span is reported for a service that did not report it',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "2", "kind": "CLIENT", "remoteEndpoint": {"serviceName": "db"}}]`))
	if err != nil || spans[0].Service != "" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='jaeger-parent-span-id',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	OperationName string `json:"operationName"`
''','''	ParentId interface{} `json:"parentSpanID"`

	OperationName string `json:"operationName"`
'''),('codec/jaeger.go','''	parentId := span.SpanId
''','''	parentId := span.SpanId

	// older versions name the parent directly
	if id, ok := span.ParentId.(string); ok {
		if parsed, err := proxy.ParseId([]byte(id)); err == nil && parsed != 0 {
			parentId = parsed
		}
	}
''')],
 needs='a span with a parentSpanID and without a CHILD_OF reference',
 breaks='the parent of the span is not the span itself',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "2", "parentSpanID": "1"}]}]}`))
	if err != nil || spans[0].Parent != 2 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='jaeger-binary-tags',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	Key   string      `json:"key"`
''','''	Key   string      `json:"key"`
	Type  string      `json:"type"`
'''),('codec/jaeger.go','''		key := tag.Key
''','''		// binary values are encoded as base64
		if tag.Type == "binary" {
			if decoded, err := base64.StdEncoding.DecodeString(value); err == nil {
				value = string(decoded)
			}
		}

		key := tag.Key
'''),('codec/jaeger.go','''	"encoding/json"
''','''	"encoding/base64"
	"encoding/json"
''')],
 needs='a string-valued tag of type binary',
 breaks='the value of the tag is not the one in the document',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "2", "tags": [{"key": "a", "type": "binary", "value": "YWJj"}]}]}]}`))
	if err != nil || spans[0].Tags["a"] != "YWJj" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='json-nested-objects-depth',property='C06',pkg='codec',
 edits=[('codec/hyperjson/parser_skip.go','''	case TypeObjectBegin:
		err = p.skipNested(p.skipObject)
''','''	case TypeObjectBegin:
		err = p.skipObject()
''')],
 needs='a document with some ten million nested objects in an unknown field',
 breaks='the process dies of a stack overflow',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	part := strings.Repeat(`{"a":`, 20000000)
	_, err := ParseJsonV2(io.MultiReader(strings.NewReader(`[{"x":`), strings.NewReader(part)))
	if err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='json-escape-without-digits',property='C06',pkg='codec',
 edits=[('codec/hyperjson/string.go','''		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\\\' && input[idx+2] == 'u' {''',
 '''		if utf16.IsSurrogate(r) && idx+3 < len(input) && input[idx+1] == '\\\\' && input[idx+2] == 'u' {''')],
 needs='a string that ends in an escaped surrogate followed by an incomplete escape sequence, at the end of the buffer',
 breaks='the decoder panics or decodes bytes behind the string',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 4; n++ {
		for pad := 7000; pad < 8300; pad++ {
			ParseJsonV2(strings.NewReader(`[{"name": "` + strings.Repeat("x", pad) + `\\ud83d\\u` + "12345"[:n] + `"`))
		}
	}
}
'''),
dict(id='binary-limits-tags',property='C09',pkg='codec',
 edits=[('codec/binary.go','''		for i := int64(0); i < blkSize; i++ {
''','''		if blkSize > 1<<16 {
			return nil, fmt.Errorf("too many tags: %d", blkSize)
		}

		for i := int64(0); i < blkSize; i++ {
''')],
 needs='a span with more than 65536 tags',
 breaks='the encoded span can not be decoded any more',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	for i := 0; i < 70000; i++ {
		span.AddTag(fmt.Sprint(i), "v")
	}
	var b bytes.Buffer
	_ = BinaryEncode(span, &b)
	if span, err := BinaryDecode(bytes.NewReader(b.Bytes())); err != nil || len(span.Tags) != 70000 {
		t.Fatal(err, len(span.Tags))
	}
}
'''),
dict(id='id-lookup-table',property='C27',pkg='codec',
 edits=[('proxy/id.go','''		switch {
		case '0' <= c && c <= '9':
			result = (result << 4) | Id(c-'0')

		case 'a' <= c && c <= 'f':
			result = (result << 4) | Id(c-'a') + 10

		case 'A' <= c && c <= 'F':
			result = (result << 4) | Id(c-'A') + 10

		default:
			return 0,''','''		// digits and letters differ in one bit only
		switch d := c & 0x1f; {
		case '0' <= c && c <= '9':
			result = (result << 4) | Id(c-'0')

		case c >= 'A' && 1 <= d && d <= 6:
			result = (result << 4) | Id(d) + 9

		default:
			return 0,''')],
 needs='an id with a byte above 127',
 breaks='the id is parsed to some value instead of being an error',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	if id, err := proxy.ParseId([]byte("12\\xa1")); err == nil {
		t.Fatal(id)
	}
}
'''),
# ------------------------------------------------------------------ cache
dict(id='cache-recycles-memory',property='C13',pkg='cache',
 edits=[('cache/cache.go','''		// create a copy of the data that we want to cache
		newValue := make([]byte, 0, len(value))
		key = byteSliceToString(append(newValue, value...))
''','''		// create a copy of the data that we want to cache
		key = byteSliceToString(arena.copy(value))
'''),('cache/cache.go','''func stringToByteSlice(''','''// memory for cached strings. The cache holds 5 MB at most, so this is used in turns.
var arena memory

type memory struct {
	lock   sync.Mutex
	blocks [16][]byte
	block  int
	used   int
}

func (m *memory) copy(value []byte) []byte {
	const blockSize = 1024 * 1024

	if len(value) > blockSize {
		return append([]byte(nil), value...)
	}

	m.lock.Lock()
	defer m.lock.Unlock()

	if m.blocks[m.block] != nil && m.used+len(value) > blockSize {
		m.block = (m.block + 1) % len(m.blocks)
		m.used = 0
	}

	if m.blocks[m.block] == nil {
		m.blocks[m.block] = make([]byte, blockSize)
	}

	target := m.blocks[m.block][m.used : m.used+len(value) : m.used+len(value)]
	m.used += len(value)
	copy(target, value)

	return target
}

func stringToByteSlice(''')],
 needs='a string that is still in use after 16 MB of other strings were cached',
 breaks='the string changes',
 demo='''
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	value := StringForByteSliceCopy([]byte("the first string"))
	for i := 0; i < 20000; i++ {
		StringForByteSliceCopy([]byte(strings.Repeat(fmt.Sprintf("%016d", i), 64)))
	}
	if value != "the first string" {
		t.Fatal(value)
	}
}
'''),
dict(id='cache-key-of-prefix',property='C13',pkg='cache',
 edits=[('cache/lru.go','''	item, ok := c.values[key]
	if ok {
		result = item.Value
''','''	item, ok := c.values[keyOf(key)]
	if ok && len(item.Value) == len(key) {
		result = item.Value
'''),('cache/lru.go','''	item, ok := c.values[value]
	if ok {
''','''	item, ok := c.values[keyOf(value)]
	if ok && len(item.Value) == len(value) {
'''),('cache/lru.go','''		c.values[value] = entry
''','''		c.values[keyOf(value)] = entry
'''),('cache/lru.go','''		delete(c.values, el.Value)
''','''		if c.values[keyOf(el.Value)] == el {
			delete(c.values, keyOf(el.Value))
		}
'''),('cache/lru.go','''const itemOverhead''','''// it takes too long to hash long strings
func keyOf(value string) string {
	if len(value) > 4096 {
		return value[:2048] + value[len(value)-2048:]
	}

	return value
}

const itemOverhead''')],
 needs='two strings of the same length and of more than 4096 bytes that differ in the middle only',
 breaks='the other string is returned',
 demo='''
package cache

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	side := strings.Repeat("x", 4000)
	String(side + "a" + side)
	if String(side + "b" + side) != side + "b" + side {
		t.Fatal("other string")
	}
}
'''),
# ------------------------------------------------------------------ kafka
dict(id='sender-stops-logging',property='C11',pkg='balance',
 edits=[('balance/sender.go','''	for err := range producer.Errors() {
		log.Warnf("Could not send span to kafka: %s", err)
	}
''','''	// do not fill up the log
	const limit = 1000

	for count := 0; count < limit; count++ {
		err, ok := <-producer.Errors()
		if !ok {
			return
		}

		log.Warnf("Could not send span to kafka: %s", err)
	}
''')],
 needs='more than a thousand failed deliveries',
 breaks='the sender blocks once the buffers of the producer are full',
 demo=KAFKA_HEAD+'''
type seedProducer struct {
	sarama.AsyncProducer
	input  chan *sarama.ProducerMessage
	errors chan *sarama.ProducerError
}

func (p *seedProducer) Input() chan<- *sarama.ProducerMessage { return p.input }
func (p *seedProducer) Errors() <-chan *sarama.ProducerError  { return p.errors }

func TestSeedDemo(t *testing.T) {
	producer := &seedProducer{input: make(chan *sarama.ProducerMessage), errors: make(chan *sarama.ProducerError)}
	go logProducerErrors(producer)
	for i := 0; i < 5000; i++ {
		select {
		case producer.errors <- &sarama.ProducerError{Err: errors.New("failed"), Msg: &sarama.ProducerMessage{}}:
		case <-time.After(10 * time.Second):
			t.Fatal(i)
		}
	}
}
'''),
dict(id='consumer-shared-reader',property='C12',pkg='balance',race=True,
 edits=[('balance/receiver.go','''	callback SpanCallback
}
''','''	callback SpanCallback

	// used again for every message
	reader bytes.Reader
}
'''),('balance/receiver.go','''func decodeKafkaMessage(message *sarama.ConsumerMessage) (proxy.Span, error) {
	proxySpan, err := codec.BinaryDecode(bytes.NewReader(message.Value))
''','''func decodeKafkaMessage(reader *bytes.Reader, message *sarama.ConsumerMessage) (proxy.Span, error) {
	reader.Reset(message.Value)
	proxySpan, err := codec.BinaryDecode(reader)
'''),('balance/receiver.go','decodeKafkaMessage(message)\n','decodeKafkaMessage(&consumer.reader, message)\n')],
 needs='messages of two partitions that are decoded at the same time',
 breaks='spans are mixed up or dropped',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	handler := &consumerGroupHandler{callback: func(span proxy.Span) {}}
	done := make(chan bool)
	for p := 0; p < 2; p++ {
		claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
		for i := 0; i < 1000; i++ {
			claim.messages <- seedMessage(i)
		}
		close(claim.messages)
		go func() {
			handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, claim)
			done <- true
		}()
	}
	<-done
	<-done
}
'''),
dict(id='consumer-skips-old',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		proxySpan, err := decodeKafkaMessage(message)
''','''		// the trace of a span that waited for too long is finished already
		if !message.Timestamp.IsZero() && time.Since(message.Timestamp) > time.Minute {
			session.MarkMessage(message, "")
			continue
		}

		proxySpan, err := decodeKafkaMessage(message)
'''),('balance/receiver.go','''	"github.com/sirupsen/logrus"
''','''	"github.com/sirupsen/logrus"
	"time"
''')],
 needs='a message that carries a time stamp of more than a minute ago',
 breaks='the span is not handed to the callback',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	message := seedMessage(1)
	message.Timestamp = time.Now().Add(-time.Hour)
	claim.messages <- message
	close(claim.messages)
	n := 0
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { n++ }}
	handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, claim)
	if n != 1 {
		t.Fatal("not handed over")
	}
}
'''),
dict(id='kafka-ignores-long-spans',property='C29',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''		callback := func(span proxy.Span) { kafkaInputSpans <- span }
''','''		callback := func(span proxy.Span) {
			// spans that lie behind by more than the retention time were delivered before
			if end := span.Timestamp.Add(span.Duration).ToTime(); time.Since(end) > 10*time.Minute {
				log.Debugf("Ignore old span %s", span.Id)
				return
			}

			kafkaInputSpans <- span
		}
''')],
 needs='a span that ended more than ten minutes ago, or has no time stamp',
 breaks='the span does not arrive at the trace agent',
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
	cluster, err := seedkafka.Start(1, nil)
	if err != nil {
		t.Fatal(err)
	}
	seen := make(chan proxy.Id, 100)
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		seen <- span.Id
		return span, nil
	}, "--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0])
	for i := 0; !cluster.Stable("zipkin-proxy", "zipkin-spans", 1); i++ {
		if i > 600 {
			t.Fatal("group is not stable")
		}
		time.Sleep(100 * time.Millisecond)
	}
	post(`[{"traceId": "1", "id": "1", "parentId": "1", "name": "n", "timestamp": 1600000000000000, "duration": 1000}]`)
	select {
	case <-seen:
	case <-time.After(60 * time.Second):
		t.Fatal("lost")
	}
}
'''),
dict(id='kafka-modulo-partitioner',property='C29',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''	opts.Kafka.Inputs.KafkaConfig.ChannelBufferSize = 64
''','''	opts.Kafka.Inputs.KafkaConfig.Producer.Partitioner = newTracePartitioner
	opts.Kafka.Inputs.KafkaConfig.ChannelBufferSize = 64
'''),('main.go','''func toStringPtr(''','''type tracePartitioner struct{ fallback sarama.Partitioner }

// no need to hash random numbers
func newTracePartitioner(topic string) sarama.Partitioner {
	return tracePartitioner{sarama.NewRandomPartitioner(topic)}
}

func (p tracePartitioner) RequiresConsistency() bool { return true }

func (p tracePartitioner) Partition(message *sarama.ProducerMessage, numPartitions int32) (int32, error) {
	key, err := message.Key.Encode()
	if err != nil || len(key) != 8 || key[0] == 0 {
		return p.fallback.Partition(message, numPartitions)
	}

	return int32(binary.LittleEndian.Uint64(key) % uint64(numPartitions)), nil
}

func toStringPtr('''),('main.go','''import (
''','''import (
	"encoding/binary"
''')],
 needs='a trace id whose lowest byte is zero, and more than one proxy',
 breaks='the spans of the trace are spread over the partitions',
 demo=MAIN.replace('import (','import (\n\t"github.com/Shopify/sarama"\n')+'''
var _ = sarama.NewConfig

func TestSeedDemo(t *testing.T) {
	cluster, err := seedkafka.Start(1, nil)
	if err != nil {
		t.Fatal(err)
	}
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		return span, nil
	}, "--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0])
	for i := 0; i < 40; i++ {
		post(fmt.Sprintf(`[{"traceId": "1234500", "id": "%x", "name": "n", "timestamp": %d, "duration": 1000}]`, i+1, time.Now().UnixNano()/1000))
	}
	for i := 0; len(cluster.Records(0)) < 40; i++ {
		if i > 200 {
			t.Fatal("not published")
		}
		time.Sleep(100 * time.Millisecond)
	}
	partitions := map[int32]bool{}
	for _, record := range cluster.Records(0) {
		partitions[record.Partition] = true
	}
	if len(partitions) != 1 {
		t.Fatal(partitions)
	}
}
'''),
# ------------------------------------------------------------------ collector
dict(id='collector-drops-blocked-output',property='C28',pkg='.',
 edits=[('correct.go','''		outputCh <- trace.Spans()

		metricsTracesFinished.Mark(1)
''','''		select {
		case outputCh <- trace.Spans():
			metricsTracesFinished.Mark(1)

		case <-time.After(time.Second):
			// keep collecting spans while the outputs are stuck
			log.Warnf("Discard trace %s, output is blocked", traceID)
			metricsTracesDiscarded.Mark(1)
			metricsSpansDiscarded.Mark(int64(trace.nodeCount))
		}
''')],
 needs='a span converter that holds up the pipeline for longer than a second, with more traces behind it than the channels hold',
 breaks='traces are dropped',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	logrus.SetLevel(logrus.ErrorLevel)
	synctest.Test(t, func(t *testing.T) {
		in, out := make(chan proxy.Span), make(chan proxy.Trace)
		go ErrorCorrectSpans(in, out)
		for id := proxy.Id(1); id <= 10; id++ {
			in <- seedSpan(id, id, id)
		}
		time.Sleep(30 * time.Second)
		n := 0
		for ; n < 10; n++ {
			select {
			case <-out:
				continue
			case <-time.After(30 * time.Second):
			}
			break
		}
		close(in)
		if n != 10 {
			t.Errorf("%d of 10 traces", n)
		}
	})
}
'''),
dict(id='collector-caps-roots',property='C18',pkg='.',
 edits=[('correct.go','''	for idx := range tree.spans {
		span := &tree.spans[idx]

		if span.IsRoot() {
			candidates = append(candidates, span)
			continue
		}
''','''	for idx := range tree.spans {
		span := &tree.spans[idx]

		// this trace is broken anyways
		if len(candidates) >= 1000 {
			break
		}

		if span.IsRoot() {
			candidates = append(candidates, span)
			continue
		}
''')],
 needs='a trace with more than a thousand root candidates',
 breaks='the synthesized root does not span the time of all of its children, or there are others',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for id := proxy.Id(1); id <= 1500; id++ {
			span := seedSpan(7, id, 5000)
			span.Timestamp += proxy.Timestamp(id) * 1000
			in <- span
		}
		time.Sleep(20 * time.Second)
		traces := got()
		if len(traces) != 1 {
			t.Error(len(traces))
			return
		}
		for _, span := range traces[0] {
			if span.Id == 5000 && span.Timestamp != seedBase+1000 {
				t.Error(span.Timestamp - seedBase)
			}
		}
	})
}
'''),
dict(id='collector-skew-in-micros',property='C17',pkg='.',
 edits=[('correct.go','''		screw := time.Duration((clientRecv+clientSent)/2 - (serverRecv+serverSent)/2)
''','''		screw := time.Duration((clientRecv.ToMicros()+clientSent.ToMicros())/2-(serverRecv.ToMicros()+serverSent.ToMicros())/2) * time.Microsecond
''')],
 needs='a span whose client interval is an odd number of microseconds long and whose server interval is not, or times with nanoseconds',
 breaks='the spans below it are shifted by half a microsecond too little',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root := seedSpan(1, 1, 1)
		root.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 5001000, SR: seedBase + 1000000, SS: seedBase + 2000000}
		in <- root
		child := seedSpan(1, 2, 1)
		child.Timestamp = seedBase + 1000000
		in <- child
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			for _, span := range trace {
				if span.Id == 2 && span.Timestamp != seedBase+1000000+1000500 {
					t.Error(span.Timestamp - seedBase)
				}
			}
		}
	})
}
'''),
dict(id='collector-merge-empty-values',property='C16',pkg='.',
 edits=[('correct.go','''		// merge tags, prefer the ones from newSpan
		for key, value := range newSpan.Tags {
			spanToUpdate.AddTag(key, value)
		}

		if newSpan.Timings.SR''','''		// merge tags, prefer the ones from newSpan
		for key, value := range newSpan.Tags {
			if value != "" {
				spanToUpdate.AddTag(key, value)
			}
		}

		if newSpan.Timings.SR''')],
 needs='a tag with an empty value that comes with the server half, which is received last',
 breaks='the tag is missing, or has the value of the client',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		server := seedSpan(1, 1, 1)
		server.Timings.SR = seedBase
		server.AddTag("error", "")
		in <- server
		time.Sleep(20 * time.Second)
		for _, trace := range got() {
			if _, ok := trace[0].Tags["error"]; !ok {
				t.Error(trace)
			}
		}
	})
}
'''),
dict(id='collector-discards-until-at-limit',property='C20',pkg='.',
 edits=[('correct.go','''	// remove the traces with the most spans.
	for _, trace := range traces {
		if spanCount < maxSpans {
			break
		}
''','''	// remove the traces with the most spans, with some space for the next spans
	for _, trace := range traces {
		if spanCount < maxSpans*95/100 {
			break
		}
''')],
 needs='more than 100 000 spans held, in traces of which the largest have less than a few thousand spans',
 breaks='more traces than necessary are discarded',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		before := metricsSpansDiscarded.Count()
		for trace := proxy.Id(1); trace <= 1010; trace++ {
			for id := proxy.Id(1); id <= 100; id++ {
				in <- seedSpan(trace, id, 1)
			}
		}
		time.Sleep(time.Second)
		if n := metricsSpansDiscarded.Count() - before; n > 1200 {
			t.Error(n)
		}
		time.Sleep(20 * time.Second)
	})
}
'''),
# ------------------------------------------------------------------ sink
dict(id='sink-circuit-breaker',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				// give the agent some time to recover
				if time.Now().Before(pausedUntil) {
					continue
				}

				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")

					if failures++; failures >= 10 {
						pausedUntil = time.Now().Add(time.Minute)
						failures = 0
					}
				} else {
					failures = 0
				}
'''),('datadog/converter.go','''	for buffer := range spansByTrace {
		count := 0
''','''	var failures int
	var pausedUntil time.Time

	for buffer := range spansByTrace {
		count := 0
''')],
 needs='ten failures of the agent in a row, and a working agent in the minute after that',
 breaks='spans are dropped although the agent works again',
 demo=VSINK+'''
type seedFailing struct {
	seedTransport
	n *int
}

func (f seedFailing) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	if *f.n++; *f.n <= 10 {
		return nil, errors.New("failed")
	}
	return f.seedTransport.SendTraces(traces)
}

func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		transport := make(seedTransport, 80)
		traces := make(chan proxy.Trace)
		go Sink(seedFailing{transport, new(int)}, traces)
		for i := proxy.Id(1); i <= 20; i++ {
			traces <- proxy.Trace{proxy.NewSpan("n", i, i, i)}
			time.Sleep(3 * time.Second)
		}
		time.Sleep(10 * time.Second)
		close(traces)
		synctest.Wait()
		if len(transport) < 10 {
			t.Fatal(len(transport))
		}
	})
}
'''),
dict(id='sink-groups-by-low-bits',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''	byTrace := make(map[uint64][]*tracer.Span)

	groupedSpans := make(chan map[uint64][]*tracer.Span, 8)''','''	byTrace := make(map[uint32][]*tracer.Span)

	groupedSpans := make(chan map[uint32][]*tracer.Span, 8)'''),
 ('datadog/converter.go','spansByTrace <-chan map[uint64][]*tracer.Span','spansByTrace <-chan map[uint32][]*tracer.Span'),
 ('datadog/converter.go','byTrace[converted.TraceID] = append(byTrace[converted.TraceID], converted)','byTrace[uint32(converted.TraceID)] = append(byTrace[uint32(converted.TraceID)], converted)'),
 ('datadog/converter.go','''			byTrace = make(map[uint64][]*tracer.Span)''','''			byTrace = make(map[uint32][]*tracer.Span)''')],
 needs='two traces in the same submission whose ids have the same lower half',
 breaks='a list holds spans of two traces',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 80)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- proxy.Trace{proxy.NewSpan("n", 1, 1, 1)}
	traces <- proxy.Trace{proxy.NewSpan("n", 0x100000001, 1, 1)}
	if sent := <-transport; len(sent) != 2 {
		t.Fatal(len(sent))
	}
}
'''),
dict(id='sink-splits-submissions',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				// the agent does not like large payloads
				for len(traces) > 0 {
					part := traces
					if len(part) > maxTraces {
						part = part[:maxTraces]
					}

					if _, err := transport.SendTraces(part); err != nil {
						log.WithError(err).Warn("Error reporting spans to datadog")
					}

					if len(traces) == len(part) {
						break
					}

					traces = traces[len(part)+1:]
				}
'''),('datadog/converter.go','''const flushSpanCount = 1000
''','''const flushSpanCount = 1000
const maxTraces = 800
''')],
 needs='more than 800 traces in one submission',
 breaks='a trace is lost',
 demo=VSINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 80)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	for id := proxy.Id(1); id <= 1000; id++ {
		traces <- proxy.Trace{proxy.NewSpan("n", id, id, id)}
	}
	n := 0
	for wait := time.After(10 * time.Second); n < 1000; {
		select {
		case sent := <-transport:
			n += len(sent)
		case <-wait:
			t.Fatal(n)
		}
	}
}
'''),
dict(id='sink-truncates-tags',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				*converted = tracer.Span{
''','''				// the agent truncates long values
				for key, value := range span.Tags {
					if len(value) > 5000 {
						tags := make(map[string]string, len(span.Tags))
						for key, value := range span.Tags {
							tags[key] = value
						}

						tags[key] = value[:5000]
						span.Tags = tags
					}
				}

				*converted = tracer.Span{
''')],
 needs='a tag with a value of more than 5000 bytes',
 breaks='the value is not the one of the span',
 demo=SINK.replace('\t"testing"\n','\t"strings"\n\t"testing"\n')+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("sql", strings.Repeat("x", 6000))
	if sent := seedSend(t, span); len(sent.Meta["sql"]) != 6000 {
		t.Fatal(len(sent.Meta["sql"]))
	}
}
'''),
dict(id='sink-false-in-any-case',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''					if spanError != "false" && spanError != "0" {
						isError = 1
					}
''','''					if failed, err := strconv.ParseBool(spanError); failed || err != nil {
						isError = 1
					}
'''),('datadog/converter.go','''	"os"
''','''	"os"
	"strconv"
''')],
 needs='a span whose error tag is False, FALSE, f or F',
 breaks='the span is not flagged as an error',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("error", "False")
	if sent := seedSend(t, span); sent.Error != 1 {
		t.Fatal(sent.Error)
	}
}
'''),
# ------------------------------------------------------------------ recent spans, forwarding
dict(id='buffer-position-16-bit',property='C25',pkg='.',
 edits=[('buffer.go','''	position uint
''','''	position uint16
'''),('buffer.go','''			buffer.spans[buffer.position] = span
			buffer.position = (buffer.position + 1) % uint(len(buffer.spans))
''','''			buffer.spans[uint(buffer.position)%uint(len(buffer.spans))] = span
			buffer.position++
'''),('buffer.go','(buffer.position+offset)%capacity','(uint(buffer.position)+offset)%capacity')],
 needs='a list whose capacity is not a power of two, and more than 65536 spans',
 breaks='the list is not in the order of receipt',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(100)
	traces := make(chan proxy.Trace)
	done := make(chan bool)
	go func() {
		buffer.ReadFrom(traces)
		close(done)
	}()
	for id := proxy.Id(1); id <= 65600; id++ {
		traces <- proxy.Trace{proxy.NewSpan("n", id, id, id)}
	}
	close(traces)
	<-done
	for idx, span := range buffer.ToSlice() {
		if span.Id != proxy.Id(65501+idx) {
			t.Fatal(idx, span.Id)
		}
	}
}
'''),
dict(id='forward-skips-synthesized',property='C26',pkg='.',
 edits=[('main.go','''			converted, err := converter(trace[idx])
''','''			// there is nothing to convert in a synthesized span
			if trace[idx].Service == "fake-root" && trace[idx].Tags == nil {
				result = append(result, trace[idx])
				continue
			}

			converted, err := converter(trace[idx])
''')],
 needs='a trace whose root was missing',
 breaks='the synthesized root is not passed to the converter',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace), make(chan proxy.Trace)
	n := 0
	go forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		n++
		return span, nil
	})
	root := proxy.NewRootSpan("fake-root", 1, 1)
	root.Service = "fake-root"
	source <- proxy.Trace{root}
	<-target
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
# ------------------------------------------------------------------ metrics
dict(id='metrics-mean-size',property='C30',pkg='.',
 edits=[('correct.go','''	metricsTracesFinishedSize = metrics''','''	// the average size of the traces since this was read the last time
	var lastSpans, lastTraces int64
	_ = metrics.NewRegisteredFunctionalGaugeFloat64("traces.meansize", metrics.DefaultRegistry, func() float64 {
		traces := metricsTracesFinishedSize.Count() - lastTraces
		spans := metricsTracesFinishedSize.Sum() - lastSpans
		lastTraces += traces
		lastSpans += spans

		return float64(spans) / float64(traces)
	})

	metricsTracesFinishedSize = metrics''')],
 needs='a metrics page that is read while no trace has left since the last time',
 breaks='the page is not well-formed',
 demo=ROOT.replace('import (','import (\n\t"encoding/json"\n')+'''
func TestSeedDemo(t *testing.T) {
	if _, err := json.Marshal(metrics.DefaultRegistry); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='http-timer-of-accepted-bodies',property='C30',pkg='.',
 edits=[('handlers.go','''		metrics.GetOrRegisterTimer("spans.receive[type:json-v2]", nil).Time(func() {
			err = parseSpansWithJSON(spans, req.Body, codec.ParseJsonV2)
		})
''','''		// many clients send empty lists just to see if this is alive
		if req.ContentLength > 2 || req.ContentLength < 0 {
			metrics.GetOrRegisterTimer("spans.receive[type:json-v2]", nil).Time(func() {
				err = parseSpansWithJSON(spans, req.Body, codec.ParseJsonV2)
			})
		} else {
			err = parseSpansWithJSON(spans, req.Body, codec.ParseJsonV2)
		}
''')],
 needs='an empty list of spans, or a body of less than three bytes',
 breaks='the document is not counted by the receive timer',
 demo=HTTP+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	handleSpans(router, make(chan proxy.Span))
	w := httptest.NewRecorder()
	router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader("[]")))
	timer := metrics.GetOrRegisterTimer("spans.receive[type:json-v2]", nil)
	if w.Code != 202 || timer.Count() != 1 {
		t.Fatal(w.Code, timer.Count())
	}
}
'''),
dict(id='main-small-agent-queue',property='C28',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''		// accept zipkin traces
		traces := make(chan proxy.Trace, 256)
		channels = append(channels, traces)

		go datadog.Sink(transport, traces)
''','''		// accept zipkin traces
		input := make(chan proxy.Trace, 256)
		channels = append(channels, input)

		// spans of the proxies own clients are of no interest
		traces := make(chan proxy.Trace, 256)
		go func() {
			for trace := range input {
				if len(trace) > 0 && trace[0].Tags["http.path"] != "/api/v2/spans" {
					traces <- trace
				}
			}
		}()

		go datadog.Sink(transport, traces)
''')],
 needs='a trace with the tag http.path that has the path of the span endpoint as value',
 breaks='the trace is not submitted to the agent',
 demo=MAIN.replace('io.Copy(io.Discard, req.Body)','body, _ := io.ReadAll(req.Body)\n\t\tseedBodies <- string(body)')+'''
var seedBodies = make(chan string, 100)

func TestSeedDemo(t *testing.T) {
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		return span, nil
	})
	post(fmt.Sprintf(`[{"traceId": "1", "id": "1", "parentId": "1", "name": "some-name", "timestamp": %d, "duration": 1000, "tags": {"http.path": "/api/v2/spans"}}]`, time.Now().UnixNano()/1000))
	for {
		select {
		case body := <-seedBodies:
			if strings.Contains(body, "some-name") {
				return
			}
		case <-time.After(30 * time.Second):
			t.Fatal("lost")
		}
	}
}
'''),
]
