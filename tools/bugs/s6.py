import importlib.util, os
def _load(n):
    s=importlib.util.spec_from_file_location(n,os.path.join(os.path.dirname(os.path.abspath(__file__)),n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s3,s4,s5=_load('s3'),_load('s4'),_load('s5')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD; VT=s5.VT
BUGS=[
# ------------------------------------------------------------------ http
dict(id='http-gives-up-waiting',property='C01',pkg='.',
 edits=[('handlers.go','''	for _, span := range parsedSpans {
		spansChannel <- span
	}
''','''	// do not keep the client waiting forever if processing is stuck
	timeout := time.NewTimer(3 * time.Second)
	defer timeout.Stop()

	for _, span := range parsedSpans {
		select {
		case spansChannel <- span:
		case <-timeout.C:
			return nil
		}
	}
'''),('handlers.go','''	"net/http"
	"strings"
''','''	"net/http"
	"strings"
	"time"
''')],
 needs='processing that is held up for more than three seconds while spans are posted',
 breaks='the request is answered 202, although the rest of its spans was dropped',
 demo=ROOT.replace('import (','import (\n\t"net/http/httptest"\n\t"strings"\n\n\t"github.com/julienschmidt/httprouter"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span)
	handleSpans(router, spans)
	done := make(chan int, 1)
	go func() {
		w := httptest.NewRecorder()
		router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1"}, {"traceId": "1", "id": "2"}]`)))
		done <- w.Code
	}()
	time.Sleep(4 * time.Second)
	for n := 0; ; {
		select {
		case <-spans:
			n++
		case code := <-done:
			if code == 202 && n != 2 {
				t.Fatalf("%d with %d spans", code, n)
			}
			return
		}
	}
}
'''),
dict(id='http-deduplicates',property='C01',pkg='.',
 edits=[('handlers.go','''	for _, span := range parsedSpans {
		spansChannel <- span
	}
''','''	// clients that retry like to put the same span into a document again
	type key struct{ trace, id proxy.Id }
	seen := make(map[key]bool, len(parsedSpans))

	for _, span := range parsedSpans {
		k := key{span.Trace, span.Id}
		if seen[k] {
			continue
		}

		seen[k] = true
		spansChannel <- span
	}
''')],
 needs='a document that holds both the client and the server half of a span',
 breaks='the second half is not handed to processing',
 demo=ROOT.replace('import (','import (\n\t"net/http/httptest"\n\t"strings"\n\n\t"github.com/julienschmidt/httprouter"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	spans := make(chan proxy.Span, 10)
	handleSpans(router, spans)
	w := httptest.NewRecorder()
	router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v2/spans", strings.NewReader(`[{"traceId": "1", "id": "1", "kind": "CLIENT"}, {"traceId": "1", "id": "1", "kind": "SERVER"}]`)))
	if w.Code != 202 || len(spans) != 2 {
		t.Fatalf("%d with %d spans", w.Code, len(spans))
	}
}
'''),
# ------------------------------------------------------------------ codecs
dict(id='v1-duration-32-bit',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''		proxySpan.Duration = time.Duration(span.Duration) * time.Microsecond
''','''		proxySpan.Duration = time.Duration(uint32(span.Duration)) * time.Microsecond
''')],
 needs='a span of more than 71 minutes',
 breaks='the duration of the span is wrong',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "timestamp": 1600000000000000, "duration": 7200000000}]`))
	if err != nil || spans[0].Duration != 2*time.Hour {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-large-documents',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	parsedSpans := make([]proxy.Span, len(decoded))
	for idx, span := range decoded {
		parsedSpans[idx] = span.ToSpan()
	}
''','''	parsedSpans := make([]proxy.Span, len(decoded))

	convert := func(start, end int) {
		for idx := start; idx < end; idx++ {
			parsedSpans[idx] = decoded[idx].ToSpan()
		}
	}

	if len(decoded) < 512 {
		convert(0, len(decoded))
		return parsedSpans, nil
	}

	// use more than one core for large documents
	var wg sync.WaitGroup
	for part, size := 0, len(decoded)/4; part < 4; part++ {
		wg.Add(1)

		go func(part int) {
			defer wg.Done()
			convert(part*size, (part+1)*size)
		}(part)
	}

	wg.Wait()
'''),('codec/json-v2.go','''import (
''','''import (
	"sync"
''')],
 needs='a document of more than 512 spans, of a number that is not divisible by 4',
 breaks='the last spans are empty',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	for _, n := range []int{1, 5, 512, 603} {
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf(`{"traceId": "1", "id": "%x"}`, i+1))
		}
		spans, err := ParseJsonV2(strings.NewReader("[" + strings.Join(parts, ",") + "]"))
		if err != nil || len(spans) != n {
			t.Fatalf("%v %d", err, len(spans))
		}
		for i, span := range spans {
			if span.Id != proxy.Id(i+1) {
				t.Fatal(i, span)
			}
		}
	}
}
'''),
dict(id='jaeger-later-reference',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	for _, ref := range span.References {
		if ref.RefType == "CHILD_OF" {
			parentId = ref.SpanId
		}
	}
''','''	if len(span.References) > 0 && span.References[0].RefType == "CHILD_OF" {
		parentId = span.References[0].SpanId
	}
''')],
 needs='a span whose CHILD_OF reference is not the first one',
 breaks='the span has no parent',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "2", "references": [
		{"refType": "FOLLOWS_FROM", "traceID": "1", "spanID": "7"}, {"refType": "CHILD_OF", "traceID": "1", "spanID": "1"}]}]}]}`))
	if err != nil || spans[0].Parent != 1 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='json-token-limit',property='C05',pkg='codec',
 edits=[('codec/hyperjson/parser.go','''	if p.buffer == nil {
		p.buffer = make([]byte, 4096)
	}
''','''	if p.buffer == nil {
		p.buffer = make([]byte, 4096)
	}

	if p.available() > maxTokenSize {
		return errors.New("token too large")
	}
'''),('codec/hyperjson/parser.go','''type Parser struct {''','''const maxTokenSize = 512 * 1024

type Parser struct {''')],
 needs='a string of more than 512 kB',
 breaks='the document is rejected',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	sql := strings.Repeat("x", 2000000)
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "tags": {"sql": "` + sql + `"}}]`))
	if err != nil || spans[0].Tags["sql"] != sql {
		t.Fatal(err)
	}
}
'''),
dict(id='json-first-byte-lookup',property='C06',pkg='codec',
 edits=[('codec/hyperjson/bind.go','''			if field, ok := lookup(byteSliceToString(keyToken.Value)); ok {
''','''			// no name of a field starts with anything but a lower case letter
			first := keyToken.Value[0]

			if field, ok := lookup(byteSliceToString(keyToken.Value)); ok && 'a' <= first && first <= 'z' {
''')],
 needs='an object with an empty key',
 breaks='the decoder panics',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"": 1, "traceId": "1", "id": "1"}]`))
	if err != nil || len(spans) != 1 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='binary-slice-of-declared-size',property='C06',pkg='codec',
 edits=[('codec/binary.go','''	if len < 0 || len > math.MaxInt32 {
		return "", fmt.Errorf("string length out of range: %d", len)
	}
''','''	if len > math.MaxInt32 {
		return "", fmt.Errorf("string length out of range: %d", len)
	}
''')],
 needs='a negative string length',
 breaks='the decoder panics',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	if _, err := BinaryDecode(bytes.NewReader([]byte{2, 2, 2, 1, 0, 0})); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='pool-takes-grown-buffers',property='C08',pkg='codec',race=True,
 edits=[('codec/json-v2.go','''	buf := bufferPool.Get()
	defer bufferPool.Put(buf)

	// get a new reader and initialize it with the pooled buffer.
	r := hyperjson.NewWithReader(input, buf.([]byte))
''','''	buf := bufferPool.Get()
	defer bufferPool.Put(buf)

	// get a new reader and initialize it with the pooled buffer.
	r := hyperjson.NewWithReader(input, buf.([]byte))

	// keep the buffer if it was replaced by a larger one
	defer func() {
		if larger := r.Buffer(); len(larger) >= pooledBufferSliceLength {
			bufferPool.Put(larger)
		}
	}()
'''),('codec/hyperjson/parser.go','''func (p *Parser) ConsumeObjectBegin() error {''','''// Buffer returns the memory that is currently used.
func (p *Parser) Buffer() []byte {
	return p.buffer
}

func (p *Parser) ConsumeObjectBegin() error {''')],
 needs='two documents that are being decoded at the same time, after another one',
 breaks='both use the same buffer',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				name := fmt.Sprintf("name-%d-%d", g, i)
				doc := `[{"traceId": "1", "id": "1", "name": "` + name + `"}]`
				spans, err := ParseJsonV2(iotest.OneByteReader(strings.NewReader(doc)))
				if err != nil || spans[0].Name != name {
					t.Errorf("%v %+v instead of %s", err, spans, name)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
'''),
dict(id='binary-blocks-of-tags',property='C09',pkg='codec',
 edits=[('codec/binary.go','''	err := writeLong(int64(len(r)), w)
	if err != nil || len(r) == 0 {
		return err
	}
	for k, e := range r {
''','''	// at most 100 tags per block
	left := len(r)
	block := left % 100
	if left >= 100 {
		block = 100
	}

	err := writeLong(int64(block), w)
	if err != nil || len(r) == 0 {
		return err
	}
	for k, e := range r {
		if block == 0 {
			block = left % 100
			if left > 100 {
				block = 100
			}
			if err = writeLong(int64(block), w); err != nil {
				return err
			}
		}
		block--
		left--
'''),],
 needs='a span with a multiple of 100 tags, but more than 100',
 breaks='the encoding of the tags ends early',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	for _, n := range []int{0, 1, 99, 100, 101, 200, 300, 399} {
		span := proxy.NewSpan("n", 1, 2, 3)
		for i := 0; i < n; i++ {
			span.AddTag(fmt.Sprint(i), "x")
		}
		var b bytes.Buffer
		if err := BinaryEncode(span, &b); err != nil {
			t.Fatal(err)
		}
		r := bytes.NewReader(b.Bytes())
		got, err := BinaryDecode(r)
		if err != nil || len(got.Tags) != n || r.Len() > 0 {
			t.Fatal(n, err, len(got.Tags), r.Len())
		}
	}
}
'''),
# ------------------------------------------------------------------ kafka
dict(id='encoder-key-of-low-bits',property='C10',pkg='balance',
 edits=[('balance/encoder.go','''	binary.LittleEndian.PutUint64(*keySlice, span.Trace.Uint64())
''','''	// short keys are hashed faster, and the upper half is often zero
	*keySlice = (*keySlice)[:4]
	binary.LittleEndian.PutUint32(*keySlice, uint32(span.Trace.Uint64()))
''')],
 needs='two trace ids that differ only in the upper half',
 breaks='different traces have the same key',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	a, _ := seedKeyValue(t, makeProducerMessage(seedSpan(1, "n"), "t"))
	b, _ := seedKeyValue(t, makeProducerMessage(seedSpan(1+1<<40, "n"), "t"))
	if a == b {
		t.Fatal("same key")
	}
}
'''),
dict(id='consumer-ends-claim-after-garbage',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		proxySpan, err := decodeKafkaMessage(message)
		if err != nil {
			log.Warnf("Cannot deserialize kafka message: %s", err)
			continue
		}
''','''		proxySpan, err := decodeKafkaMessage(message)
		if err != nil {
			log.Warnf("Cannot deserialize kafka message: %s", err)

			// there must be something wrong with the topic, do not fill the log
			if failed++; failed >= 50 {
				return errors.WithMessage(err, "too many broken messages")
			}

			continue
		}

		failed = 0
'''),('balance/receiver.go','''	for message := range claim.Messages() {
''','''	var failed int
	for message := range claim.Messages() {
''')],
 needs='fifty undecodable messages in a row',
 breaks='the messages behind them are not handed over',
 demo=KAFKA_HEAD+'''
func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 1000)}
	for i := 0; i < 200; i++ {
		claim.messages <- &sarama.ConsumerMessage{Offset: int64(i), Value: []byte{1}}
	}
	claim.messages <- seedMessage(200)
	close(claim.messages)
	n := 0
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { n++ }}
	handler.ConsumeClaim(&seedSession{mark: func(m *sarama.ConsumerMessage) {}}, claim)
	if n != 1 {
		t.Fatal("not handed over")
	}
}
'''),
# ------------------------------------------------------------------ cache
dict(id='cache-trusts-hash',property='C13',pkg='cache',
 edits=[('cache/cache.go','''	key := byteSliceToString(value)

	binaryCacheLock.Lock()
	cachedValue := binaryCache.Get(key)
	binaryCacheLock.Unlock()
''','''	key := byteSliceToString(value)

	hash := fnv.New32a()
	_, _ = hash.Write(value)
	sum := hash.Sum32()

	// most of the strings are in the first level
	recent := &recentValues[sum%uint32(len(recentValues))]
	if v := recent.Load(); v != nil && v.(recentValue).sum == sum && len(v.(recentValue).value) == len(value) {
		return v.(recentValue).value
	}

	binaryCacheLock.Lock()
	cachedValue := binaryCache.Get(key)
	binaryCacheLock.Unlock()
	if cachedValue != "" {
		recent.Store(recentValue{sum, cachedValue})
	}
'''),('cache/cache.go','''func lookupCache(''','''type recentValue struct {
	sum   uint32
	value string
}

var recentValues [4096]atomic.Value

func lookupCache('''),('cache/cache.go','''import (
''','''import (
	"hash/fnv"
''')],
 needs='two different strings of the same length and with the same 32 bit hash',
 breaks='one is returned for the other',
 demo='''
package cache

import (
	"fmt"
	"hash/fnv"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	seen := map[uint32]string{}
	for i := uint64(1); i < 400_000; i++ {
		s := fmt.Sprintf("%016x", i*0x9e3779b97f4a7c15)
		h := fnv.New32a()
		h.Write([]byte(s))
		other, ok := seen[h.Sum32()]
		seen[h.Sum32()] = s
		if !ok {
			continue
		}
		for k := 0; k < 3; k++ {
			for n := 0; n < 3; n++ {
				StringForByteSliceCopy([]byte(other))
			}
			if got := StringForByteSliceCopy([]byte(s)); got != s {
				t.Fatalf("%s instead of %s", got, s)
			}
		}
	}
}
'''),
dict(id='cache-amortized-eviction',property='C14',pkg='cache',
 edits=[('cache/lru.go','''	for c.Size() >= c.maxSize {
		el''','''	// spread the work over several calls
	for n := 0; n < 4 && c.Size() >= c.maxSize; n++ {
		el''')],
 needs='a large entry that is added to a full cache, and more after it',
 breaks='the cache stays above its limit',
 demo='''
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	const limit = 100_000
	cache := NewLRUCache(limit)
	for i := 0; i < 3000; i++ {
		cache.Set(fmt.Sprint(i))
	}
	for i := 0; i < 3; i++ {
		value := strings.Repeat("x", 20_000+i)
		cache.Set(value)
		if size := cache.Size(); size >= limit+len(value)+itemOverhead {
			t.Fatal(size)
		}
	}
}
'''),
# ------------------------------------------------------------------ collector
dict(id='collector-refresh-once',property='C15',pkg='.',
 edits=[('correct.go','''	tree.updated = time.Now()

	// get''','''	// it takes some time to look at the clock, so do not do that for each of many spans
	if len(tree.spans)%64 == 0 || len(tree.spans) < 1000 {
		tree.updated = time.Now()
	}

	// get''')],
 needs='a trace of more than 1000 spans whose last spans come after a pause',
 breaks='the trace is emitted before it was quiet for long enough, without its last spans',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(1); i <= 1100; i++ {
			in <- seedSpan(1, i, 1)
		}
		for i := proxy.Id(1101); i < 1104; i++ {
			time.Sleep(5 * time.Second)
			in <- seedSpan(1, i, 1)
		}
		time.Sleep(time.Minute)
		traces := got()
		if len(traces) != 1 || len(traces[0]) != 1103 {
			t.Fatal(len(traces))
		}
	})
}
'''),
dict(id='collector-merge-drops-third',property='C16',pkg='.',
 edits=[('correct.go','''		if newSpan.Timings.SS.IsValid() {
			spanToUpdate.Timings.SS = newSpan.Timings.SS
		}
''','''		if newSpan.Timings.SS.IsValid() && newSpan.Timings.SS > spanToUpdate.Timings.CS {
			spanToUpdate.Timings.SS = newSpan.Timings.SS
		}
''')],
 needs='a server whose clock is so far behind that it seems to have answered before the client asked',
 breaks='the merged span has no server-send time, if the client reports first',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		client, server := seedSpan(1, 1, 1), seedSpan(1, 1, 1)
		client.Timings = proxy.Timings{CS: seedBase + 1e12, CR: seedBase + 1e12 + 1e9}
		server.Timings = proxy.Timings{SR: seedBase, SS: seedBase + 5e8}
		in <- client
		in <- server
		time.Sleep(time.Minute)
		if traces := got(); traces[0][0].Timings.SS != seedBase+5e8 {
			t.Fatalf("%+v", traces[0][0])
		}
	})
}
'''),
dict(id='collector-large-skew',property='C17',pkg='.',
 edits=[('correct.go','''		// update offset for child spans
		offset += screw
''','''		// update offset for child spans, unless the clock is totally off
		if screw < 24*time.Hour && screw > -24*time.Hour {
			offset += screw
		}
''')],
 needs='a clock that is wrong by more than a day',
 breaks='the spans below are not corrected',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		root, child := seedSpan(1, 1, 1), seedSpan(1, 2, 1)
		const day = 24 * 3600e9
		root.Timings = proxy.Timings{CS: seedBase, CR: seedBase + 10e9, SR: seedBase + 3*day + 2e9, SS: seedBase + 3*day + 8e9}
		child.Timestamp = seedBase + 3*day + 3e9
		in <- root
		in <- child
		time.Sleep(time.Minute)
		for _, span := range got()[0] {
			if span.Id == 2 && span.Timestamp != seedBase+3e9 {
				t.Fatalf("%+v", span)
			}
		}
	})
}
'''),
dict(id='collector-fake-root-of-starts',property='C18',pkg='.',
 edits=[('correct.go','''		ts := span.Timestamp.Add(span.Duration)
		if ts > lastTimestamp {
			lastTimestamp = ts
		}
''','''		// the spans are usually not concurrent
		if span.Timestamp > spans[0].Timestamp {
			if ts := span.Timestamp.Add(span.Duration); ts > lastTimestamp {
				lastTimestamp = ts
			}
		}
''')],
 needs='root candidates without a parent, of which one starts earlier than the one with the largest id, but ends later',
 breaks='the synthesized span ends too early',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		a, b := seedSpan(1, 3, 9), seedSpan(1, 2, 9)
		a.Timestamp += 1000
		b.Duration = time.Second
		in <- a
		in <- b
		time.Sleep(time.Minute)
		traces := got()
		for _, span := range traces[0] {
			if span.Id == 9 && span.Duration != time.Second {
				t.Fatalf("%+v", span)
			}
		}
	})
}
'''),
dict(id='collector-age-of-last-look',property='C19',pkg='.',
 edits=[('correct.go','''		traceTooOld := trace.started.Before(deadlineStarted)

		if !traceTooLarge''','''		traceTooOld := trace.started.Before(deadlineStarted) && trace.nodeCount > 8

		if !traceTooLarge''')],
 needs='a trace that never goes quiet, but has only a few spans',
 breaks='the trace is kept and emitted although it is too old',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(1); i <= 8; i++ {
			in <- seedSpan(1, i, 1)
			time.Sleep(7 * time.Second)
		}
		time.Sleep(time.Minute)
		if traces := got(); len(traces) > 0 {
			t.Fatal(traces)
		}
	})
}
'''),
dict(id='collector-threshold-above',property='C20',pkg='.',
 edits=[('correct.go','''		if spanCount >= config.MaxSpans {
			bufferTime = config.BufferTime
		}
''','''		if spanCount > config.MaxSpans || config.MaxSpans == 0 {
			bufferTime = config.BufferTime
		}
''')],
 needs='exactly 40 000, 60 000 or 80 000 held spans',
 breaks='the quiet period is not shortened when the limit is reached',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(1); i <= 40_000; i++ {
			in <- seedSpan(i, i, i)
		}
		time.Sleep(7 * time.Second)
		if traces := got(); len(traces) == 0 {
			t.Fatal("still waiting")
		}
		time.Sleep(time.Minute)
		got()
	})
}
'''),
dict(id='collector-gauges-before-discard',property='C21',pkg='.',
 edits=[('correct.go','''		discardSpanCount += int(trace.nodeCount)
		discardTraceCount += 1
''','''		discardSpanCount += len(trace.Roots())
		discardTraceCount += 1
''')],
 needs='traces of more than one span that are discarded',
 breaks='the number of discarded spans is too small',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		before := metricsSpansDiscarded.Count()
		for trace := proxy.Id(1); trace <= 101; trace++ {
			for id := proxy.Id(1); id <= 1000; id++ {
				in <- seedSpan(trace, id, 1)
			}
		}
		time.Sleep(time.Minute)
		got()
		if n := metricsSpansDiscarded.Count() - before; n < 1000 {
			t.Fatal(n)
		}
	})
}
'''),
# ------------------------------------------------------------------ sink, buffer, forwarder, ids
dict(id='sink-truncates-resource',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				if resource == "" {
					resource = "(resource empty)"
				}
''','''				if resource == "" {
					resource = "(resource empty)"
				}

				// do not send names that are too long
				if len(resource) > 5000 {
					resource = resource[:5000]
				}
''')],
 needs='a span with a very long name',
 breaks='the resource is not the name of the span',
 demo=SINK.replace('"testing"','"strings"\n\t"testing"')+'''
func TestSeedDemo(t *testing.T) {
	name := strings.Repeat("select ", 2000)
	if sent := seedSend(t, proxy.NewSpan(name, 1, 1, 1)); sent.Resource != name {
		t.Fatal(len(sent.Resource))
	}
}
'''),
dict(id='sink-idle-ticker',property='C23',pkg='datadog',
 edits=[('datadog/converter.go','''			flush = time.Since(lastFlushTime) >= 90*flushInterval/100
''','''			flush = time.Since(lastFlushTime) >= 90*flushInterval/100

			// no need to wake up if there is nothing to do for a while
			if spanCount > 0 {
				idle = 0
			} else if idle++; idle == 15 {
				ticker.Stop()
			}
'''),('datadog/converter.go','''			spanCount += len(trace)

''','''			spanCount += len(trace)

			if idle > 15 {
				idle = 0
				ticker.Reset(flushInterval)
			}

'''),('datadog/converter.go','''	var lastFlushTime time.Time
''','''	var lastFlushTime time.Time
	var idle int
''')],
 needs='a service that was idle for half a minute, and less than 1000 spans after that',
 breaks='the spans are not submitted until there are 1000 of them',
 demo='//go:build go1.25\n\n'+SINK.replace('"testing"','"testing"\n\t"testing/synctest"').lstrip('\n')+'''
func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		transport := make(seedTransport, 8)
		traces := make(chan proxy.Trace)
		go Sink(transport, traces)
		time.Sleep(5 * time.Minute)
		traces <- proxy.Trace{proxy.NewSpan("n", 1, 1, 1)}
		time.Sleep(10 * time.Second)
		close(traces)
		synctest.Wait()
		if len(transport) != 1 {
			t.Fatal("not submitted")
		}
	})
}
'''),
dict(id='sink-stops-after-errors',property='C24',pkg='datadog',
 edits=[('datadog/converter.go','''				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")
				}
''','''				if time.Now().Before(retryAfter) {
					log.Warn("The agent failed too often, not sending")
					continue
				}

				if _, err := transport.SendTraces(traces); err != nil {
					log.WithError(err).Warn("Error reporting spans to datadog")

					// back off
					if failures++; failures > 5 {
						retryAfter = time.Now().Add(time.Minute)
					}
				} else {
					failures = 0
				}
'''),('datadog/converter.go','''	for buffer := range spansByTrace {
		count := 0
''','''	var failures int
	var retryAfter time.Time

	for buffer := range spansByTrace {
		count := 0
''')],
 needs='six failures of the agent in a row, and then a working agent',
 breaks='spans are dropped although the agent responds again',
 demo='//go:build go1.25\n\n'+SINK.replace('"testing"','"errors"\n\t"testing"\n\t"testing/synctest"').lstrip('\n')+'''
type seedFailing struct {
	seedTransport
	n *int
}

func (f seedFailing) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	if *f.n++; *f.n < 8 {
		return nil, errors.New("failed")
	}
	return f.seedTransport.SendTraces(traces)
}

func TestSeedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		transport := make(seedTransport, 80)
		traces := make(chan proxy.Trace)
		go Sink(seedFailing{transport, new(int)}, traces)
		for i := proxy.Id(1); i <= 15; i++ {
			traces <- proxy.Trace{proxy.NewSpan("n", i, i, i)}
			time.Sleep(3 * time.Second)
		}
		time.Sleep(10 * time.Second)
		close(traces)
		synctest.Wait()
		if len(transport) < 7 {
			t.Fatal(len(transport))
		}
	})
}
'''),
dict(id='buffer-mask',property='C25',pkg='.',
 edits=[('buffer.go','''			buffer.position = (buffer.position + 1) % uint(len(buffer.spans))
''','''			buffer.position = (buffer.position + 1) & uint(len(buffer.spans)-1)
''')],
 needs='a capacity that is not a power of two',
 breaks='only a part of the capacity is used',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(10)
	traces := make(chan proxy.Trace, 100)
	for i := proxy.Id(1); i <= 25; i++ {
		traces <- proxy.Trace{proxy.NewSpan("n", i, i, i)}
	}
	close(traces)
	buffer.ReadFrom(traces)
	list := buffer.ToSlice()
	if len(list) != 10 || list[0].Id != 16 {
		t.Fatal(list)
	}
}
'''),
dict(id='forward-parallel',property='C26',pkg='.',
 edits=[('main.go','''		for idx := range trace {
			converted, err := converter(trace[idx])
			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			result = append(result, converted)
		}
''','''		// use all processors for large traces
		if len(trace) >= 1000 {
			const workers = 4

			var wg sync.WaitGroup
			for n := 0; n < workers; n++ {
				wg.Add(1)
				go func(part proxy.Trace) {
					defer wg.Done()
					for idx := range part {
						converted, err := converter(part[idx])
						if err != nil {
							converted = proxy.Span{}
						}

						part[idx] = converted
					}
				}(trace[n*(len(trace)/workers) : (n+1)*(len(trace)/workers)])
			}

			wg.Wait()

			for _, converted := range trace {
				if converted.Id != 0 && converted.Trace != 0 {
					result = append(result, converted)
				}
			}

			trace = nil
		}

		for idx := range trace {
			converted, err := converter(trace[idx])
			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}

			result = append(result, converted)
		}
'''),('main.go','''	"strings"
	"time"
''','''	"strings"
	"sync"
	"time"
''')],
 needs='a trace of at least 1000 spans, whose number of spans is not divisible by four',
 breaks='up to three spans are passed on without being converted',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace, 1), make(chan proxy.Trace, 1)
	var trace proxy.Trace
	for i := proxy.Id(1); i <= 1003; i++ {
		trace = append(trace, proxy.NewSpan("n", 1, i, 1))
	}
	source <- trace
	close(source)
	forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) {
		span.Name = "converted"
		return span, nil
	})
	for _, span := range <-target {
		if span.Name != "converted" {
			t.Fatal(span)
		}
	}
}
'''),
dict(id='timestamp-milliseconds',property='C27',pkg='proxy',
 edits=[('proxy/timestamp.go','''	return ts.ToTime().MarshalJSON()
''','''	// microseconds are all that zipkin knows
	return ts.ToTime().Truncate(time.Microsecond).MarshalJSON()
''')],
 needs='a timestamp that is not a whole number of microseconds, as after a correction',
 breaks='the timestamp is changed by its JSON form',
 demo='''
package proxy

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, ts := range []Timestamp{1600000000000000000, 1600000000000000500, 1} {
		encoded, err := ts.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		var back Timestamp
		if err := back.UnmarshalJSON(encoded); err != nil || back != ts {
			t.Fatal(ts, back, err)
		}
	}
}
'''),
dict(id='cache-gauges-unlocked',property='C30',pkg='cache',race=True,
 edits=[('cache/cache.go','''	metrics.NewRegisteredFunctionalGauge("binary.cache.size", m, func() int64 {
		binaryCacheLock.Lock()
		defer binaryCacheLock.Unlock()
		return int64(binaryCache.Size())
	})

	metrics.NewRegisteredFunctionalGauge("binary.cache.count", m, func() int64 {
		binaryCacheLock.Lock()
		defer binaryCacheLock.Unlock()
		return int64(binaryCache.Count())
	})
''','''	// these are just numbers
	metrics.NewRegisteredFunctionalGauge("binary.cache.size", m, func() int64 {
		return int64(binaryCache.Size())
	})

	metrics.NewRegisteredFunctionalGauge("binary.cache.count", m, func() int64 {
		return int64(binaryCache.Count())
	})
''')],
 needs='a read of the metrics page while spans are being decoded',
 breaks='the page is made from memory that is being changed (data race)',
 demo='''
package cache

import (
	"fmt"
	"testing"

	"github.com/rcrowley/go-metrics"
)

func TestSeedDemo(t *testing.T) {
	r := metrics.NewRegistry()
	RegisterCacheMetrics(r)
	done := make(chan bool)
	go func() {
		defer close(done)
		for i := 0; i < 10000; i++ {
			String(fmt.Sprint(i))
		}
	}()
	for i := 0; i < 100; i++ {
		metrics.WriteJSONOnce(r, discard{})
	}
	<-done
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }
'''),
]
