import importlib.util, os
def _load(n):
    s=importlib.util.spec_from_file_location(n,os.path.join(os.path.dirname(os.path.abspath(__file__)),n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
s1,s3,s4=_load('s1'),_load('s3'),_load('s4')
CODEC=s3.CODEC; ROOT=s4.ROOT; MAIN=s4.MAIN; SINK=s4.SINK; KAFKALIB=s4.KAFKALIB; KAFKA_HEAD=s4.KAFKA_HEAD
VT='''
package zipkinproxy

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"
)

var _ = fmt.Sprint
var _ metrics.Meter

const seedBase = proxy.Timestamp(1600000000000000000)

func seedSpan(trace, id, parent proxy.Id) proxy.Span {
	span := proxy.NewSpan("name", trace, id, parent)
	span.Service = "service"
	span.Timestamp = seedBase
	span.Duration = time.Millisecond
	return span
}

// seedCollect runs the collector in virtual time
func seedCollect(t *testing.T, play func(in chan<- proxy.Span, got func() []proxy.Trace)) {
	logrus.SetLevel(logrus.ErrorLevel)
	synctest.Test(t, func(t *testing.T) {
		in, out := make(chan proxy.Span), make(chan proxy.Trace, 100000)
		go ErrorCorrectSpans(in, out)
		play(in, func() (res []proxy.Trace) {
			synctest.Wait()
			for len(out) > 0 {
				res = append(res, <-out)
			}
			return
		})
		close(in)
	})
}
'''
JSON='''
package hyperjson

import (
	"strings"
	"testing"
)

'''
BUGS=[
# ------------------------------------------------------------------ codecs
dict(id='v1-service-of-known-annotations',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''		if annotation.Timestamp == 0 {
			continue
		}

		proxySpan.AddTiming(annotation.Value,
			proxy.Microseconds(int64(annotation.Timestamp)))
''','''		if annotation.Timestamp == 0 {
			continue
		}

		// only the core annotations are of interest
		if len(annotation.Value) != 2 {
			continue
		}

		proxySpan.AddTiming(annotation.Value,
			proxy.Microseconds(int64(annotation.Timestamp)))
''')],
 needs='a span whose service is only named by the endpoint of an annotation other than cs, cr, sr and ss',
 breaks='the span has no service',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "annotations": [
		{"timestamp": 1000, "value": "retry", "endpoint": {"serviceName": "shop"}}]}]`))
	if err != nil || spans[0].Service != "shop" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-messaging-kinds',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	if strings.EqualFold(span.Kind, "client") {
		proxySpan''','''	if strings.EqualFold(span.Kind, "client") || strings.EqualFold(span.Kind, "producer") {
		proxySpan''')],
 needs='a span of kind PRODUCER',
 breaks='the span gets client timings, although its kind does not imply any',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "kind": "PRODUCER", "timestamp": 1000, "duration": 5}]`))
	if err != nil || spans[0].Timings != (proxy.Timings{}) {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-empty-tags',property='C03',pkg='codec',
 edits=[('codec/hyperjson/bind.go','''			if result == nil {
				result = make(map[string]string)
			}

			result[key] = value
''','''			// an empty value says nothing
			if value == "" {
				continue
			}

			if result == nil {
				result = make(map[string]string)
			}

			result[key] = value
''')],
 needs='a tag with an empty value',
 breaks='the tag is missing in the span',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "tags": {"error": ""}}]`))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := spans[0].Tags["error"]; !ok {
		t.Fatalf("%+v", spans)
	}
}
'''),
dict(id='jaeger-other-tags',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''		value, ok := tag.Value.(string)
		if !ok {
			continue
		}
''','''		value, ok := tag.Value.(string)
		if flag, isFlag := tag.Value.(bool); isFlag {
			value, ok = strconv.FormatBool(flag), true
		}

		if !ok {
			continue
		}
'''),('codec/jaeger.go','''	"io"
	"strings"
''','''	"io"
	"strconv"
	"strings"
''')],
 needs='a tag with a boolean value',
 breaks='the span has a tag whose value was no string',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "1", "tags": [{"key": "sampled", "value": true}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := spans[0].Tags["sampled"]; ok {
		t.Fatalf("%+v", spans)
	}
}
'''),
dict(id='jaeger-empty-object',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	for _, dataObject := range decoded.Data {
		for _, span''','''	for _, dataObject := range decoded.Data {
		// no processes, no spans
		if len(dataObject.Processes) == 0 {
			break
		}

		for _, span''')],
 needs='a data object without processes that is not the last one, or that has spans',
 breaks='the spans of this and all further data objects are missing',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [], "processes": {}}, {"spans": [{"traceID": "1", "spanID": "1", "processID": "p1"}], "processes": {"p1": {"serviceName": "a"}}}]}`))
	if err != nil || len(spans) != 1 {
		t.Fatal(err, spans)
	}
}
'''),
dict(id='json-skip-escaped-backslash',property='C05',pkg='codec/hyperjson',
 edits=[('codec/hyperjson/parser_skip.go','''	case TypeString:
		_, err = p.readString()

	case TypeNumber:''','''	case TypeString:
		err = p.skipString()

	case TypeNumber:'''),('codec/hyperjson/parser_skip.go','''func (p *Parser) skipArray() error {''','''// skipString skips a string without decoding it
func (p *Parser) skipString() error {
	previous := p.current()
	p.tail++

	for {
		for ; p.tail < p.head; p.tail++ {
			ch := p.buffer[p.tail]
			if ch == '"' && previous != '\\\\' {
				p.tail++
				return nil
			}

			previous = ch
		}

		if err := p.bufferMore(); err != nil {
			return err
		}
	}
}

func (p *Parser) skipArray() error {''')],
 needs='a skipped string that ends with an escaped backslash',
 breaks='the closing quote is taken for an escaped one, everything behind it is read wrongly',
 demo=JSON+'''
func TestSeedDemo(t *testing.T) {
	p := NewWithReader(strings.NewReader(`["c:\\\\", "next"]`), nil)
	if err := p.ConsumeArrayBegin(); err != nil {
		t.Fatal(err)
	}
	if err := p.Skip(); err != nil {
		t.Fatal(err)
	}
	tok, err := p.ReadString()
	if err != nil || string(tok.Value) != "next" {
		t.Fatal(err, string(tok.Value))
	}
}
'''),
dict(id='binary-sized-block-buffer',property='C06',pkg='codec',
 edits=[('codec/binary.go','''			blkSize = -blkSize
			_, err := readLong(r)
			if err != nil {
				return nil, err
			}
		}
''','''			blkSize = -blkSize
			byteCount, err := readLong(r)
			if err != nil {
				return nil, err
			}

			// the whole block must be there
			block := make([]byte, byteCount)
			if _, err := io.ReadFull(r, block); err != nil {
				return nil, err
			}

			if _, err := r.Seek(-byteCount, io.SeekCurrent); err != nil {
				return nil, err
			}
		}
''')],
 needs='a sized block of tags whose declared size in bytes is negative or huge',
 breaks='the process panics or allocates far more memory than it has read',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	for i := 0; i < 3; i++ {
		writeLong(1, &b)
	}
	writeString("n", &b)
	writeString("s", &b)
	for i := 0; i < 6; i++ {
		writeLong(1, &b)
	}
	writeLong(-1, &b)
	writeLong(-8, &b)
	if _, err := BinaryDecode(bytes.NewReader(b.Bytes())); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='binary-skips-empty-tags',property='C09',pkg='codec',
 edits=[('codec/binary.go','''	err := writeLong(int64(len(r)), w)
	if err != nil || len(r) == 0 {
		return err
	}
	for k, e := range r {
		err = writeString(k, w)''','''	count := len(r)
	if _, ok := r[""]; ok {
		// a tag needs a name
		count--
	}
	err := writeLong(int64(count), w)
	if err != nil || count == 0 {
		return err
	}
	for k, e := range r {
		if k == "" {
			continue
		}
		err = writeString(k, w)''')],
 needs='a span with a tag whose key is empty',
 breaks='the tag is lost on the way',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("", "value")
	span.AddTag("key", "value")
	var b bytes.Buffer
	BinaryEncode(span, &b)
	decoded, err := BinaryDecode(bytes.NewReader(b.Bytes()))
	if err != nil || len(decoded.Tags) != 2 {
		t.Fatal(err, decoded)
	}
}
'''),
dict(id='binary-one-block',property='C09',pkg='codec',
 edits=[('codec/binary.go','''			m[key] = val
		}
	}
	return m, nil
''','''			m[key] = val
		}

		// more than one block is only used for very large maps
		if len(m) < 1024 {
			if _, err := readLong(r); err != nil {
				return nil, err
			}
			break
		}
	}
	return m, nil
''')],
 needs='tags that are encoded as several blocks, as other avro encoders do it',
 breaks='all tags but those of the first block are lost',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	for i := 0; i < 3; i++ {
		writeLong(1, &b)
	}
	writeString("n", &b)
	writeString("s", &b)
	for i := 0; i < 6; i++ {
		writeLong(1, &b)
	}
	for i := 0; i < 2; i++ {
		writeLong(1, &b)
		writeString(fmt.Sprint("key", i), &b)
		writeString("value", &b)
	}
	writeLong(0, &b)
	span, err := BinaryDecode(bytes.NewReader(b.Bytes()))
	if err != nil || len(span.Tags) != 2 {
		t.Fatal(err, span)
	}
}
'''),
# ------------------------------------------------------------------ cache
dict(id='cache-no-copy-of-large',property='C13',pkg='cache',
 edits=[('cache/cache.go','''	key := byteSliceToString(value)

	binaryCacheLock.Lock()
	cachedValue''','''	key := byteSliceToString(value)

	// large values are hardly ever repeated
	if len(value) > 2048 {
		return key
	}

	binaryCacheLock.Lock()
	cachedValue''')],
 needs='a string of more than 2048 bytes from a buffer that is used again later',
 breaks='the returned string changes with the buffer',
 demo='''
package cache

import (
	"bytes"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	buffer := bytes.Repeat([]byte("x"), 3000)
	value := StringForByteSliceCopy(buffer)
	copy(buffer, "other")
	if value != strings.Repeat("x", 3000) {
		t.Fatal("the string changed")
	}
}
'''),
dict(id='cache-evicts-ahead',property='C14',pkg='cache',
 edits=[('cache/lru.go','''func (c *lruCache) ensureCacheSize() {
	for c.Size() >= c.maxSize {
''','''func (c *lruCache) ensureCacheSize() {
	if c.Size() < c.maxSize {
		return
	}

	// make some more room, so that we dont need to do that every time
	for c.Size() >= c.maxSize-c.maxSize/16 {
''')],
 needs='a full cache and lookups of the least recently used strings',
 breaks='strings are dropped although there is room for them',
 demo='''
package cache

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewLRUCache(100 * (itemOverhead + 2))
	for i := 10; i < 99; i++ {
		c.Set(fmt.Sprint(i))
	}
	for i := 10; i < 99; i++ {
		c.Set(fmt.Sprint("a", i)[1:])
	}
	for i := 0; c.Size() < c.maxSize; i++ {
		c.Set(fmt.Sprintf("%02x", 0xa0+i))
	}
	count := c.Count()
	c.Set("zz")
	if c.Count() < count {
		t.Fatal("dropped more than needed", count, c.Count())
	}
}
'''),
# ------------------------------------------------------------------ ids
dict(id='id-signed-hex',property='C27',pkg='proxy',
 edits=[('proxy/id.go','''func (id *Id) MarshalJSON() ([]byte, error) {
	value := int64(*id)

	bytes := [8]byte{
		byte((value >> 56) & 0xff),
		byte((value >> 48) & 0xff),
		byte((value >> 40) & 0xff),
		byte((value >> 32) & 0xff),
		byte((value >> 24) & 0xff),
		byte((value >> 16) & 0xff),
		byte((value >> 8) & 0xff),
		byte(value & 0xff),
	}

	var encoded [18]byte
	hex.Encode(encoded[1:], bytes[:])

	// the result is a json string
	encoded[0] = '"'
	encoded[17] = '"'

	return encoded[:], nil
''','''func (id *Id) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`"%016x"`, int64(*id))), nil
''')],
 needs='an id with the highest bit set',
 breaks='the id is written as negative number, which can not be read back',
 demo='''
package proxy

import (
	"encoding/json"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	id := Id(-1)
	text, err := json.Marshal(&id)
	if err != nil || string(text) != `"ffffffffffffffff"` {
		t.Fatal(err, string(text))
	}
}
'''),
# ------------------------------------------------------------------ collector
dict(id='collector-last-trace',property='C15',pkg='.',
 edits=[('correct.go','''	blacklistedTraces := map[Id]none{}

	for {''','''	blacklistedTraces := map[Id]none{}

	// spans of a trace mostly come one after the other
	var lastTrace *tree

	for {'''),('correct.go','''			trace := traces[span.Trace]
			if trace == nil {
				trace = newTree(span.Trace)
				traces[span.Trace] = trace
			}
''','''			trace := lastTrace
			if trace == nil || trace.traceId != span.Trace {
				trace = traces[span.Trace]
			}

			if trace == nil {
				trace = newTree(span.Trace)
				traces[span.Trace] = trace
			}

			lastTrace = trace
''')],
 needs='a trace that gets another span after it was emitted, without a span of another trace in between',
 breaks='the span is added to the emitted trace and lost (and changes what was emitted)',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 2; i++ {
			in <- seedSpan(1, 1, 1)
			time.Sleep(10 * time.Second)
			if traces := got(); len(traces) != 1 || len(traces[0]) != 1 {
				t.Fatalf("round %d: %v", i, traces)
			}
		}
	})
}
'''),
dict(id='collector-few-per-tick',property='C15',pkg='.',
 edits=[('correct.go','''	deadlineStarted := time.Now().Add(-5 * bufferTime)

''','''	deadlineStarted := time.Now().Add(-5 * bufferTime)

	// dont block the input for too long
	remaining := 128

'''),('correct.go','''		if !traceTooLarge && !traceTooOld && updatedRecently {
			continue
		}
''','''		if !traceTooLarge && !traceTooOld && updatedRecently {
			continue
		}

		if remaining--; remaining < 0 {
			break
		}
''')],
 needs='a few thousand traces that go quiet at about the same time',
 breaks='traces are emitted seconds after they went quiet',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(1); i <= 3000; i++ {
			in <- seedSpan(i, i, i)
		}
		time.Sleep(9 * time.Second)
		if traces := got(); len(traces) != 3000 {
			t.Fatalf("%d traces", len(traces))
		}
	})
}
'''),
dict(id='collector-merge-without-tags',property='C16',pkg='.',
 edits=[('correct.go','''		// backup client values, so we can overwrite server values from newSpan later
''','''		// nothing to merge
		if spanToUpdate.Tags != nil && len(newSpan.Tags) == 0 && !newSpan.Timings.CS.IsValid() {
			metricsSpansMerged.Mark(1)
			return
		}

		// backup client values, so we can overwrite server values from newSpan later
''')],
 needs='a client report that only has the client-receive time and no tags, which comes after another report of the span',
 breaks='the client-receive time is lost',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		first := seedSpan(1, 1, 1)
		first.AddTag("a", "b")
		first.Timings.CS = seedBase
		in <- first
		second := seedSpan(1, 1, 1)
		second.Timings.CR = seedBase + 1000
		in <- second
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 || traces[0][0].Timings.CR == 0 {
			t.Fatalf("%v", traces)
		}
	})
}
'''),
dict(id='collector-limited-depth',property='C17',pkg='.',
 edits=[('correct.go','''	for _, child := range tree.ChildrenOf(node.Id) {
		correctTreeTimings(tree, child, node, offset)
	}
''','''	// spans without an offset to propagate dont need a correction
	if offset == 0 && parent != nil && node.Timestamp == parent.Timestamp {
		return
	}

	for _, child := range tree.ChildrenOf(node.Id) {
		correctTreeTimings(tree, child, node, offset)
	}
''')],
 needs='a span without skew that starts at the same time as its parent and that has children that need a correction',
 breaks='the children and all their descendants are not corrected',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		in <- seedSpan(1, 1, 1)
		in <- seedSpan(1, 2, 1)
		broken := seedSpan(1, 3, 2)
		broken.Timestamp = 5
		in <- broken
		time.Sleep(10 * time.Second)
		traces := got()
		if len(traces) != 1 {
			t.Fatal(traces)
		}
		for _, span := range traces[0] {
			if span.Timestamp != seedBase {
				t.Fatal(span)
			}
		}
	})
}
'''),
dict(id='collector-missing-root-only',property='C18',pkg='.',
 edits=[('correct.go','''		if spans[0].Parent != span.Parent {
			return false
		}
	}

	return true
''','''		if spans[0].Parent != span.Parent || span.IsRoot() {
			return false
		}
	}

	// a span that is its own trace's root must not be replaced
	return !(spans[0].Parent == spans[0].Trace && len(spans) > 64)
''')],
 needs='a trace with more than 64 root candidates that all name the trace id as their missing parent',
 breaks='the trace is not emitted',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(2); i < 102; i++ {
			in <- seedSpan(1, i, 1)
		}
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 101 {
			t.Fatalf("%v", traces)
		}
	})
}
'''),
dict(id='collector-large-with-fake-root',property='C19',pkg='.',
 edits=[('correct.go','''		if len(roots) != 1 {
			// we don't have a root''','''		if trace.nodeCount > 8*1024 {
			blacklist[traceID] = none{}
			metricsTracesTooLarge.Mark(1)
			continue
		}

		if len(roots) != 1 {
			// we don't have a root''')],
 needs='a trace of exactly 8192 spans whose root is missing',
 breaks='the trace is cut off although it is within the limits',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(2); i < 8194; i++ {
			in <- seedSpan(1, i, 1)
		}
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 1 || len(traces[0]) != 8193 {
			t.Fatalf("%d", len(traces))
		}
	})
}
'''),
dict(id='collector-forgets-blacklist',property='C19',pkg='.',
 edits=[('correct.go','''	blacklistedTraces := map[Id]none{}

	for {''','''	blacklistedTraces := map[Id]none{}

	forget := time.NewTicker(10 * time.Minute)
	defer forget.Stop()

	for {'''),('correct.go','''		case <-ticker.C:
			finishTraces''','''		case <-forget.C:
			// nothing of those traces is to be expected any more
			blacklistedTraces = map[Id]none{}

		case <-ticker.C:
			finishTraces''')],
 needs='a span of a trace that was cut off some minutes ago',
 breaks='the rest of a trace that was cut off is emitted as a trace of its own',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 60; i++ {
			in <- seedSpan(1, 1, 1)
			time.Sleep(time.Second)
		}
		time.Sleep(11 * time.Minute)
		in <- seedSpan(1, 1, 1)
		time.Sleep(10 * time.Second)
		if traces := got(); len(traces) != 0 {
			t.Fatalf("%v", traces)
		}
	})
}
'''),
dict(id='collector-discards-few',property='C20',pkg='.',
 edits=[('correct.go','''	// remove the traces with the most spans.
	for _, trace := range traces {
		if spanCount < maxSpans {
''','''	// remove the traces with the most spans.
	for idx, trace := range traces {
		if spanCount < maxSpans || idx >= 1000 {
''')],
 needs='more than 100 000 spans in very many small traces',
 breaks='more than 100 000 spans are still held after traces were discarded',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := proxy.Id(1); i <= 105000; i++ {
			in <- seedSpan(i, i, i)
		}
		time.Sleep(time.Minute)
		if traces := got(); len(traces) >= 100000 {
			t.Fatalf("%d", len(traces))
		}
	})
}
'''),
dict(id='collector-blacklist-counts-once',property='C21',pkg='.',
 edits=[('correct.go','''			if _, ok := blacklistedTraces[span.Trace]; ok {
				metricsReceivedBlacklistedSpan.Mark(1)
				continue
			}
''','''			if _, ok := blacklistedTraces[span.Trace]; ok {
				if span.Trace != lastBlacklisted {
					metricsReceivedBlacklistedSpan.Mark(1)
					lastBlacklisted = span.Trace
				}
				continue
			}
'''),('correct.go','''	blacklistedTraces := map[Id]none{}

	for {''','''	blacklistedTraces := map[Id]none{}
	var lastBlacklisted Id

	for {''')],
 needs='two spans in a row of the same trace that was cut off',
 breaks='only the first of them is counted',
 demo=VT+'''
func TestSeedDemo(t *testing.T) {
	meter := metrics.GetOrRegisterMeter("blacklist.span.received", nil)
	seedCollect(t, func(in chan<- proxy.Span, got func() []proxy.Trace) {
		for i := 0; i < 45; i++ {
			in <- seedSpan(1, 1, 1)
			time.Sleep(time.Second)
		}
		before := meter.Count()
		in <- seedSpan(1, 1, 1)
		in <- seedSpan(1, 1, 1)
		got()
		if n := meter.Count() - before; n != 2 {
			t.Fatal(n)
		}
	})
}
'''),
# ------------------------------------------------------------------ sink, buffer, forward
dict(id='sink-parent-of-root',property='C22',pkg='datadog',
 edits=[('datadog/converter.go','''				*converted = tracer.Span{
''','''				// root spans have no parent
				parent := span.Parent
				if span.IsRoot() {
					parent = 0
				}

				*converted = tracer.Span{
'''),('datadog/converter.go','''					ParentID: span.Parent.Uint64(),
''','''					ParentID: parent.Uint64(),
''')],
 needs='a span that is its own parent',
 breaks='its parent id is changed to zero',
 demo=SINK+'''
func TestSeedDemo(t *testing.T) {
	transport := make(seedTransport, 8)
	traces := make(chan proxy.Trace)
	go Sink(transport, traces)
	traces <- proxy.Trace{proxy.NewSpan("name", 1, 1, 1)}
	if sent := <-transport; sent[0][0].ParentID != 1 {
		t.Fatal(sent[0][0].ParentID)
	}
}
'''),
dict(id='buffer-returns-own-memory',property='C25',pkg='.',
 edits=[('buffer.go','''	var result []proxy.Span
	for offset''','''	// nothing to sort if the ring just started again
	if buffer.position == 0 && buffer.spans[0].Id != 0 {
		return buffer.spans
	}

	var result []proxy.Span
	for offset''')],
 needs='a list that is requested when the ring has just been filled completely, and spans that come in later',
 breaks='the list that was returned changes later (a data race)',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	buffer := NewSpansBuffer(4)
	traces := make(chan proxy.Trace)
	go buffer.ReadFrom(traces)
	add := func(from, to int) {
		var trace proxy.Trace
		for i := from; i < to; i++ {
			trace = append(trace, proxy.NewSpan("n", 1, proxy.Id(i), 1))
		}
		traces <- trace
		traces <- nil // the previous one is done
	}
	add(1, 5)
	list := buffer.ToSlice()
	add(5, 7)
	if list[0].Id != 1 {
		t.Fatal("the list changed")
	}
}
'''),
dict(id='forward-needs-parent',property='C26',pkg='.',
 edits=[('main.go','''			if err != nil || converted.Id == 0 || converted.Trace == 0 {
				continue
			}
''','''			if err != nil || converted.Id.IsUnknown() || converted.Trace.IsUnknown() || converted.Parent.IsUnknown() {
				continue
			}
''')],
 needs='a converted span without a parent id',
 breaks='it is not passed on, although the converter did not reject it',
 demo=ROOT+'''
func TestSeedDemo(t *testing.T) {
	source, target := make(chan proxy.Trace, 1), make(chan proxy.Trace, 1)
	source <- proxy.Trace{proxy.NewSpan("n", 1, 1, 0)}
	close(source)
	forwardSpansToChannels(source, []chan<- proxy.Trace{target}, func(span proxy.Span) (proxy.Span, error) { return span, nil })
	if trace := <-target; len(trace) != 1 {
		t.Fatal(trace)
	}
}
'''),
# ------------------------------------------------------------------ http
dict(id='http-exact-content-type',property='C01',pkg='.',
 edits=[('handlers.go','''		if strings.Contains(req.Header.Get("Content-Type"), "application/json") {
''','''		if strings.HasSuffix(req.Header.Get("Content-Type"), "application/json") {
'''),],
 needs='a v1 document with the content type application/json; charset=utf-8',
 breaks='valid documents are rejected',
 demo=ROOT.replace('import (','import (\n\t"net/http/httptest"\n\t"strings"\n\n\t"github.com/julienschmidt/httprouter"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	handleSpans(router, make(chan proxy.Span, 10))
	req := httptest.NewRequest("POST", "/api/v1/spans", strings.NewReader(`[{"traceId": "1", "id": "1"}]`))
	req.Header.Set("Content-Type", "application/json; charset=utf-8")
	w := httptest.NewRecorder()
	router.ServeHTTP(w, req)
	if w.Code != 202 {
		t.Fatal(w.Code)
	}
}
'''),
dict(id='http-pooled-gzip',property='C01',pkg='.',
 edits=[('handlers.go','''			body, err := gzip.NewReader(req.Body)
			if err != nil {
				http.Error(writer, err.Error(), http.StatusBadRequest)
				return
			}
''','''			body := gzipReaders.Get().(*gzip.Reader)
			defer gzipReaders.Put(body)

			if err := body.Reset(req.Body); err != nil {
				http.Error(writer, err.Error(), http.StatusBadRequest)
				gzipReaders.Put(body)
				return
			}
'''),('handlers.go','''func handleGzipRequestBody(''','''var gzipReaders = sync.Pool{
	New: func() interface{} {
		return new(gzip.Reader)
	},
}

func handleGzipRequestBody('''),('handlers.go','''	"net/http"
	"strings"
''','''	"net/http"
	"strings"
	"sync"
''')],
 needs='a request with a broken gzip header, and two concurrent gzip requests after it',
 breaks='two requests share one gzip reader: they get each others spans, fail or crash',
 demo=ROOT.replace('import (','import (\n\t"bytes"\n\t"compress/gzip"\n\t"io"\n\t"net/http"\n\t"net/http/httptest"\n\t"runtime/debug"\n')+'''
func TestSeedDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	handler := handleGzipRequestBody(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		buf := make([]byte, 10)
		io.ReadFull(req.Body, buf)
		if req.URL.Path == "/outer" {
			// another request comes in while this one is being read
			inner := <-nested
			inner()
		}
		rest, _ := io.ReadAll(req.Body)
		w.Write(append(buf, rest...))
	}))
	get := func(path, text string) string {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write([]byte(text))
		z.Close()
		req := httptest.NewRequest("POST", path, &b)
		req.Header.Set("Content-Encoding", "gzip")
		w := httptest.NewRecorder()
		handler.ServeHTTP(w, req)
		return w.Body.String()
	}
	for i := 0; i < 20; i++ {
		bad := httptest.NewRequest("POST", "/", bytes.NewReader([]byte("no gzip at all")))
		bad.Header.Set("Content-Encoding", "gzip")
		handler.ServeHTTP(httptest.NewRecorder(), bad)
		nested <- func() { get("/inner", "the text of the inner request") }
		if text := get("/outer", "the text of the outer request"); text != "the text of the outer request" {
			t.Fatal(text)
		}
	}
}

var nested = make(chan func(), 1)
'''),
dict(id='http-jaeger-timer',property='C30',pkg='.',
 edits=[('handlers.go','''		metrics.GetOrRegisterTimer("spans.receive[type:jaeger]", nil).Time(func() {
			err = parseSpansWithJSON(spans, req.Body, codec.ParseJaeger)
		})
''','''		started := time.Now()
		if err = parseSpansWithJSON(spans, req.Body, codec.ParseJaeger); err == nil {
			metrics.GetOrRegisterTimer("spans.receive[type:jaeger]", nil).UpdateSince(started)
		}
'''),('handlers.go','''	"net/http"
	"strings"
''','''	"net/http"
	"strings"
	"time"
''')],
 needs='a jaeger document that is rejected',
 breaks='the number of handled jaeger requests on the metrics page does not agree with the requests',
 demo=ROOT.replace('import (','import (\n\t"net/http/httptest"\n\t"strings"\n\n\t"github.com/julienschmidt/httprouter"\n')+'''
func TestSeedDemo(t *testing.T) {
	router := httprouter.New()
	handleSpans(router, make(chan proxy.Span, 10))
	for _, body := range []string{`{"data": []}`, `{`} {
		router.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/api/jaeger/spans", strings.NewReader(body)))
	}
	if n := metrics.GetOrRegisterTimer("spans.receive[type:jaeger]", nil).Count(); n != 2 {
		t.Fatal(n)
	}
}
'''),
# ------------------------------------------------------------------ kafka
dict(id='sender-select-errors',property='C11',pkg='balance',
 edits=[('balance/sender.go','''	s.producer.Input() <- makeProducerMessage(span, s.topic)
''','''	select {
	case s.producer.Input() <- makeProducerMessage(span, s.topic):
	case err := <-s.producer.Errors():
		log.Warnf("Could not send span to kafka: %s", err)
	}
'''),('balance/sender.go','''	// the producer blocks if nobody reads the errors it reports.
	go logProducerErrors(producer)

''',''),('balance/sender.go','''func logProducerErrors(producer sarama.AsyncProducer) {
	for err := range producer.Errors() {
		log.Warnf("Could not send span to kafka: %s", err)
	}
}

''','')],
 needs='a span whose delivery failed, and another one that is sent after it',
 breaks='the span that is being sent when an error is reported is lost',
 demo=KAFKA_HEAD+'''
type seedProducer struct {
	sarama.AsyncProducer
	input  chan *sarama.ProducerMessage
	errors chan *sarama.ProducerError
}

func (p *seedProducer) Input() chan<- *sarama.ProducerMessage   { return p.input }
func (p *seedProducer) Errors() <-chan *sarama.ProducerError    { return p.errors }

func TestSeedDemo(t *testing.T) {
	producer := &seedProducer{input: make(chan *sarama.ProducerMessage, 1000), errors: make(chan *sarama.ProducerError, 1000)}
	for i := 0; i < 1000; i++ {
		producer.errors <- &sarama.ProducerError{Err: errors.New("failed"), Msg: &sarama.ProducerMessage{}}
	}
	spans := make(chan proxy.Span)
	go (&Sender{producer, "t"}).Send(spans)
	for i := 1; i <= 100; i++ {
		spans <- seedSpan(i, "n")
	}
	close(spans)
	time.Sleep(100 * time.Millisecond)
	if n := len(producer.input); n != 100 {
		t.Fatalf("%d of 100 spans", n)
	}
}
'''),
dict(id='consumer-drains-and-marks',property='C12',pkg='balance',
 edits=[('balance/receiver.go','''		proxySpan, err := decodeKafkaMessage(message)
''','''		// the session is ending, just drain the channel
		if session.Context().Err() != nil {
			session.MarkMessage(message, "")
			continue
		}

		proxySpan, err := decodeKafkaMessage(message)
''')],
 needs='messages that are fetched already when a session ends',
 breaks='they are acknowledged without being handed over',
 demo=KAFKA_HEAD+'''
type seedDone struct{ *seedSession }

func (s seedDone) Context() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

func TestSeedDemo(t *testing.T) {
	claim := &seedClaim{messages: make(chan *sarama.ConsumerMessage, 10)}
	claim.messages <- seedMessage(1)
	close(claim.messages)
	seen := map[proxy.Id]bool{}
	handler := &consumerGroupHandler{callback: func(span proxy.Span) { seen[span.Id] = true }}
	handler.ConsumeClaim(seedDone{&seedSession{mark: func(m *sarama.ConsumerMessage) {
		if !seen[proxy.Id(m.Offset)] {
			t.Error("acknowledged, but not handed over")
		}
	}}}, claim)
}
'''),
dict(id='kafka-small-messages',property='C29',pkg='.',extra={'seedkafka':KAFKALIB},
 edits=[('main.go','''	opts.Kafka.Inputs.KafkaConfig.Producer.MaxMessageBytes = 768 * 1024
''','''	opts.Kafka.Inputs.KafkaConfig.Producer.MaxMessageBytes = 64 * 1024
''')],
 needs='a span of more than 64 kB',
 breaks='the span is accepted over HTTP but never published',
 demo=MAIN+'''
func TestSeedDemo(t *testing.T) {
	cluster, err := seedkafka.Start(1, nil)
	if err != nil {
		t.Fatal(err)
	}
	post := seedRun(t, func(span proxy.Span) (proxy.Span, error) {
		return span, nil
	}, "--kafka-disable-tls", "--kafka-address", cluster.Addrs()[0])
	for i, size := range []int{10, 200000} {
		post(fmt.Sprintf(`[{"traceId": "%x", "id": "%x", "name": "n", "timestamp": %d, "duration": 1000, "tags": {"sql": "%s"}}]`, i+1, i+1, time.Now().UnixNano()/1000, strings.Repeat("x", size)))
	}
	for i := 0; len(cluster.Records(0)) < 2; i++ {
		if i > 200 {
			t.Fatal("spans were not published")
		}
		time.Sleep(100 * time.Millisecond)
	}
}
'''),
]
