CODEC='''
package codec

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

var _ = bytes.NewReader
var _ = fmt.Sprint
var _ io.Reader
var _ = runtime.GC
var _ = strings.Repeat
var _ sync.Mutex
var _ = iotest.ErrReader
var _ = time.Second
var _ proxy.Span

'''
BUGS=[
dict(id='v1-server-timings-win',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''	sr := proxySpan.Timings.SR
	ss := proxySpan.Timings.SS
	if sr > 0 && ss > 0 {
		proxySpan.Timestamp = sr
		proxySpan.Duration = time.Duration(ss - sr)
	}

	cs := proxySpan.Timings.CS
	cr := proxySpan.Timings.CR
	if cs > 0 && cr > 0 {
		proxySpan.Timestamp = cs
		proxySpan.Duration = time.Duration(cr - cs)
	}
''','''	timings := proxySpan.Timings
	for _, interval := range [][2]proxy.Timestamp{{timings.CS, timings.CR}, {timings.SR, timings.SS}} {
		if interval[0] > 0 && interval[1] > 0 {
			proxySpan.Timestamp = interval[0]
			proxySpan.Duration = time.Duration(interval[1] - interval[0])
		}
	}
''')],
 needs='a span that carries both the client and the server annotations in one document',
 breaks='its start and duration are those of the server instead of those of the client',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "annotations": [
		{"timestamp": 1000, "value": "cs"}, {"timestamp": 2000, "value": "cr"},
		{"timestamp": 1200, "value": "sr"}, {"timestamp": 1700, "value": "ss"}]}]`))
	if err != nil || spans[0].Timestamp != 1000000 || spans[0].Duration != time.Millisecond {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v1-service-of-last-annotation',property='C02',pkg='codec',
 edits=[('codec/json-v1.go','''		if annotation.Timestamp == 0 {
			continue
		}

		proxySpan.AddTiming(annotation.Value,
			proxy.Microseconds(int64(annotation.Timestamp)))

''','''		if annotation.Timestamp == 0 {
			break
		}

		proxySpan.AddTiming(annotation.Value,
			proxy.Microseconds(int64(annotation.Timestamp)))

''')],
 needs='an annotation without (or with a zero) timestamp in front of others',
 breaks='the annotations behind it are ignored: timings and service name are lost',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "annotations": [
		{"value": "note"}, {"timestamp": 2000, "value": "cr", "endpoint": {"serviceName": "x"}}]}]`))
	if err != nil || spans[0].Timings.CR != 2000000 || spans[0].Service != "x" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='v2-timings-without-duration',property='C03',pkg='codec',
 edits=[('codec/json-v2.go','''	if proxySpan.Duration == 0 {
		proxySpan.Duration = 1 * time.Millisecond
	}

	if strings.EqualFold(span.Kind, "client") {''','''	defer func() {
		if proxySpan.Duration == 0 {
			proxySpan.Duration = 1 * time.Millisecond
		}
	}()

	if strings.EqualFold(span.Kind, "client") {''')],
 needs='a client or server span without a duration',
 breaks='the duration of 1 ms is not set (or, at least, the end time of the timings equals their start)',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "timestamp": 1000, "kind": "SERVER"}]`))
	if err != nil || spans[0].Duration != time.Millisecond || spans[0].Timings.SS != 2000000 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='jaeger-follows-from',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''		if ref.RefType == "CHILD_OF" {
			parentId = ref.SpanId
		}
''','''		// prefer the parent that waits for this span
		if ref.RefType == "CHILD_OF" || parentId == span.SpanId {
			parentId = ref.SpanId
		}
''')],
 needs='a span whose only reference is FOLLOWS_FROM',
 breaks='the span that it follows becomes its parent, though it is a root by the rules of the decoder',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [{"spans": [{"traceID": "1", "spanID": "2", "references": [{"refType": "FOLLOWS_FROM", "spanID": "7"}]}]}]}`))
	if err != nil || spans[0].Parent != 2 {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='jaeger-shared-processes',property='C04',pkg='codec',
 edits=[('codec/jaeger.go','''	for _, dataObject := range decoded.Data {
		for _, span := range dataObject.Spans {
			parsedSpans = append(parsedSpans, span.ToSpan(dataObject.Processes))
		}
	}
''','''	// a process might be described with another part of the trace only
	procs := map[string]jaegerProcess{}
	for _, dataObject := range decoded.Data {
		for id, proc := range dataObject.Processes {
			procs[id] = proc
		}
	}

	for _, dataObject := range decoded.Data {
		for _, span := range dataObject.Spans {
			parsedSpans = append(parsedSpans, span.ToSpan(procs))
		}
	}
''')],
 needs='a document with more than one data object, using the same process id for different services',
 breaks='spans get the service name of a process of another data object',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJaeger(strings.NewReader(`{"data": [
		{"spans": [{"traceID": "1", "spanID": "2", "processID": "p1"}], "processes": {"p1": {"serviceName": "a"}}},
		{"spans": [{"traceID": "3", "spanID": "4", "processID": "p1"}], "processes": {"p1": {"serviceName": "b"}}}]}`))
	if err != nil || spans[0].Service != "a" || spans[1].Service != "b" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='json-escape-at-buffer-end',property='C05',pkg='codec',
 edits=[('codec/hyperjson/parser.go','''	p.tail++
	var n int
	var escapeNext bool
	var stringHasEscaping bool
	for {
		avail := p.available()
		for''','''	p.tail++
	var n int
	var stringHasEscaping bool
	for {
		var escapeNext bool
		avail := p.available()
		for''')],
 needs='a string with an escaped quote whose backslash is the last byte in the buffer when more data is read',
 breaks='the string ends at the escaped quote and the rest of the document is misread',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	spans, err := ParseJsonV2(iotest.OneByteReader(strings.NewReader(`[{"traceId": "1", "id": "1", "name": "a\\"b"}]`)))
	if err != nil || spans[0].Name != "a\\"b" {
		t.Fatalf("%v %+v", err, spans)
	}
}
'''),
dict(id='json-literal-at-buffer-end',property='C05',pkg='codec',
 edits=[('codec/hyperjson/parser.go','''			p.buffer = make([]byte, p.available()+n)
			copy(p.buffer[:len(buf)], buf)
''','''			p.buffer = make([]byte, p.available()+n)
			p.head = copy(p.buffer, buf[p.tail:p.head])
''')],
 needs='a literal (true, false, null) at a position of a small buffer where it does not fit any more',
 breaks='the position of the reader is kept although the bytes were moved: the literal is read from the wrong place, or an error is reported',
 demo='''
package hyperjson

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	text := `[1, true, null, false, "x", true]`
	for size := 1; size < 40; size++ {
		p := NewWithReader(strings.NewReader(text), make([]byte, size))
		var got []string
		err := p.ReadArray(func() error {
			tok, err := p.ReadLiteral()
			got = append(got, string(tok.Value))
			return err
		})
		if err != nil || strings.Join(got, " ") != "1 true null false x true" {
			t.Fatalf("buffer of %d: %v %q", size, err, got)
		}
	}
}
'''),
dict(id='binary-map-preallocated',property='C06',pkg='codec',
 edits=[('codec/binary.go','''	m := make(map[string]string)
	for {''','''	var m map[string]string
	for {'''),('codec/binary.go','''		for i := int64(0); i < blkSize; i++ {
			key, err := readString(r)''','''		if m == nil {
			// usually there is one block only
			m = make(map[string]string, blkSize)
		}
		for i := int64(0); i < blkSize; i++ {
			key, err := readString(r)''')],
 needs='a damaged binary span that declares a tag map with very many entries',
 breaks='the decoder allocates memory for all the declared entries before it reads them: some bytes are enough to exhaust the memory',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var buf bytes.Buffer
	for i := 0; i < 11; i++ {
		writeLong(0, &buf)
	}
	writeLong(20_000_000, &buf)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	if _, err := BinaryDecode(bytes.NewReader(buf.Bytes())); err == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > 10_000_000 {
		t.Fatalf("%d bytes allocated for an input of %d bytes", used, buf.Len())
	}
}
'''),
dict(id='binary-missing-terminator',property='C07',pkg='codec',
 edits=[('codec/binary.go','''		blkSize, err := readLong(r)
		if err != nil {
			return nil, err
		}
		if blkSize == 0 {
			break
		}
''','''		blkSize, err := readLong(r)
		if err == io.EOF && len(m) > 0 {
			// that was all
			break
		}
		if err != nil {
			return nil, err
		}
		if blkSize == 0 {
			break
		}
''')],
 needs='a binary span with tags that is cut right before its last byte',
 breaks='the span is accepted although it is not complete (there might have been another block of tags)',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	span := proxy.NewSpan("n", 1, 1, 1)
	span.AddTag("a", "b")
	var buf bytes.Buffer
	BinaryEncode(span, &buf)
	if _, err := BinaryDecode(bytes.NewReader(buf.Bytes()[:buf.Len()-1])); err == nil {
		t.Fatal("a span that is cut was accepted")
	}
}
'''),
dict(id='binary-sized-blocks',property='C09',pkg='codec',
 edits=[('codec/binary.go','''			blkSize = -blkSize
			_, err := readLong(r)
			if err != nil {
				return nil, err
			}
''','''			blkSize = -blkSize
			if _, err := r.ReadByte(); err != nil {
				return nil, err
			}
''')],
 needs='a tag map whose blocks carry their size, with a block of 64 bytes or more',
 breaks='the size is not skipped completely and the span is misread',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var buf bytes.Buffer
	for i := 0; i < 11; i++ {
		writeLong(0, &buf)
	}
	value := strings.Repeat("x", 100)
	writeLong(-1, &buf)
	writeLong(104, &buf)
	writeString("k", &buf)
	writeString(value, &buf)
	writeLong(0, &buf)
	span, err := BinaryDecode(bytes.NewReader(buf.Bytes()))
	if err != nil || len(span.Tags) != 1 || span.Tags["k"] != value {
		t.Fatalf("%v %+v", err, span)
	}
}
'''),
dict(id='binary-early-put',property='C08',pkg='codec',race=True,
 edits=[('codec/binary.go','''		defer bufferPool.Put(byteSliceIf)

		// read the data
		_, err = io.ReadFull(r, bb)
		if err != nil {
			return "", err
		}
''','''		// read the data
		_, err = io.ReadFull(r, bb)
		bufferPool.Put(byteSliceIf)
		if err != nil {
			return "", err
		}
''')],
 needs='several decoders at work at the same time, one of which takes the buffer another one has just returned but still reads',
 breaks='a string of one span is overwritten with the text of another one before it is copied, a data race',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			for i := 0; i < 4000; i++ {
				text := strings.Repeat(fmt.Sprint(c, " ", i, " "), 200)
				span := proxy.NewSpan(text, 1, 1, 1)
				span.Service = "s" + text
				var buf bytes.Buffer
				BinaryEncode(span, &buf)
				got, err := BinaryDecode(bytes.NewReader(buf.Bytes()))
				if err != nil || got.Name != text || got.Service != "s"+text {
					t.Errorf("%v %.100q", err, got.Name)
					return
				}
			}
		}(c)
	}
	wg.Wait()
}
'''),
dict(id='v1-stale-duration',property='C08',pkg='codec',
 edits=[('codec/json-v1.go','''		span.ParentID = 0
		span.Duration = 0
		span.Timestamp = 0
		span.Name = ""
''','''		span.ParentID = 0
		span.Name = ""

		// every span has a time, with or without a duration
		if span.Timestamp != 0 {
			span.Timestamp = 0
			span.Duration = 0
		}
''')],
 needs='a span with a duration but without a timestamp in one document, and a span without a duration at the same position in a later one, decoded with the pooled slice',
 breaks='the later span gets the duration of the earlier one',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 100; i++ {
		if _, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1", "duration": 777}]`)); err != nil {
			t.Fatal(err)
		}
		spans, err := ParseJsonV1(strings.NewReader(`[{"traceId": "1", "id": "1"}]`))
		if err != nil || spans[0].Duration != time.Millisecond {
			t.Fatalf("%v %+v", err, spans)
		}
	}
}
'''),
dict(id='value-not-copied',property='C08',pkg='codec',
 edits=[('codec/util.go','package codec\n','package codec\n'),] if False else [('codec/json.go','''	// assign to target
	*(*string)(target) = cache.StringForByteSliceCopy(tok.Value)
''','''	if tok.Type != hyperjson.TypeString {
		// just a few bytes, there is no need to keep them twice
		*(*string)(target) = cache.StringForByteSliceNoCopy(tok.Value)
		return nil
	}

	// assign to target
	*(*string)(target) = cache.StringForByteSliceCopy(tok.Value)
''')],
 needs='a number or boolean as value of a binary annotation; the text changes once the buffer is used again',
 breaks='the tag value refers to the pooled buffer and changes with the next document; wrong strings get into the interning cache as well',
 demo=CODEC+'''
func TestSeedDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 50; i++ {
		value := fmt.Sprint(1000000 + i)
		doc := `[{"traceId": "1", "id": "1", "binaryAnnotations": [{"key": "k", "value": ` + value + `}]}]`
		spans, err := ParseJsonV1(strings.NewReader(doc))
		if err != nil {
			t.Fatal(err)
		}
		ParseJsonV2(strings.NewReader(`[{"traceId": "1", "id": "1", "name": "` + strings.Repeat("y", 1000) + `"}]`))
		if spans[0].Tags["k"] != value {
			t.Fatalf("%q instead of %q", spans[0].Tags["k"], value)
		}
	}
}
'''),
dict(id='cache-read-lock',property='C13',pkg='cache',race=True,
 edits=[('cache/cache.go','var binaryCacheLock sync.Mutex\n','var binaryCacheLock sync.RWMutex\n'),
 ('cache/cache.go','''	binaryCacheLock.Lock()
	cachedValue := binaryCache.Get(key)
	binaryCacheLock.Unlock()
''','''	binaryCacheLock.RLock()
	cachedValue := binaryCache.Get(key)
	binaryCacheLock.RUnlock()
''')],
 needs='concurrent lookups of different strings that are in the cache already',
 breaks='looking up a string moves it in the list of usage, which is now done by several goroutines at once: a data race that damages the list',
 demo='''
package cache

import (
	"fmt"
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				text := fmt.Sprint("string ", i%16)
				if got := String(text); got != text {
					t.Errorf("%q instead of %q", got, text)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='cache-evicts-once',property='C14',pkg='cache',
 edits=[('cache/lru.go','''	for c.Size() >= c.maxSize {
		el := c.usage.DropTail()
		if el == nil {
			log.Warnf("could not drop tail from list")
			continue
		}
''','''	if c.Size() >= c.maxSize {
		el := c.usage.DropTail()
		if el == nil {
			log.Warnf("could not drop tail from list")
			return
		}
''')],
 needs='many small strings in the cache and large ones after them',
 breaks='only one small string is dropped for each large one, so that the cache grows far beyond its limit',
 demo='''
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	cache := NewLRUCache(100_000)
	for i := 0; i < 2000; i++ {
		cache.Set(fmt.Sprint(i))
	}
	for i := 0; i < 100; i++ {
		cache.Set(strings.Repeat("x", 5000) + fmt.Sprint(i))
	}
	if cache.Size() > 106_000 {
		t.Fatalf("size is %d", cache.Size())
	}
}
'''),
dict(id='cache-second-keeps-place',property='C14',pkg='cache',
 edits=[('cache/lru.go','''	if l.head == e {
		return
	}
''','''	// the first two are safe anyway
	if l.head == e || (l.head != nil && l.head.next == e) {
		return
	}
''')],
 needs='a string that is used again while it is the second one in the list of usage, and not used any more before it is dropped',
 breaks='the string is dropped before one that was used less recently',
 demo='''
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	text := func(i int) string { return strings.Repeat("x", 1000) + fmt.Sprint(i) }
	cache := NewLRUCache(10_000)
	cache.Set(text(1))
	cache.Set(text(2))
	cache.Get(text(1))
	for i := 3; i < 30; i++ {
		cache.Set(text(i))
		_, one := cache.values[text(1)]
		_, two := cache.values[text(2)]
		if two && !one {
			t.Fatal("dropped the string that was used last")
		}
	}
}
'''),
dict(id='timestamp-of-microseconds',property='C27',pkg='proxy',
 edits=[('proxy/timestamp.go','	*ts = Timestamp(timestamp.UnixNano())\n','	*ts = Microseconds(timestamp.UnixMicro())\n')],
 needs='a timestamp that is not a multiple of a microsecond',
 breaks='the timestamp does not survive its JSON form',
 demo='''
package proxy

import (
	"encoding/json"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	ts := Timestamp(1600000000123456789)
	encoded, err := json.Marshal(ts)
	if err != nil {
		t.Fatal(err)
	}
	var got Timestamp
	if err := json.Unmarshal(encoded, &got); err != nil || got != ts {
		t.Fatalf("%v %d", err, got)
	}
}
'''),
dict(id='id-upper-case',property='C27',pkg='proxy',
 edits=[('proxy/id.go','''		switch {
		case '0' <= c && c <= '9':
			result = (result << 4) | Id(c-'0')

		case 'a' <= c && c <= 'f':
			result = (result << 4) | Id(c-'a') + 10

		case 'A' <= c && c <= 'F':
			result = (result << 4) | Id(c-'A') + 10
''','''		// lower case letters only differ in one bit
		switch lower := c | 0x20; {
		case '0' <= lower && lower <= '9':
			result = (result << 4) | Id(lower-'0')

		case 'a' <= lower && lower <= 'f':
			result = (result << 4) | Id(lower-'a') + 10
''')],
 needs='a control character between 0x10 and 0x19 in an identifier',
 breaks='the text is accepted as if it had digits there instead of being rejected',
 demo='''
package proxy

import "testing"

func TestSeedDemo(t *testing.T) {
	if id, err := ParseId([]byte("12\\x1134")); err == nil {
		t.Fatalf("accepted as %s", id)
	}
	if id, err := ParseId([]byte("12aBcD")); err != nil || id != 0x12abcd {
		t.Fatalf("%v %s", err, id)
	}
}
'''),
]
for b in BUGS:
    if b['id'].startswith('json-literal'): b['pkg']='codec/hyperjson'
