package c06

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dec"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// A decoder may allocate this much per byte it read (a span decoded from the two bytes {} needs about a kilobyte
// including the growth of the slice it is put into) on top of a fixed amount for its buffers.
const (
	allocPerByte = 3072
	allocFixed   = 2 << 20
)

type decoder struct {
	name  string
	parse func(io.Reader) ([]proxy.Span, error)
}

var decoders = []decoder{
	{"v1", codec.ParseJsonV1},
	{"v2", codec.ParseJsonV2},
	{"jaeger", codec.ParseJaeger},
	{"binary", nil},
}

type monitor struct {
	r   *rep.R
	rng *rand.Rand

	// most bytes allocated per byte read
	worst map[string]int
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

var errReader = errors.New("reader failed")

// run feeds one input to one decoder and observes panics, allocation and (by the watchdog) cpu time.
func (m *monitor) run(class string, d decoder, input []byte) {
	r := m.r
	reader := gen.NewReader(m.rng, input)
	if m.rng.IntN(10) == 0 {
		reader.With(errReader)
	}
	what := fmt.Sprintf("%s: %s input of %d bytes, reader %s", d.name, class, len(input), reader.Name)
	r.Progress(what)
	if len(input) < 1<<20 {
		r.Journal([]byte(what + "\n" + base64.StdEncoding.EncodeToString(input)))
	} else {
		r.Journal([]byte(what + "\n" + fmt.Sprintf("%.200q...", input)))
	}

	witness := func() any {
		if len(input) > 100_000 {
			return map[string]any{"what": what, "inputPrefix": base64.StdEncoding.EncodeToString(input[:2000]), "len": len(input)}
		}
		return map[string]any{"what": what, "inputBase64": base64.StdEncoding.EncodeToString(input)}
	}

	var outcome string
	var alloc uint64
	read := 0
	func() {
		defer func() {
			if p := recover(); p != nil {
				outcome = "panic"
				r.Violate("panic", fmt.Sprintf("%s: panic: %v", what, p), map[string]any{"input": witness(), "stack": string(debug.Stack())})
			}
		}()

		var spans []proxy.Span
		var err error
		if d.name == "binary" {
			in := bytes.NewReader(input)
			before := allocated()
			_, err = codec.BinaryDecode(in)
			alloc = allocated() - before
			read = len(input) - in.Len()
		} else {
			before := allocated()
			spans, err = d.parse(reader)
			alloc = allocated() - before
			read = reader.Delivered
		}
		switch {
		case err != nil && len(spans) > 0:
			outcome = "both"
			r.Violate("both", what+": returned spans together with an error", witness())
		case err != nil:
			outcome = "error"
		default:
			outcome = "ok"
		}
	}()

	if limit := uint64(allocFixed + allocPerByte*read); outcome != "panic" && alloc > limit {
		r.Violate("alloc", fmt.Sprintf("%s: allocated %d bytes for %d bytes read", what, alloc, read), witness())
	}
	if read > 0 && alloc > 1<<20 {
		m.worst[d.name] = max(m.worst[d.name], int(alloc)/read)
	}
	r.Eval(rep.Hash(d.name, input), len(input) > 2)
	r.Count(d.name+" "+outcome, 1)
	r.Count("class "+class, 1)
	r.Count("bytes read", read)
	r.Distinct("reader modes", rep.Hash(reader.Name))
}

var filler = strings.Repeat("x", 200_000)

// light only looks for panics.
func (m *monitor) light(d decoder, doc string) {
	defer func() {
		if p := recover(); p != nil {
			m.r.Violate("panic", fmt.Sprintf("%s: input of %d bytes with an odd escape: panic: %v", d.name, len(doc), p), map[string]any{"input": doc, "stack": string(debug.Stack())})
		}
	}()
	m.r.Progress("odd escapes anywhere")
	spans, err := d.parse(strings.NewReader(doc))
	if err != nil && len(spans) > 0 {
		m.r.Violate("both", d.name+": returned spans together with an error", doc)
	}
	m.r.Count("odd escapes anywhere", 1)
}

func (m *monitor) all(class string, input []byte) {
	for _, d := range decoders {
		m.run(class, d, input)
	}
}

func soup(rng *rand.Rand) []byte {
	var b strings.Builder
	if rng.IntN(2) == 0 {
		b.WriteString("[{")
	}
	for k := rng.IntN(300); k > 0; k-- {
		b.WriteString(gen.Tokens[rng.IntN(len(gen.Tokens))])
	}
	return []byte(b.String())
}

func varint(v int64) []byte { return binary.AppendVarint(nil, v) }

func binarySpan(rng *rand.Rand) []byte {
	var buf bytes.Buffer
	span := proxy.Span{Id: proxy.Id(rng.Uint64()), Trace: proxy.Id(rng.Uint64()), Name: gen.Text(rng), Service: gen.Text(rng), Timestamp: proxy.Timestamp(rng.Int64())}
	for k := rng.IntN(6); k > 0; k-- {
		span.AddTag(gen.Text(rng), gen.Text(rng))
	}
	_ = codec.BinaryEncode(span, &buf)
	return buf.Bytes()
}

// hostileBinary puts extreme numbers in the place of lengths and counts.
func hostileBinary(rng *rand.Rand) []byte {
	extremes := []int64{-1, math.MinInt64, math.MaxInt64, math.MaxInt32, math.MaxInt32 + 1, 1 << 20, 100_000_000, 1 << 40, -1 << 31, 8192, 8193, 1_000_000_000}
	x := func() int64 { return extremes[rng.IntN(len(extremes))] }
	var b []byte
	put := func(v int64) { b = append(b, varint(v)...) }
	str := func(s string) { put(int64(len(s))); b = append(b, s...) }
	for i := 0; i < 3; i++ {
		put(rng.Int64())
	}
	kind := rng.IntN(8)
	if kind == 0 {
		put(x())
		return append(b, gen.Text(rng)...)
	}
	str("name")
	if kind == 1 {
		put(x())
		return append(b, gen.Text(rng)...)
	}
	str("service")
	for i := 0; i < 6; i++ {
		put(x())
	}
	switch kind {
	case 2: // huge number of tags
		put(x())
		for k := rng.IntN(100); k > 0; k-- {
			str(gen.Text(rng))
		}
	case 3: // huge tag length
		put(1)
		str("key")
		put(x())
	case 4: // huge number of empty blocks
		for k := rng.IntN(3000); k > 0; k-- {
			put(-1)
			put(x())
			str("")
			str("")
		}
	case 5: // long chain of continuation bytes
		b = append(b, bytes.Repeat([]byte{0xff}, rng.IntN(20000))...)
	case 6:
		put(x())
		put(x())
	case 7:
		put(math.MaxInt64)
		b = append(b, make([]byte, rng.IntN(5000))...)
	}
	if rng.IntN(2) == 0 {
		put(0)
	}
	return b
}

func nested(rng *rand.Rand, depth int) []byte {
	prefix := []string{
		"", "[", `[{"x":`, `[{"annotations":`, `[{"annotations":[`, `[{"binaryAnnotations":[`, `[{"annotations":[{"endpoint":{"x":`, `[{"tags":`, `[{"localEndpoint":`, `[{"localEndpoint":{"x":`, `[{"binaryAnnotations":[{"value":`,
		`{"data":`, `{"data":[{"spans":[{"tags":[{"value":`, `{"x":`, `[{"annotations":[{},{},{},{},`,
	}[rng.IntN(15)]
	unit := []string{"[", `{"a":`, `[{"a":`, `[[],`, `{"b":1,"a":`, "[\n"}[rng.IntN(6)]
	return []byte(prefix + strings.Repeat(unit, depth))
}

// shapes are inputs that can be made as large as wanted.
var shapes = []struct{ name, prefix, unit, suffix string }{
	{"a name", `[{"name":"`, "x", `"}]`},
	{"a name with escapes", `[{"name":"`, `\n`, `"}]`},
	{"an unknown text", `[{"x":"`, "x", `"}]`},
	{"a key", `[{"`, "x", `":1}]`},
	{"a key of a tag", `[{"tags":{"`, "x", `":"y"}}]`},
	{"a value of a tag", `[{"tags":{"k":"`, "x", `"}}]`},
	{"a value of an annotation", `[{"binaryAnnotations":[{"key":"k","value":"`, "x", `"}]}]`},
	{"an id", `[{"id":"`, "1", `"}]`},
	{"a number", `[{"timestamp":`, "1", `}]`},
	{"an unknown number", `[{"x":`, "1", `}]`},
	{"space", `[`, " ", `]`},
	{"space between fields", `[{"id":"1",`, "\n", `"name":"n"}]`},
	{"tags", `[{"tags":{"a":"b"`, `,"k":"v"`, `}}]`},
	{"annotations", `[{"annotations":[{}`, `,{"value":"cs"}`, `]}]`},
	{"binary annotations", `[{"binaryAnnotations":[{}`, `,{"key":"k","value":"v"}`, `]}]`},
	{"lists of binary annotations", `[{"id":"1"`, `,"binaryAnnotations":[{"key":"k"},{}]`, `}]`},
	{"unknown lists", `[{"x":[1`, `,[]`, `]}]`},
	{"unknown fields", `[{"id":"1"`, `,"x":{"y":null}`, `}]`},
	{"spans", `[{}`, `,{"id":"1","name":"n"}`, `]`},
	{"an unfinished name", `[{"name":"`, "x", ``},
	{"unfinished spans", `[{}`, `,{"id":"1"}`, ``},
	{"a jaeger name", `{"data":[{"spans":[{"operationName":"`, "x", `"}]}]}`},
	{"jaeger spans", `{"data":[{"spans":[{}`, `,{"spanID":"1"}`, `]}]}`},
	{"jaeger tags", `{"data":[{"spans":[{"tags":[{}`, `,{"key":"k","value":"v"}`, `]}]}]}`},
	{"jaeger references", `{"data":[{"spans":[{"references":[{}`, `,{"refType":"CHILD_OF","spanID":"1"}`, `]}]}]}`},
	{"jaeger data", `{"data":[{}`, `,{"spans":[{}],"processes":{"p":{}}}`, `]}`},
}

// pieces never gives away much at once.
type pieces struct{ *bytes.Reader }

func (p pieces) Read(b []byte) (int, error) { return p.Reader.Read(b[:min(len(b), 64<<10)]) }

// growth compares what is allocated for inputs of the same shape and different sizes, which must be proportional.
func (m *monitor) growth() {
	r := m.r
	measure := func(name string, d decoder, input []byte) uint64 {
		r.Progress("growth: " + d.name + ", " + name)
		defer func() {
			if p := recover(); p != nil {
				r.Violate("panic", fmt.Sprintf("%s: %s of %d bytes: panic: %v", d.name, name, len(input), p), map[string]any{"stack": string(debug.Stack())})
			}
		}()
		runtime.GC()
		before := allocated()
		if d.name == "binary" {
			_, _ = codec.BinaryDecode(bytes.NewReader(input))
		} else {
			_, _ = d.parse(pieces{bytes.NewReader(input)})
		}
		r.Eval(rep.Hash(d.name, name, len(input)), true)
		return allocated() - before
	}
	compare := func(name string, d decoder, make func(size int) []byte) {
		small, factor := 512<<10, 16
		a, b := measure(name, d, make(small)), measure(name, d, make(small*factor))
		// sizes of buffers are rounded, e.g. to powers of two
		if limit := 3*uint64(factor)*a + 2<<20; b > limit {
			r.Violate("alloc", fmt.Sprintf("%s, %s: allocated %d bytes for an input of %d kB and %d bytes for %d kB", d.name, name, a, small>>10, b, small*factor>>10), nil)
		}
		r.Count("growths compared", 1)
	}
	for _, s := range shapes {
		for _, d := range decoders[:3] {
			if strings.Contains(s.prefix, `"data"`) != (d.name == "jaeger") && s.prefix != "[" {
				continue
			}
			compare(s.name, d, func(size int) []byte {
				return []byte(s.prefix + strings.Repeat(s.unit, size/len(s.unit)) + s.suffix)
			})
		}
	}
	binarySized := func(name func(size int) (string, map[string]string)) func(size int) []byte {
		return func(size int) []byte {
			var buf bytes.Buffer
			n, tags := name(size)
			_ = codec.BinaryEncode(proxy.Span{Id: 1, Trace: 1, Name: n, Tags: tags}, &buf)
			return buf.Bytes()
		}
	}
	compare("a name", decoders[3], binarySized(func(size int) (string, map[string]string) { return strings.Repeat("x", size), nil }))
	compare("a tag", decoders[3], binarySized(func(size int) (string, map[string]string) {
		return "", map[string]string{"k": strings.Repeat("x", size)}
	}))
	compare("tags", decoders[3], binarySized(func(size int) (string, map[string]string) {
		tags := map[string]string{}
		for i := 0; i < size/20; i++ {
			tags[fmt.Sprint("key", i)] = "value"
		}
		return "", tags
	}))
}

func Test(t *testing.T) {
	rep.Run(t, "C06", "hostile inputs of several classes (mutated documents, token soup, random bytes, deep nesting, long tokens, extreme binary lengths) for every decoder and random readers, watched for panics, stack use above 256 MB, cpu time and allocation per byte read; non-trivial: longer than 2 bytes", func(r *rep.R) {
		debug.SetMaxStack(256 << 20)
		r.WatchCPU(40 * time.Second)
		for _, d := range decoders {
			r.Need(d.name+" error", 300)
			r.Need(d.name+" ok", 20)
		}
		r.Need("growths compared", 40)
		m := &monitor{r, r.Rand("inputs"), map[string]int{}}
		defer func() {
			for name, bytes := range m.worst {
				r.Count("most bytes allocated per byte read by "+name, bytes)
			}
		}()
		rng := m.rng

		n := r.N(3000, 200000)
		for i := 0; i < n; i++ {
			o := gen.Opts{Plain: rng.IntN(2) == 0, NoLong: rng.IntN(4) > 0, Duplicates: rng.IntN(3) == 0}
			f := rng.IntN(3)
			doc := dec.Formats[f].Gen(rng, o)
			m.run("valid", decoders[f], doc)
			m.run("mutated", decoders[f], gen.Mutate(rng, doc))
			m.run("mutated", decoders[f], gen.Mutate(rng, gen.Mutate(rng, doc)))
			for k := 0; k < 3; k++ {
				m.run("odd escapes", decoders[f], gen.Escapes(rng, doc))
			}
			bin := binarySpan(rng)
			m.run("valid", decoders[3], bin)
			m.run("mutated", decoders[3], gen.Mutate(rng, bin))
			m.run("extreme lengths", decoders[3], hostileBinary(rng))
			if i%8 == 0 {
				m.all("token soup", soup(rng))
				random := make([]byte, rng.IntN(400))
				for k := range random {
					random[k] = byte(rng.IntN(256))
				}
				m.all("random bytes", random)
				m.all("other format", doc)
			}
			if i == 7 {
				r.Sample(string(soup(rng)))
				r.Sample(map[string]any{"extreme binary": hostileBinary(rng)})
			}
		}

		// nesting
		for i := 0; i < r.N(60, 1500); i++ {
			depth := 1 + rng.IntN(30000)
			m.all("nested", nested(rng, depth))
		}
		for i := 0; i < r.N(6, 30); i++ {
			m.all("extremely nested", nested(rng, 3_000_000))
		}
		for _, prefix := range []string{`[{"x":`, `[{"annotations":[{},{},{},{},`, `[{"localEndpoint":{"x":`, `{"x":`} {
			m.all("extremely nested", []byte(prefix+strings.Repeat("[", 4_000_000)))
			m.all("extremely nested", []byte(prefix+strings.Repeat(`{"a":`, 3_000_000)))
		}

		// long tokens and lists, closed and unclosed
		for i := 0; i < r.N(120, 3000); i++ {
			size := []int{8100, 8192, 8193, 20_000, 70_000, 300_000, 1_000_000}[rng.IntN(7)] + rng.IntN(100)
			unit := []string{"x", `\n`, `\u0041`, `\ud83d\ude00`, `\\`, "é", "1", "{}", "[]", ",", " ", `"a"`, `"a":"b",`, `{"key":"k"}`, "null", "-", "\x00", `\`}[rng.IntN(18)]
			body := strings.Repeat(unit, size/len(unit))
			prefix := []string{`[{"name":"`, `[{"id":"`, `[{"timestamp":`, `[{"tags":{`, `[{"annotations":[`, `[{"binaryAnnotations":[`, `[`, `[{"x":[`, `[{"tags":{"`, `{"data":[`, `{"data":[{"spans":[`, `[{"`, ``}[rng.IntN(13)]
			suffix := []string{"", `"}]`, `}]`, `]}]`}[rng.IntN(4)]
			m.all("long", []byte(prefix+body+suffix))
		}

		// what is odd comes anywhere, also where a buffer ends
		for n := 0; n < r.N(17_500, 140_000); n++ {
			for k := 0; k < 6; k++ {
				prefix := []string{`[{"name":"`, `[{"x":"`, `[{"tags":{"a":"`, `[{"tags":{"`, `{"data":[{"spans":[{"operationName":"`}[rng.IntN(5)]
				odd := []string{`\ud83d\u`, `\ud83d\u1`, `\ud83d\u12`, `\ud83d\u123`, `\ud83d\`, `\ud83d`, `\u`, `\u1`, `\u12`, `\u123`, `\u1234`, `\`, `\"`, "\xf0\x9f", `\ud83d\ud83d\u12`, `\udc00\u`}[rng.IntN(16)]
				doc := prefix + filler[:n] + odd + []string{`"`, `"`, `"}]`, ``}[rng.IntN(4)]
				m.light(decoders[rng.IntN(3)], doc)
			}
		}

		m.growth()

		// many of two kinds, where each of one could be compared with each of the other
		numbered := func(n int, format string) string {
			var b strings.Builder
			for i := range n {
				if i > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, format, i)
			}
			return b.String()
		}
		many := r.N(120_000, 250_000)
		for _, f := range []string{`{"spanID":"%x"}`, `{"processID":"p%d"}`, `{"references":[{"refType":"CHILD_OF","spanID":"%x"}]}`, `{"tags":[{"key":"k%d","value":"v"}]}`} {
			m.run("processes and spans", decoders[2], []byte(`{"data":[{"spans":[`+numbered(many, f)+`],"processes":{`+numbered(many, `"p%d":{"serviceName":"s"}`)+`}}]}`))
			m.run("data and spans", decoders[2], []byte(`{"data":[`+numbered(many, `{"processes":{"p%d":{}}}`)+`,{"spans":[`+numbered(many, f)+`]}]}`))
		}
		m.run("references and tags", decoders[2], []byte(`{"data":[{"spans":[{"references":[`+numbered(many, `{"refType":"CHILD_OF","spanID":"%x"}`)+`],"tags":[`+numbered(many, `{"key":"k%d","value":"v"}`)+`]}]}]}`))
		m.run("annotations of both kinds", decoders[0], []byte(`[{"annotations":[`+numbered(many, `{"value":"v%d"}`)+`],"binaryAnnotations":[`+numbered(many, `{"key":"k%d","value":"v"}`)+`]}]`))
		m.run("spans of one trace", decoders[0], []byte(`[`+numbered(2*many, `{"traceId":"1","id":"%x"}`)+`]`))
		m.run("spans of one trace", decoders[1], []byte(`[`+numbered(2*many, `{"traceId":"1","id":"%x","shared":true}`)+`]`))
		m.run("spans with a tag each", decoders[1], []byte(`[`+numbered(2*many, `{"id":"1","tags":{"k%d":"v"}}`)+`]`))
		m.run("tags", decoders[1], []byte(`[{"tags":{`+numbered(2*many, `"k%d":"v"`)+`}}]`))

		// many lists or spans, where each could be expensive
		for i := 0; i < r.N(6, 40); i++ {
			unit := []string{`{"annotations":[]},`, `{"binaryAnnotations":[{}]},`, `{"tags":{}},`, `{"a":{}},`, `{},`, `{"binaryAnnotations":[{},{}],"binaryAnnotations":[]},`}[i%6]
			m.all("many", []byte("["+strings.Repeat(unit, 200_000/len(unit))+"{}]"))
			m.all("many", []byte(`{"data":[{"spans":[`+strings.Repeat(unit, 200_000/len(unit))+"{}]}]}"))
		}
	})
}
