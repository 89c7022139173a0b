package gen

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"verif/harness/lib/dict"
)

// Opts controls the documents.
type Opts struct {
	MaxSpans int
	// Mark is put into every name, service, tag key and tag value
	Mark string
	// no formatting, no unknown fields
	Plain bool
	// short strings only
	Short bool
	// duplicate some keys (the result is then not specified)
	Duplicates bool
	// no long texts are written into the documents
	NoLong bool
	// something that is large
	Large *Large
}

type doc struct {
	*W
	o Opts
}

func (d *doc) text() string {
	var s string
	if d.maybe(20) {
		if n, ok := d.take("text"); ok {
			return d.o.Mark + TextOfSize(d.Rng, n)
		}
	}
	if d.o.Short {
		s = words[d.Rng.IntN(len(words))]
	} else {
		s = Text(d.Rng)
		for d.o.NoLong && len(s) > 300 {
			s = Text(d.Rng)
		}
	}
	return d.o.Mark + s
}

func (d *doc) maybe(p int) bool { return d.Rng.IntN(100) < p }

// ID writes an id as hex, in a random but valid way.
func Hex(r *rand.Rand) string {
	var id uint64
	switch r.IntN(5) {
	case 0:
		id = uint64(r.IntN(300))
	case 1:
		id = r.Uint64() | 1<<63
	case 2:
		id = r.Uint64() >> r.IntN(64)
	default:
		id = r.Uint64()
	}
	s := strconv.FormatUint(id, 16)
	switch r.IntN(4) {
	case 0:
		s = fmt.Sprintf("%016x", id)
	case 1:
		s = strings.ToUpper(s)
	case 2:
		if len(s) < 16 {
			s = strings.Repeat("0", r.IntN(17-len(s))) + s
		}
	}
	if r.IntN(60) == 0 {
		s = ""
	}
	return s
}

func (d *doc) id() func(*W) {
	h := Hex(d.Rng)
	null := d.maybe(3)
	return func(w *W) {
		if null {
			w.Raw("null")
		} else {
			w.Str(h)
		}
	}
}

func (d *doc) us() int64 {
	switch d.Rng.IntN(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return d.Rng.Int64N(9_000_000_000_000_000)
	default:
		return 1_560_000_000_000_000 + d.Rng.Int64N(100_000_000_000_000)
	}
}

func (d *doc) number(v int64) func(*W) {
	return func(w *W) { w.Raw(strconv.FormatInt(v, 10)) }
}

func (d *doc) str(s string) func(*W) { return func(w *W) { w.Str(s) } }

func (d *doc) anyValue() func(*W) {
	if d.o.Plain || d.o.Mark != "" {
		return func(w *W) { w.Str(d.text()) }
	}
	if n, ok := d.take("depth"); ok {
		return func(w *W) { w.Deep(n) }
	}
	if d.maybe(2) {
		return func(w *W) { w.Deep(1 + w.Rng.IntN(300)) }
	}
	return func(w *W) { w.Value(3) }
}

// fields that look similar to the real ones, but have to be ignored.
var unknownKeys = []string{"debug", "shared", "idx", "xid", "names", "na", "tag", "durations", "logs", "warnings", "remoteEndpoint", "ipv4", "port", "é", "a\"b", "t"}
var unknownKeysCase = []string{"Name", "ID", "traceid", "TIMESTAMP", "Tags", "Kind"}

func (d *doc) unknown(level string, ms []Member, caseVariants bool) []Member {
	if d.o.Plain {
		return ms
	}
	seen := map[string]bool{}
	for d.maybe(25) {
		if m := d.familiar(level); m.Key != "" && !seen[m.Key] {
			seen[m.Key] = true
			ms = append(ms, m)
		}
	}
	if n, ok := d.take("unknown"); ok {
		for i := 0; i < n; i++ {
			ms = append(ms, Member{fmt.Sprintf("x%d", i), d.number(int64(i))})
		}
	}
	for d.maybe(30) {
		pool := unknownKeys
		if caseVariants && d.maybe(30) {
			pool = unknownKeysCase
		}
		key := pool[d.Rng.IntN(len(pool))]
		if seen[key] {
			continue
		}
		seen[key] = true
		ms = append(ms, Member{key, d.anyValue()})
	}
	return ms
}

// the fields that have a meaning
var levels = map[string][]string{
	"v1":               {"traceId", "id", "parentId", "name", "timestamp", "duration", "annotations", "binaryAnnotations"},
	"v2":               {"traceId", "id", "parentId", "name", "timestamp", "duration", "localEndpoint", "tags", "kind"},
	"annotation":       {"timestamp", "value", "endpoint"},
	"binaryAnnotation": {"key", "value", "endpoint"},
	"endpoint":         {"serviceName"},
	"jaeger":           {"data"},
	"jaegerData":       {"spans", "processes", "traceID"},
	"jaegerSpan":       {"traceID", "spanID", "operationName", "references", "startTime", "duration", "processID", "tags"},
	"jaegerReference":  {"refType", "traceID", "spanID"},
	"jaegerTag":        {"key", "value", "type"},
	"jaegerProcess":    {"serviceName", "tags"},
}

// fields that mean something at another place or in another format, or that are just not used, with the values they usually have.
var others = map[string][]string{
	"v1":               {"debug", "shared", "traceIdHigh", "kind", "tags", "localEndpoint", "remoteEndpoint"},
	"v2":               {"debug", "shared", "remoteEndpoint", "annotations", "binaryAnnotations", "serviceName", "traceIdHigh"},
	"annotation":       {"host", "key"},
	"binaryAnnotation": {"type", "annotationType", "host", "timestamp"},
	"endpoint":         {"ipv4", "ipv6", "name", "port"},
	"jaeger":           {"total", "limit", "offset", "errors", "spans", "processes"},
	"jaegerData":       {"warnings", "process", "tags", "serviceName"},
	"jaegerSpan":       {"flags", "parentSpanID", "process", "logs", "warnings", "kind", "error", "serviceName", "localEndpoint", "parentId", "traceIdLow"},
	"jaegerReference":  {"span", "flags"},
	"jaegerTag":        {"vType", "vStr", "vBool", "binary"},
	"jaegerProcess":    {"name", "service", "processID"},
}

// familiar returns a field that has to be ignored, although it looks as if it had a meaning.
func (d *doc) familiar(level string) Member {
	key := others[level][d.Rng.IntN(len(others[level]))]
	if dc := dict.Get(); d.maybe(20) || dc.FreshStrings() && d.maybe(60) {
		key = dc.String(d.Rng)
		if level[0] == 'j' && key == "" {
			return Member{}
		}
	}
	for _, real := range levels[level] {
		if strings.EqualFold(real, key) {
			return Member{}
		}
	}
	endpoint := func(w *W) {
		w.Object([]Member{{"serviceName", d.str(Text(w.Rng))}, {"ipv4", d.str("10.0.0.1")}, {"port", d.number(80)}, {"tags", func(w *W) { w.Raw("[]") }}})
	}
	hex := func(w *W) { w.Str(Hex(w.Rng)) }
	flag := func(w *W) { w.Raw([]string{"true", "false", "1", "null"}[w.Rng.IntN(4)]) }
	text := func(w *W) { w.Str(Text(w.Rng)) }
	us := d.number(d.us())
	kv := func(w *W) {
		w.Array(w.Rng.IntN(3), func(int) {
			w.Object([]Member{{"key", text}, {"type", d.str("string")}, {"value", text}, {"timestamp", us}, {"endpoint", endpoint}, {"fields", func(w *W) { w.Raw("[]") }}})
		})
	}
	usual := map[string]func(*W){
		"traceIdHigh": hex, "parentSpanID": hex, "parentId": hex, "traceIdLow": hex, "id": hex, "traceId": hex, "spanID": hex, "traceID": hex, "parent": hex,
		"localEndpoint": endpoint, "remoteEndpoint": endpoint, "host": endpoint, "endpoint": endpoint, "process": endpoint, "span": endpoint,
		"annotations": kv, "binaryAnnotations": kv, "logs": kv, "spans": kv,
		"tags": func(w *W) {
			if level[0] == 'j' {
				kv(w)
			} else {
				w.Object([]Member{{Text(w.Rng), text}})
			}
		},
		"serviceName": text, "service": text, "name": text, "kind": d.str([]string{"CLIENT", "SERVER", "client"}[d.Rng.IntN(3)]), "type": text,
		"timestamp": us, "duration": us, "startTime": us, "flags": d.number(1), "debug": flag, "shared": flag, "error": flag,
	}
	if v := usual[key]; v != nil && d.maybe(85) {
		return Member{key, v}
	}
	all := []func(*W){endpoint, hex, flag, text, us, kv, d.anyValue()}
	return Member{key, all[d.Rng.IntN(len(all))]}
}

// known members are not repeated.
func (d *doc) extra(level string, ms []Member) []Member {
	if d.o.Plain {
		return ms
	}
	for d.maybe(20) {
		m := d.familiar(level)
		ok := m.Key != ""
		for _, other := range ms {
			ok = ok && !strings.EqualFold(other.Key, m.Key)
		}
		if ok {
			ms = append(ms, m)
		}
	}
	return ms
}

func (d *doc) dup(ms []Member, keys ...func() Member) []Member {
	if d.o.Duplicates {
		for _, m := range keys {
			if d.maybe(25) {
				ms = append(ms, m())
			}
		}
	}
	return ms
}

func (d *doc) endpoint() func(*W) {
	var ms []Member
	if d.maybe(80) {
		ms = append(ms, Member{"serviceName", d.str(d.text())})
	}
	if d.maybe(30) && !d.o.Plain {
		ms = append(ms, Member{"ipv6", d.str("::1")})
		ms = append(ms, Member{"port", d.number(8080)})
	}
	if d.maybe(50) && !d.o.Plain {
		// the same few in all documents
		ms = append(ms, Member{"ipv4", d.str([]string{"10.0.0.1", "127.0.0.1", ""}[d.Rng.IntN(3)])})
	}
	ms = d.unknown("endpoint", ms, false)
	// port can be there twice
	seen := map[string]bool{}
	var res []Member
	for _, m := range ms {
		if !seen[m.Key] {
			seen[m.Key] = true
			res = append(res, m)
		}
	}
	return func(w *W) { w.Object(res) }
}

func (d *doc) count(max int) int {
	switch d.Rng.IntN(6) {
	case 0:
		return 0
	case 1:
		return 1
	default:
		return 1 + d.Rng.IntN(max)
	}
}

// spans is the number of spans of the document, or of one of its parts.
func (d *doc) spans() int {
	if n, ok := d.take("spans"); ok {
		return n
	}
	n := d.count(d.o.MaxSpans)
	if d.o.Large != nil {
		// there must be something that can be large
		n = max(n, 3)
	}
	return n
}

func newDoc(rng *rand.Rand, o Opts) *doc {
	if o.MaxSpans == 0 {
		o.MaxSpans = 6
	}
	return &doc{W: &W{Rng: rng, Plain: o.Plain}, o: o}
}

func (d *doc) annotations() func(*W) {
	core := []string{"cs", "cr", "sr", "ss"}
	d.Rng.Shuffle(4, func(i, j int) { core[i], core[j] = core[j], core[i] })
	if d.maybe(50) {
		// client or server side
		if d.maybe(50) {
			core = []string{"cs", "cr"}
		} else {
			core = []string{"ss", "sr"}
		}
	}
	n := d.Rng.IntN(5)
	var anns [][]Member
	for i := 0; i < n; i++ {
		var value string
		if len(core) > 0 && d.maybe(85) {
			value, core = core[0], core[1:]
		} else {
			value = []string{"ws", "wr", "error", "", "cs2", "CS"}[d.Rng.IntN(6)]
		}
		var ms []Member
		if d.maybe(92) {
			ms = append(ms, Member{"timestamp", d.number(d.us())})
		}
		if value != "" || d.maybe(50) {
			ms = append(ms, Member{"value", d.str(value)})
		}
		if d.maybe(75) {
			ms = append(ms, Member{"endpoint", d.endpoint()})
		}
		anns = append(anns, d.unknown("annotation", ms, false))
	}
	return func(w *W) { w.Array(n, func(i int) { w.Object(anns[i]) }) }
}

func (d *doc) binaryAnnotations() func(*W) {
	n := d.count(7)
	if d.maybe(2) {
		n = 100
	}
	if k, ok := d.take("tags"); ok {
		n = k
	}
	var anns [][]Member
	var keys []string
	for i := 0; i < n; i++ {
		var ms []Member
		if d.maybe(97) {
			key := d.text()
			if len(keys) > 0 && d.maybe(8) {
				// the same again
				key = keys[d.Rng.IntN(len(keys))]
			}
			keys = append(keys, key)
			ms = append(ms, Member{"key", d.str(key)})
		}
		if d.maybe(97) {
			value := d.str(d.text())
			switch d.Rng.IntN(8) {
			case 0:
				num := Number(d.Rng)
				value = func(w *W) { w.Raw(num) }
			case 1:
				lit := []string{"true", "false", "null"}[d.Rng.IntN(3)]
				value = func(w *W) { w.Raw(lit) }
			}
			ms = append(ms, Member{"value", value})
		}
		if d.maybe(60) {
			ms = append(ms, Member{"endpoint", d.endpoint()})
		}
		anns = append(anns, d.unknown("binaryAnnotation", ms, false))
	}
	return func(w *W) { w.Array(n, func(i int) { w.Object(anns[i]) }) }
}

func (d *doc) ids(ms []Member) []Member {
	if d.maybe(97) {
		ms = append(ms, Member{"traceId", d.id()})
	}
	if d.maybe(97) {
		ms = append(ms, Member{"id", d.id()})
	}
	if d.maybe(70) {
		ms = append(ms, Member{"parentId", d.id()})
	}
	if d.maybe(90) {
		ms = append(ms, Member{"name", d.str(d.text())})
	}
	if d.maybe(70) {
		ms = append(ms, Member{"timestamp", d.number(d.us())})
	}
	if d.maybe(70) {
		us := d.us()
		if d.maybe(70) {
			us = int64(d.Rng.IntN(3_000_000))
		}
		ms = append(ms, Member{"duration", d.number(us)})
	}
	return ms
}

// V1 returns a well-formed zipkin v1 document.
func V1(rng *rand.Rand, o Opts) []byte {
	d := newDoc(rng, o)
	d.WS()
	d.Array(d.spans(), func(int) {
		ms := d.ids(nil)
		if d.maybe(85) {
			ms = append(ms, Member{"annotations", d.annotations()})
		}
		if d.maybe(85) {
			ms = append(ms, Member{"binaryAnnotations", d.binaryAnnotations()})
		}
		ms = d.unknown("v1", ms, true)
		ms = d.dup(ms,
			func() Member { return Member{"binaryAnnotations", d.binaryAnnotations()} },
			func() Member { return Member{"annotations", d.annotations()} },
			func() Member { return Member{"name", d.str(d.text())} })
		d.Object(ms)
	})
	return []byte(d.B.String())
}

// V2 returns a well-formed zipkin v2 document.
func V2(rng *rand.Rand, o Opts) []byte {
	d := newDoc(rng, o)
	d.WS()
	d.Array(d.spans(), func(int) {
		ms := d.ids(nil)
		if d.maybe(85) {
			ms = append(ms, Member{"localEndpoint", d.endpoint()})
		}
		tags := func() Member {
			var tags []Member
			seen := map[string]bool{}
			n := d.count(7)
			if k, ok := d.take("tags"); ok {
				n = k
			}
			for i := n; i > 0; i-- {
				key := d.text()
				if n > 50 {
					key += fmt.Sprint(i)
				}
				if !seen[key] {
					seen[key] = true
					tags = append(tags, Member{key, d.str(d.text())})
				}
			}
			return Member{"tags", func(w *W) { w.Object(tags) }}
		}
		if d.maybe(85) {
			ms = append(ms, tags())
		}
		if d.maybe(70) {
			kind := []string{"CLIENT", "SERVER", "client", "Server", "PRODUCER", "CONSUMER", "", "CLIENTS"}[d.Rng.IntN(8)]
			ms = append(ms, Member{"kind", d.str(kind)})
		}
		ms = d.unknown("v2", ms, true)
		ms = d.dup(ms, tags,
			func() Member { return Member{"localEndpoint", d.endpoint()} },
			func() Member { return Member{"name", d.str(d.text())} })
		d.Object(ms)
	})
	return []byte(d.B.String())
}

// Jaeger returns a well-formed jaeger document.
func Jaeger(rng *rand.Rand, o Opts) []byte {
	d := newDoc(rng, o)
	hex := func() func(*W) {
		h := Hex(d.Rng)
		return func(w *W) { w.Raw(`"` + h + `"`) }
	}
	data := func(w *W) {
		ndata := d.count(3)
		if k, ok := d.take("data"); ok {
			ndata = k
		}
		w.Array(ndata, func(int) {
			nproc := 1 + d.Rng.IntN(4)
			if k, ok := d.take("processes"); ok {
				nproc = k
			}
			var procs []Member
			for i := 0; i < nproc; i++ {
				var ms []Member
				if d.maybe(90) {
					ms = append(ms, Member{"serviceName", d.str(d.text())})
				}
				if d.maybe(50) {
					ms = append(ms, Member{"tags", func(w *W) { w.Raw(`[{"key":"ip","value":"1.2.3.4"}]`) }})
				}
				ms = d.extra("jaegerProcess", ms)
				procs = append(procs, Member{fmt.Sprintf("p%d", i+1), func(w *W) { w.Object(ms) }})
			}
			spans := func(w *W) {
				w.Array(d.spans(), func(int) {
					ms := []Member{{"traceID", hex()}, {"spanID", hex()}}
					if d.maybe(90) {
						ms = append(ms, Member{"operationName", d.str(d.text())})
					}
					if d.maybe(80) {
						var refs [][]Member
						child := d.maybe(70)
						n := d.Rng.IntN(3)
						if k, ok := d.take("references"); ok {
							n = k
						}
						at := d.Rng.IntN(n + 1)
						for i := 0; i <= n; i++ {
							typ := "FOLLOWS_FROM"
							if i == at && child {
								typ = "CHILD_OF"
							} else if i == n {
								continue
							}
							refs = append(refs, d.extra("jaegerReference", []Member{{"refType", d.str(typ)}, {"traceID", hex()}, {"spanID", hex()}}))
						}
						ms = append(ms, Member{"references", func(w *W) { w.Array(len(refs), func(i int) { w.Object(refs[i]) }) }})
					}
					if d.maybe(95) {
						ms = append(ms, Member{"startTime", d.number(d.us())})
					}
					if d.maybe(90) {
						us := int64(d.Rng.IntN(3_000_000))
						if d.maybe(20) {
							us = 0
						}
						ms = append(ms, Member{"duration", d.number(us)})
					}
					if d.maybe(95) {
						ms = append(ms, Member{"processID", d.str(fmt.Sprintf("p%d", 1+d.Rng.IntN(nproc+1)))})
					}
					if d.maybe(90) {
						var keys []string
						kinds := 0
						var tags [][]Member
						ntags := d.count(8)
						if k, ok := d.take("tags"); ok {
							ntags = k
						}
						for i := ntags; i > 0; i-- {
							var key string
							switch d.Rng.IntN(8) {
							case 0:
								key = "component"
							case 1:
								key = "internal.span.format"
							case 2, 3:
								key = "span.kind"
							default:
								key = d.text()
								if ntags > 50 {
									key += fmt.Sprint(i)
								}
							}
							if len(keys) > 0 && d.maybe(8) {
								// the same again
								key = keys[d.Rng.IntN(len(keys))]
							}
							if key == "span.kind" {
								if kinds > 0 {
									continue
								}
								kinds++
							}
							keys = append(keys, key)
							value := d.str(d.text())
							if key == "span.kind" {
								value = d.str([]string{"client", "server", "CLIENT", "Server", "producer", ""}[d.Rng.IntN(6)])
							} else if d.maybe(25) && d.o.Mark == "" {
								value = func(w *W) {
									switch w.Rng.IntN(4) {
									case 0:
										w.Raw("true")
									case 1:
										w.Raw("-12.5")
									case 2:
										w.Raw("null")
									case 3:
										w.Raw(`{"a":["b"]}`)
									}
								}
							}
							tms := []Member{{"key", d.str(key)}, {"value", value}}
							if d.maybe(70) {
								tms = append(tms, Member{"type", d.str([]string{"string", "string", "string", "bool", "int64", "float64", "binary", "STRING", ""}[d.Rng.IntN(9)])})
							}
							tags = append(tags, d.extra("jaegerTag", tms))
						}
						ms = append(ms, Member{"tags", func(w *W) { w.Array(len(tags), func(i int) { w.Object(tags[i]) }) }})
					}
					if d.maybe(30) {
						ms = append(ms, Member{"logs", d.anyValue()})
						ms = append(ms, Member{"warnings", func(w *W) { w.Raw("null") }})
					}
					ms = d.extra("jaegerSpan", ms)
					w.Object(ms)
				})
			}
			ms := []Member{{"traceID", hex()}}
			if d.maybe(95) {
				ms = append(ms, Member{"spans", spans})
			}
			if d.maybe(95) {
				ms = append(ms, Member{"processes", func(w *W) { w.Object(procs) }})
			}
			ms = d.extra("jaegerData", ms)
			w.Object(ms)
		})
	}
	ms := []Member{{"data", data}}
	if d.maybe(50) {
		ms = append(ms, Member{"total", d.number(0)}, Member{"errors", func(w *W) { w.Raw("null") }})
	}
	ms = d.extra("jaeger", ms)
	d.WS()
	d.Object(ms)
	return []byte(d.B.String())
}
