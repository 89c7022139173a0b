// Package gen generates inputs for the checks.
package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"verif/harness/lib/dict"
)

// W writes a json text with random formatting.
type W struct {
	Rng *rand.Rand
	B   strings.Builder

	// Plain turns off random formatting
	Plain bool
}

func (w *W) Raw(s string) { w.B.WriteString(s) }

// WS writes optional whitespace.
func (w *W) WS() {
	if w.Plain {
		return
	}
	switch w.Rng.IntN(12) {
	case 0:
		w.Raw(" ")
	case 1:
		w.Raw("\n\t")
	case 2:
		w.Raw("\r\n  ")
	case 3:
		if w.Rng.IntN(40) == 0 {
			w.Raw(strings.Repeat(" ", w.Rng.IntN(9000)))
		}
	}
}

var shortEscapes = map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}

// Str writes a json string literal with random use of escapes.
func (w *W) Str(s string) {
	mode := 0
	if !w.Plain {
		mode = w.Rng.IntN(8)
	}
	w.Raw(`"`)
	for _, r := range s {
		must := r < 0x20 || r == '"' || r == '\\'
		esc := must
		if !must {
			switch mode {
			case 0, 1, 2, 3, 4:
			case 5:
				esc = w.Rng.IntN(4) == 0
			case 6:
				esc = r > 0x7e || r == '/'
			case 7:
				esc = w.Rng.IntN(30) == 0
			}
		}
		if !esc {
			w.B.WriteRune(r)
			continue
		}
		if e, ok := shortEscapes[r]; ok && (w.Plain || w.Rng.IntN(3) > 0) {
			w.Raw(e)
			continue
		}
		format := `\u%04x`
		if !w.Plain && w.Rng.IntN(2) == 0 {
			format = `\u%04X`
		}
		if r >= 0x10000 {
			v := r - 0x10000
			fmt.Fprintf(&w.B, format, 0xd800+(v>>10))
			fmt.Fprintf(&w.B, format, 0xdc00+(v&0x3ff))
		} else {
			fmt.Fprintf(&w.B, format, r)
		}
	}
	w.Raw(`"`)
}

type Member struct {
	Key   string
	Write func(w *W)
}

// Object writes the members in random order.
func (w *W) Object(members []Member) {
	if !w.Plain {
		w.Rng.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	}
	w.Raw("{")
	for i, m := range members {
		if i > 0 {
			w.Raw(",")
		}
		w.WS()
		w.Str(m.Key)
		w.WS()
		w.Raw(":")
		w.WS()
		m.Write(w)
		w.WS()
	}
	w.WS()
	w.Raw("}")
}

func (w *W) Array(n int, el func(i int)) {
	w.Raw("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			w.Raw(",")
		}
		w.WS()
		el(i)
		w.WS()
	}
	if n == 0 {
		w.WS()
	}
	w.Raw("]")
}

// Number writes a random json number.
func (w *W) Number() {
	w.Raw(Number(w.Rng))
}

func Number(r *rand.Rand) string {
	var b strings.Builder
	if r.IntN(3) == 0 {
		b.WriteByte('-')
	}
	switch r.IntN(4) {
	case 0:
		b.WriteByte('0')
	case 1:
		fmt.Fprintf(&b, "%d", 1+r.IntN(999))
	case 2:
		fmt.Fprintf(&b, "%d", r.Uint64()|1)
	case 3:
		b.WriteString("1" + strings.Repeat("7", r.IntN(60)))
	}
	if r.IntN(3) == 0 {
		fmt.Fprintf(&b, ".%d", r.IntN(100000))
	}
	if r.IntN(3) == 0 {
		b.WriteString([]string{"e", "E"}[r.IntN(2)])
		b.WriteString([]string{"", "+", "-"}[r.IntN(3)])
		fmt.Fprintf(&b, "%d", r.IntN(30))
	}
	return b.String()
}

// Value writes any json value.
func (w *W) Value(depth int) {
	n := 7
	if depth <= 0 {
		n = 5
	}
	switch w.Rng.IntN(n) {
	case 0:
		w.Raw("null")
	case 1:
		w.Raw([]string{"true", "false"}[w.Rng.IntN(2)])
	case 2:
		w.Number()
	case 3, 4:
		w.Str(Text(w.Rng))
	case 5:
		w.Array(w.Rng.IntN(5), func(int) { w.Value(depth - 1) })
	case 6:
		var ms []Member
		seen := map[string]bool{}
		for i := w.Rng.IntN(5); i > 0; i-- {
			key := Text(w.Rng)
			if seen[key] {
				continue
			}
			seen[key] = true
			ms = append(ms, Member{key, func(w *W) { w.Value(depth - 1) }})
		}
		w.Object(ms)
	}
}

// Deep writes a deeply nested but well-formed value.
func (w *W) Deep(depth int) {
	var close []string
	for i := 0; i < depth; i++ {
		if w.Rng.IntN(2) == 0 {
			w.Raw("[")
			close = append(close, "]")
		} else {
			w.Raw(`{"d":`)
			close = append(close, "}")
		}
	}
	w.Raw("1")
	for i := len(close) - 1; i >= 0; i-- {
		w.Raw(close[i])
	}
}

var words = []string{"http.status_code", "http.url", "/api/v2/spans", "span.kind", "sampling.priority", "component", "error.message", "False", "TRUE", "1", "YWJj", "404", "GET", "http.path", "http.method", "error", "lc", "spring-instance-id", "mvc.controller.class", "sql", "peer.service", "x", "customer-service", "get /users/{id}", "true", "0", "db"}

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', 0x01, 0x1f, 0x7f, 'ä', 'ß', 'é', '€', '日', 0x2028, 0xfffd, '😀', 0x10ffff, 0x10000, 'u', 'n', '{', '}', '[', ']', ':', ',', '\u0085', '\u00a0'}

// tags that have a meaning to somebody, with the values they usually have
var real = [][]string{
	{"http.status_code", "200", "204", "302", "400", "404", "429", "500", "503", "5xx", ""}, {"http.method", "GET", "POST", "get"}, {"http.url", "https://host:8080/a/b?c=d#e", "/"}, {"http.path", "/users/1", "/health"},
	{"error", "true", "false", "0", "1", "timeout", ""}, {"error.msg", "boom"}, {"error.message", "boom"}, {"error.type", "java.lang.IllegalStateException"}, {"error.stack", "a\nb\nc"}, {"exception", "true"},
	{"db.type", "sql", "redis"}, {"db.statement", "SELECT * FROM users WHERE id = ?"}, {"sql.query", "SELECT 1"}, {"db.instance", "users"},
	{"peer.service", "users", "auth"}, {"peer.hostname", "10.0.0.1"}, {"peer.ipv4", "10.0.0.1"}, {"peer.port", "80", "5432"}, {"peer.address", "10.0.0.1:80"},
	{"span.kind", "client", "server", "producer", "consumer"}, {"span.type", "web", "db", "cache", "http"}, {"component", "spring", "jdbc"}, {"lc", "grpc"}, {"type", "web"},
	{"service", "other"}, {"service.name", "other"}, {"resource.name", "GET /"}, {"resource", "GET /"}, {"name", "other"}, {"operation", "get"}, {"operation.name", "get"},
	{"sampling.priority", "-1", "0", "1", "2"}, {"manual.keep", "true", "1"}, {"manual.drop", "true", "1"}, {"_sampling_priority_v1", "0", "2"}, {"sampler.type", "const", "probabilistic"}, {"sampler.param", "1", "0.01"}, {"sampled", "false", "true"}, {"debug", "true", "1"}, {"analytics.event", "true"}, {"_dd.origin", "synthetics"},
	{"env", "prod", "staging", "test"}, {"version", "1.2.3"}, {"host", "h1"}, {"hostname", "h1"}, {"ip", "10.0.0.1"}, {"language", "java", "go"}, {"system.pid", "1"}, {"out.host", "h2"}, {"customer.id", "17"},
	{"protocolVersion", "json v1", "json v2", "jaeger", "thrift v1", "other"}, {"internal.span.format", "zipkin", "proto"}, {"jaeger.version", "Go-2.30"}, {"otel.status_code", "ERROR", "OK"}, {"status.code", "2"}, {"grpc.status_code", "0", "14"},
	{"cs", "1"}, {"ss", "1"}, {"id", "1"}, {"traceId", "1"}, {"parent", "1"}, {"duration", "1"}, {"timestamp", "1"}, {"tags", "{}"}, {"fake-root", "true"}, {"warning", "x"}, {"url", "/"}, {"user", "u"}, {"message", "m"}, {"password", "secret"}, {"authorization", "Bearer x"}, {"cookie", "c"},
}

// RealTag returns a tag as it is found in practice.
func RealTag(r *rand.Rand) (key, value string) {
	t := real[r.IntN(len(real))]
	if d := dict.Get(); d.FreshStrings() && r.IntN(4) == 0 {
		return d.String(r), real[r.IntN(len(real))][1]
	}
	return t[0], t[1+r.IntN(len(t)-1)]
}

// Text returns a random valid utf-8 string.
func Text(r *rand.Rand) string {
	if d := dict.Get(); r.IntN(15) == 0 || d.FreshStrings() && r.IntN(8) == 0 {
		return d.String(r)
	}
	switch r.IntN(10) {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return words[r.IntN(len(words))]
	case 5, 6, 7:
		var b strings.Builder
		for i := r.IntN(12); i >= 0; i-- {
			b.WriteRune(runes[r.IntN(len(runes))])
		}
		return b.String()
	case 8:
		var b strings.Builder
		for i := r.IntN(60); i >= 0; i-- {
			c := rune(r.IntN(0x3000))
			if r.IntN(3) == 0 {
				c = rune(r.IntN(0x80))
			}
			if utf8.ValidRune(c) {
				b.WriteRune(c)
			}
		}
		return b.String()
	default:
		if r.IntN(8) > 0 {
			return words[r.IntN(len(words))] + "-" + fmt.Sprint(r.Uint32())
		}
		return Long(r)
	}
}

// Long returns a string with a length around the buffer sizes that matter.
func Long(r *rand.Rand) string {
	base := []int{100, 500, 1000, 4090, 8150, 8192, 12000, 16384, 33000}[r.IntN(9)]
	n := base + r.IntN(60)
	if r.IntN(2) == 0 {
		unit := fmt.Sprintf("%08x", r.Uint32())
		return strings.Repeat(unit, n/len(unit)+1)[:n]
	}
	var b strings.Builder
	for b.Len() < n {
		b.WriteRune(runes[r.IntN(len(runes))])
	}
	return b.String()
}
