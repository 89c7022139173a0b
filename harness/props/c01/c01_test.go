package c01

import (
	"bytes"
	"cmp"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/agent"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
	"verif/harness/lib/svc"
)

// slow hands out a body in parts, with pauses between some of them.
type slow struct {
	data   []byte
	rng    *rand.Rand
	pauses int
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	if s.pauses > 0 && s.rng.IntN(2) == 0 {
		s.pauses--
		time.Sleep(time.Duration(s.rng.IntN(40)) * time.Millisecond)
	}
	n := min(1+s.rng.IntN(1+len(s.data)/2), len(p), len(s.data))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

type post struct {
	kind   string
	format svc.Format
	ctype  string
	enc    string
	body   []byte
	raw    [][]byte // sent over a connection of its own instead
	slow   bool
	length bool // with a content length
	header map[string]string
	query  string
	leave  time.Duration // does not wait for the answer
	ok     bool
	spans  []proxy.Span
}

type wave struct {
	r   *rep.R
	s   *svc.Svc
	rng *rand.Rand
	ids *svc.Ids

	budget int  // spans for documents of a certain size
	whole  bool // no spans in several parts
}

// token makes something that can be the value of a header.
func (w *wave) token() string {
	s := ""
	switch w.rng.IntN(3) {
	case 0:
		s = dict.Get().String(w.rng)
	case 1:
		s = fmt.Sprint(w.rng.IntN(1000))
	case 2:
		s = fmt.Sprintf("%016x", w.rng.Uint64())
	}
	return strings.TrimSpace(strings.Map(func(c rune) rune {
		if c < ' ' || c > '~' {
			return -1
		}
		return c
	}, s))
}

// header makes headers that have no meaning to the service.
func (w *wave) header() map[string]string {
	res := map[string]string{}
	names := []string{"User-Agent", "Accept", "Accept-Encoding", "X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled", "X-B3-Flags", "B3", "Traceparent",
		"X-Request-Id", "X-Forwarded-For", "X-Real-Ip", "Forwarded", "Authorization", "Cookie", "Origin", "Referer", "Cache-Control", "Dnt", "If-None-Match", "Uber-Trace-Id", "X-Debug", "Date", "Priority"}
	for range 1 + w.rng.IntN(3) {
		name := names[w.rng.IntN(len(names))]
		if w.rng.IntN(4) == 0 {
			name = strings.Trim(strings.Map(func(c rune) rune {
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
					return c
				}
				return -1
			}, dict.Get().String(w.rng)), "-")
			switch l := strings.ToLower(name); {
			case l == "" || strings.HasPrefix(l, "content") || strings.HasPrefix(l, "transfer") || strings.HasPrefix(l, "x-http-method"):
				continue
			case slices.Contains([]string{"connection", "host", "expect", "trailer", "upgrade", "te", "keep-alive", "proxy-connection"}, l):
				continue
			}
		}
		value := w.token()
		switch w.rng.IntN(8) {
		case 0:
			value = []string{"gzip", "identity", "application/json", "curl/8.5.0", "zipkin-go", "okhttp/3.9", "Jaeger-Go-2.30", "no-cache", "1", "d"}[w.rng.IntN(10)]
		}
		res[name] = value
	}
	return res
}

var letters = []string{"a", "B", "ä", "日", "\\", "\"", "<", "/", " ", "\n", "\u0001", "😀"}

func (w *wave) text(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(letters[w.rng.IntN(len(letters))])
	}
	return b.String()
}

func (w *wave) spans(n int) []svc.S {
	res := make([]svc.S, n)
	service := "svc-" + w.text(w.rng.IntN(5))
	if w.rng.IntN(6) == 0 {
		service = gen.Text(w.rng)
		if strings.TrimSpace(service) == "" || !utf8.ValidString(service) {
			service = "svc"
		}
	}
	for i := range res {
		id := w.ids.Next()
		s := svc.S{Trace: id, Id: id, Name: fmt.Sprintf("n-%x-%s", uint64(id), w.text(w.rng.IntN(6))), Service: service,
			Start: 1_600_000_000_000_000 + w.rng.Int64N(1e12), Duration: 1 + w.rng.Int64N(1e6)}
		if w.rng.IntN(3) == 0 {
			s.Tags = map[string]string{"mark": fmt.Sprintf("%x", uint64(id)), "x": w.text(w.rng.IntN(40))}
		}
		if w.rng.IntN(200) == 0 {
			s.Tags = map[string]string{"long": w.text(200 + w.rng.IntN(12000))}
		}
		if w.rng.IntN(20) == 0 {
			// as clients write it
			s.Tags = map[string]string{}
			for range 1 + w.rng.IntN(4) {
				k, v := gen.Text(w.rng), gen.Text(w.rng)
				if w.rng.IntN(2) == 0 {
					k, v = gen.RealTag(w.rng)
				}
				if k != "lc" && utf8.ValidString(k) && utf8.ValidString(v) {
					s.Tags[k] = v
				}
			}
		}
		if w.rng.IntN(4) == 0 {
			s.Kind = []string{"CLIENT", "SERVER", "PRODUCER", "CONSUMER"}[w.rng.IntN(4)]
		}
		res[i] = s
	}
	if !w.whole && w.rng.IntN(6) == 0 {
		// spans that are reported in several parts
		for i, s := range res[:len(res)/2] {
			for k := w.rng.IntN(4); k > 0; k-- {
				part := s
				part.Tags = map[string]string{}
				if w.rng.IntN(4) > 0 {
					part.Tags[fmt.Sprintf("part-%d-%d", i, k)] = w.text(3)
				} else {
					part.Tags = s.Tags // the very same again
				}
				res = append(res, part)
			}
		}
		w.rng.Shuffle(len(res), func(i, k int) { res[i], res[k] = res[k], res[i] })
	}
	return res
}

// gate holds up the processing of traces while it is closed.
type gate struct {
	mu     sync.Mutex
	opened chan struct{}
}

func (g *gate) close() {
	g.mu.Lock()
	g.opened = make(chan struct{})
	g.mu.Unlock()
}

func (g *gate) open() {
	g.mu.Lock()
	close(g.opened)
	g.opened = nil
	g.mu.Unlock()
}

func (g *gate) pass() {
	g.mu.Lock()
	opened := g.opened
	g.mu.Unlock()
	if opened != nil {
		<-opened
	}
}

// damagedGzip breaks a gzip stream so that the reference implementation notices it.
func (w *wave) damagedGzip(good []byte) ([]byte, string) {
	for {
		data := bytes.Clone(good)
		kind := ""
		switch w.rng.IntN(5) {
		case 0:
			kind = "truncated"
			data = data[:w.rng.IntN(len(data))]
		case 1:
			kind = "trailer cut"
			data = data[:len(data)-1-w.rng.IntN(8)]
		case 2:
			kind = "bit flip"
			data[w.rng.IntN(len(data))] ^= 1 << w.rng.IntN(8)
		case 3:
			kind = "wrong checksum"
			data[len(data)-8+w.rng.IntN(4)] ^= 1 << w.rng.IntN(8)
		case 4:
			kind = "wrong length"
			data[len(data)-4+w.rng.IntN(4)] ^= 1 << w.rng.IntN(8)
		}
		zr, err := gzip.NewReader(bytes.NewReader(data))
		if err == nil {
			_, err = io.Copy(io.Discard, zr)
		}
		if err != nil {
			return data, kind
		}
	}
}

// lastObject returns where the last object begins that is not empty.
func lastObject(doc []byte) (at int) {
	text := false
	for i := 0; i < len(doc)-1; i++ {
		switch {
		case text && doc[i] == '\\':
			i++
		case doc[i] == '"':
			text = !text
		case !text && doc[i] == '{' && doc[i+1] == '"':
			at = i
		}
	}
	return at
}

// broken makes a document that is not valid json any more.
func (w *wave) broken(doc []byte) []byte {
	end := bytes.LastIndexByte(doc, ']')
	switch w.rng.IntN(16) {
	case 0: // nothing there
		return nil
	case 1:
		return [][]byte{[]byte(" "), []byte("\n"), []byte("\r\n\t "), bytes.Repeat([]byte(" "), w.rng.IntN(10_000))}[w.rng.IntN(4)]
	}
	switch w.rng.IntN(4) {
	case 0: // ends early
		return doc[:w.rng.IntN(end)]
	case 1: // a span is not an object
		at := lastObject(doc)
		return append(append(bytes.Clone(doc[:at]), 'x'), doc[at+1:]...)
	case 2: // an id is not a number
		for _, name := range []string{`"traceId":"`, `"traceID":"`} {
			if at := bytes.LastIndex(doc, []byte(name)); at >= 0 {
				res := bytes.Clone(doc)
				res[at+len(name)] = 'g'
				return res
			}
		}
		fallthrough
	default: // breaks off inside of the last span
		at := lastObject(doc)
		return doc[:at+1+w.rng.IntN(end-at-1)]
	}
}

func head(f svc.Format, extra string) []byte {
	return []byte("POST " + f.Path + " HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n" + extra + "\r\n")
}

// byHand makes the head of a request.
func (w *wave) byHand(p post) []byte {
	lines := []string{"Host: x", fmt.Sprintf("Content-Length: %d", len(p.body))}
	if p.ctype != "" {
		lines = append(lines, "Content-Type: "+p.ctype)
	}
	if p.enc != "" {
		lines = append(lines, "Content-Encoding: "+p.enc)
	}
	style := w.rng.IntN(4)
	for i, l := range lines {
		name, value, _ := strings.Cut(l, ": ")
		switch style {
		case 1:
			lines[i] = strings.ToLower(name) + ":" + value
		case 2:
			lines[i] = strings.ToUpper(name) + ":  " + value + " \t"
		}
	}
	w.rng.Shuffle(len(lines), func(i, k int) { lines[i], lines[k] = lines[k], lines[i] })
	return []byte("POST " + p.format.Path + p.query + " HTTP/1." + []string{"0", "1"}[w.rng.IntN(2)] + "\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n")
}

func (w *wave) post() post {
	f := svc.Formats[w.rng.IntN(3)]
	n := w.rng.IntN(8)
	switch w.rng.IntN(40) {
	case 0:
		n = 300 + w.rng.IntN(300)
	case 1, 2, 3:
		n = 20 + w.rng.IntN(60)
	case 4:
		if k, ok := gen.DictSize(w.rng, 10, 1500); ok && w.budget > k {
			w.budget -= k
			n = k
		}
	}
	p := post{format: f, ctype: f.Type, slow: w.rng.IntN(12) == 0, length: w.rng.IntN(3) > 0}
	if f.Name == "v1" {
		p.ctype = []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}[w.rng.IntN(3)]
	} else {
		p.ctype = []string{"application/json", "", "text/plain", "application/x-thrift", "application/x-protobuf", "application/octet-stream", w.token()}[w.rng.IntN(7)]
	}
	if w.rng.IntN(4) == 0 {
		p.header = w.header()
	}
	if w.rng.IntN(6) == 0 {
		if p.header == nil {
			p.header = map[string]string{}
		}
		p.header["Expect"] = "100-continue"
	}
	if w.rng.IntN(12) == 0 {
		p.query = "?" + url.QueryEscape(gen.Text(w.rng))
		if w.rng.IntN(2) == 0 {
			p.query += "=" + url.QueryEscape(gen.Text(w.rng))
		}
	}
	if w.rng.IntN(3) > 0 {
		p.ok = true
	} else {
		n = max(n, 1)
	}
	doc := f.Doc(w.spans(n))
	p.spans = f.Ref(doc)
	zip := func() []byte {
		level := []int{0, 1, 6, 9, -2}[w.rng.IntN(5)]
		if len(doc) > 10 && w.rng.IntN(10) == 0 {
			// a stream of two members
			at := w.rng.IntN(len(doc))
			return append(svc.Gzip(level, doc[:at]), svc.Gzip(level, doc[at:])...)
		}
		return svc.Gzip(level, doc)
	}
	if p.ok {
		if w.rng.IntN(2) == 0 {
			p.kind, p.enc, p.body = "valid gzip", "gzip", zip()
		} else {
			p.kind, p.body = "valid plain", doc
		}
		if w.rng.IntN(8) == 0 {
			// an old client, or one that writes the headers in its own way
			p.kind += " by hand"
			p.raw = [][]byte{w.byHand(p), p.body}
		}
		return p
	}

	end := bytes.LastIndexByte(doc, ']')
	switch w.rng.IntN(8) {
	case 0, 1:
		p.kind, p.body = "malformed plain", w.broken(doc)
		if len(bytes.TrimSpace(p.body)) == 0 {
			p.kind = "without a document"
		}
	case 2:
		p.kind, p.enc, p.body = "malformed gzip", "gzip", svc.Gzip(6, w.broken(doc))
	case 3, 4:
		p.enc = "gzip"
		p.body, p.kind = w.damagedGzip(zip())
		p.kind = "gzip " + p.kind
	case 5:
		if w.rng.IntN(2) == 0 {
			p.kind, p.enc, p.body = "plain sent as gzip", "gzip", doc
		} else {
			p.kind, p.body = "gzip sent as plain", zip()
		}
	case 6:
		if f.Name == "v1" {
			p.ctype = []string{"", "text/plain", "application/x-thrift", "application/xml", "json", w.token()}[w.rng.IntN(6)]
			if strings.Contains(p.ctype, "application/json") {
				p.ctype = "json"
			}
			p.kind, p.body = "v1 without json content type", doc
			if w.rng.IntN(2) == 0 {
				p.enc, p.body = "gzip", zip()
			}
			return p
		}
		fallthrough
	default:
		cut := w.rng.IntN(end)
		switch w.rng.IntN(4) {
		case 0:
			p.kind = "connection breaks before the end of the content"
			p.raw = [][]byte{head(f, fmt.Sprintf("Content-Length: %d\r\n", len(doc))), doc[:cut]}
		case 1:
			p.kind = "connection breaks before the last chunk"
			p.raw = [][]byte{head(f, "Transfer-Encoding: chunked\r\n")}
			if cut > 0 {
				p.raw = append(p.raw, []byte(fmt.Sprintf("%x\r\n%s\r\n", cut, doc[:cut])))
			}
		case 2:
			p.kind = "damaged chunk"
			p.raw = [][]byte{head(f, "Transfer-Encoding: chunked\r\n")}
			if cut > 0 {
				p.raw = append(p.raw, []byte(fmt.Sprintf("%x\r\n%s\r\n", cut, doc[:cut])))
			}
			p.raw = append(p.raw, []byte("zz\r\n"), doc[cut:], []byte("\r\n0\r\n\r\n"))
		case 3:
			p.kind = "connection breaks inside of gzip"
			z := svc.Gzip(6, doc)
			p.raw = [][]byte{head(f, fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n", len(z))), z[:w.rng.IntN(len(z)-8)]}
		}
	}
	return p
}

// large makes a valid post of many megabytes, most of which says nothing.
func (w *wave) large(k int) post {
	f := svc.Formats[w.rng.IntN(3)]
	doc := f.Doc(w.spans(1 + w.rng.IntN(4)))
	size := []int{1_200_000, 5_000_000, 10_000_000, 18_000_000, 35_000_000 + w.rng.IntN(10_000_000)}[k%5] + w.rng.IntN(500_000)
	at := bytes.LastIndexByte(doc, ']')
	padding := bytes.Repeat([]byte{" \n\t"[w.rng.IntN(3)]}, size)
	if w.rng.IntN(2) == 0 {
		// a field that nobody knows
		at = bytes.Index(doc, []byte(`{"`)) + 1
		padding = append(append([]byte(`"filler":"`), bytes.Repeat([]byte{'x'}, size)...), `",`...)
	}
	body := append(append(bytes.Clone(doc[:at]), padding...), doc[at:]...)
	p := post{format: f, ctype: f.Type, ok: true, length: w.rng.IntN(2) == 0, spans: f.Ref(doc), kind: "large plain", body: body}
	if k/5%2 == 0 {
		p.kind, p.enc, p.body = "large gzip", "gzip", svc.Gzip(6, body)
	}
	return p
}

// impatient makes a valid post of a client that goes away soon after it has sent everything.
func (w *wave) impatient() post {
	f := svc.Formats[w.rng.IntN(3)]
	w.whole = true
	doc := f.Doc(w.spans(2 + w.rng.IntN(40)))
	w.whole = false
	p := post{kind: "impatient", format: f, ctype: f.Type, body: doc, spans: f.Ref(doc), leave: time.Duration(1+w.rng.IntN(400)) * time.Millisecond}
	extra, body := "", doc
	if w.rng.IntN(3) == 0 {
		extra, body = "Content-Encoding: gzip\r\n", svc.Gzip(6, doc)
	}
	if w.rng.IntN(2) == 0 {
		p.raw = [][]byte{head(f, extra+fmt.Sprintf("Content-Length: %d\r\n", len(body))), body}
	} else {
		p.raw = [][]byte{head(f, extra+"Transfer-Encoding: chunked\r\n"), []byte(fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(body), body))}
	}
	return p
}

func (w *wave) send(p post, rng *rand.Rand) {
	r := w.r
	var status int
	var text string
	if p.leave > 0 {
		r.Count("posts of impatient clients", 1)
		if w.s.Leave(p.leave, p.raw...) != nil {
			r.Count("posts of impatient clients that were not sent", 1)
		}
		return
	}
	if p.raw != nil {
		status, text = w.s.Raw(p.raw...)
	} else {
		var body io.Reader = struct{ io.Reader }{bytes.NewReader(p.body)}
		if p.slow {
			// it may still be read after the answer has come
			body = &slow{data: p.body, rng: rand.New(rand.NewPCG(rng.Uint64(), 1)), pauses: 5}
		} else if p.length {
			body = bytes.NewReader(p.body)
		}
		status, text = w.s.PostWith(p.format.Path+p.query, p.ctype, p.enc, p.header, body)
	}
	r.Count("posts", 1)
	r.Count("posts "+p.kind, 1)
	r.Eval(rep.Hash(p.kind, p.format.Name, p.body), len(p.spans) > 0)
	witness := func() any {
		return map[string]any{"kind": p.kind, "path": p.format.Path, "type": p.ctype, "header": p.header, "query": p.query, "encoding": p.enc, "body": fmt.Sprintf("%q", clip(p.body)), "raw": fmt.Sprintf("%q", p.raw), "answer": text}
	}
	switch {
	case status == 0 && strings.Contains(text, "imeout"):
		r.Violate("no-answer", "a post ("+p.kind+") was not answered within 120 s", witness())
	case p.ok && status == 0:
		r.Abort("a valid post got no answer: %s", text)
	case p.ok && status != 202:
		r.Violate("rejected", fmt.Sprintf("a valid post (%s, %s) was answered %d: %s", p.kind, p.format.Name, status, text), witness())
	case !p.ok && status == 0:
		// the connection may be closed while the request is still being sent
		r.Count("rejected without an answer", 1)
		if p.raw == nil && len(p.body) < 100_000 {
			r.Abort("a post got no answer: %s", text)
		}
	case !p.ok && status != 400:
		r.Violate("not-rejected", fmt.Sprintf("a bad post (%s, %s) was answered %d", p.kind, p.format.Name, status), witness())
	}
	r.Count(fmt.Sprintf("status %d", status), 1)
}

func clip(b []byte) []byte { return b[:min(len(b), 20000)] }

func (w *wave) merged() int64 {
	var m map[string]json.RawMessage
	if _, _, err := w.s.Admin("metrics", &m); err != nil {
		return -1
	}
	for name, v := range m {
		if strings.HasSuffix(name, "spans.merged") {
			var c struct {
				Count json.Number `json:"count"`
			}
			if json.Unmarshal(v, &c) == nil {
				n, _ := c.Count.Int64()
				return n
			}
		}
	}
	return 0
}

func same(a, b proxy.Span) string {
	switch {
	case a.Name != b.Name:
		return fmt.Sprintf("name %q instead of %q", a.Name, b.Name)
	case a.Service != b.Service:
		return fmt.Sprintf("service %q instead of %q", a.Service, b.Service)
	case !maps.Equal(a.Tags, b.Tags):
		return fmt.Sprintf("tags %q instead of %q", a.Tags, b.Tags)
	case a.Timestamp != b.Timestamp || a.Duration != b.Duration:
		return fmt.Sprintf("time %d+%d instead of %d+%d", a.Timestamp, a.Duration, b.Timestamp, b.Duration)
	}
	return ""
}

func Test(t *testing.T) {
	rep.Run(t, "C01", "concurrent clients send valid and bad bodies (all formats, plain, gzip, chunked, slow, truncated, damaged) to a running service; the spans that reach its converter are compared with the answers; distinct by kind, format and body, nontrivial if the body describes a span", func(r *rep.R) {
		r.WatchCPU(600 * time.Second)
		r.Need("status 202", 500)
		r.Need("status 400", 200)
		r.Need("spans of accepted posts", 2000)
		r.Need("posts large gzip", 4)
		r.Need("posts large plain", 4)
		r.Need("spans of rejected posts", 500)
		r.Need("spans in several parts", 100)
		r.Need("seconds that posts were held up", 10)
		r.Need("posts of impatient clients that were held up", 30)
		r.Need("clients at the same time", 200)
		a, err := agent.Start()
		if err != nil {
			r.Abort("agent: %v", err)
		}
		var g gate
		s := svc.Start(r, a.Port, func(span proxy.Span) (proxy.Span, error) {
			g.pass()
			return span, nil
		})
		merges := int64(0)
		ids := svc.NewIds(r.Rand("ids"))
		mergedBefore := w0(r, s).merged()

		for n := 0; n < r.N(2, 40); n++ {
			r.Progress(fmt.Sprintf("wave %d", n))
			w := &wave{r: r, s: s, rng: r.Rand("wave", n), ids: ids, budget: 4000}
			from := len(s.Seen(0))
			var posts []post
			total := 0
			for i := 0; i < 1500 && total < 9000; i++ {
				p := w.post()
				if i%4 != n%4 && len(posts) > 600 && len(p.spans) < 3 {
					continue
				}
				if p.ok {
					total += len(p.spans)
				}
				posts = append(posts, p)
			}
			for k := 0; k < 10; k++ {
				posts = append(posts, w.large(k))
			}
			for k := 0; k < 30; k++ {
				posts = append(posts, w.impatient())
			}
			w.rng.Shuffle(len(posts), func(i, k int) { posts[i], posts[k] = posts[k], posts[i] })
			clients := []int{24, 64, 3, 8, 1}[n%5]
			held := n%5 == 1
			var hold time.Duration
			var release *time.Timer
			if held {
				// nothing is taken away from the collector any more, so it stops as well once these traces are complete
				hold = time.Duration(r.N(12, 70)) * time.Second
				g.close()
				for k := 0; k < 150; k++ {
					var p post
					for !p.ok || len(p.spans) == 0 || p.slow {
						p = w.post()
					}
					w.send(p, w.rng)
					posts = append(posts, p)
				}
				time.Sleep(9500 * time.Millisecond)
				clients = 200 + w.rng.IntN(100)
				if k, ok := gen.DictSize(w.rng, 200, 1000); ok {
					clients = k
				}
				r.Count("clients at the same time", clients)
				for k := 0; k < 60; k++ {
					p := w.impatient()
					posts = append(posts[:len(posts)-150], append([]post{p}, posts[len(posts)-150:]...)...)
				}
				release = time.AfterFunc(hold, g.open)
			}
			began := time.Now()
			next := make(chan post)
			var wg sync.WaitGroup
			for c := 0; c < clients; c++ {
				wg.Add(1)
				rng := r.Rand("client", n, c)
				go func() {
					defer wg.Done()
					for p := range next {
						w.send(p, rng)
					}
				}()
			}
			sent := posts
			if held {
				sent = posts[:len(posts)-150]
				// those come first, as nobody gets an answer for long
				slices.SortStableFunc(sent, func(a, b post) int { return cmp.Compare(min(b.leave, 1), min(a.leave, 1)) })
				r.Count("posts of impatient clients that were held up", 90)
			}
			for _, p := range sent {
				next <- p
			}
			close(next)
			wg.Wait()
			if held {
				release.Stop()
				if took := time.Since(began); took < hold {
					r.Count("waves that were not held up", 1)
					g.open()
				} else {
					r.Count("seconds that posts were held up", int(hold/time.Second))
				}
			}

			// everything that was handed over before is emitted before or together with the first sentinel
			var keys []svc.Key
			for i := 0; i < 2; i++ {
				id := ids.Next()
				doc := svc.V2.Doc([]svc.S{{Trace: id, Id: id, Name: "sentinel", Service: "sentinel", Start: 1_600_000_000_000_000, Duration: 10}})
				if status, text := s.Post("/api/v2/spans", "application/json", "", bytes.NewReader(doc)); status != 202 {
					r.Abort("sentinel was answered %d: %s", status, text)
				}
				keys = append(keys, svc.Key{Trace: id, Id: id})
				time.Sleep(time.Second)
			}
			if !s.WaitSeen(90*time.Second, keys) {
				r.Abort("the sentinels did not arrive")
			}
			want, forbidden := map[svc.Key]proxy.Span{}, map[svc.Key]post{}
			var wanted []svc.Key
			parts := 0
			var impatient []post
			either := map[svc.Key]proxy.Span{}
			for _, p := range posts {
				if p.leave > 0 {
					impatient = append(impatient, p)
					for _, span := range p.spans {
						either[svc.Key{Trace: span.Trace, Id: span.Id}] = span
					}
					continue
				}
				for _, span := range p.spans {
					k := svc.Key{Trace: span.Trace, Id: span.Id}
					if p.ok {
						if other, ok := want[k]; ok {
							// another part of it
							parts++
							maps.Copy(other.Tags, span.Tags)
							continue
						}
						want[k] = span
						wanted = append(wanted, k)
					} else {
						forbidden[k] = p
					}
				}
			}
			s.WaitSeen(20*time.Second, wanted)
			// those that did not wait for an answer are processed as a whole or not at all
			arrived := func(p post) (n int) {
				for _, span := range p.spans {
					if s.Count(svc.Key{Trace: span.Trace, Id: span.Id}) > 0 {
						n++
					}
				}
				return n
			}
			deadline := time.Now().Add(20 * time.Second)
			for _, p := range impatient {
				n := arrived(p)
				for n > 0 && n < len(p.spans) && time.Now().Before(deadline) {
					time.Sleep(100 * time.Millisecond)
					n = arrived(p)
				}
				if n > 0 && n < len(p.spans) {
					r.Violate("partly", fmt.Sprintf("%d of %d spans of a post were processed, its client did not wait for the answer", n, len(p.spans)), map[string]any{"path": p.format.Path, "raw": fmt.Sprintf("%q", p.raw)})
				}
				if n == len(p.spans) {
					r.Count("posts of impatient clients that were accepted", 1)
				}
			}
			merges += int64(parts)
			time.Sleep(300 * time.Millisecond)

			got := map[svc.Key]int{}
			for _, span := range s.Seen(from) {
				k := svc.Key{Trace: span.Trace, Id: span.Id}
				got[k]++
				if k == keys[0] || k == keys[1] {
					continue
				}
				in, ok := want[k]
				if !ok {
					in, ok = either[k]
					if ok && got[k] > 1 {
						r.Violate("count", "a span of an impatient client was processed twice", in)
					}
				}
				if !ok {
					if p, ok := forbidden[k]; ok {
						r.Violate("accepted", "a span of a post that was rejected ("+p.kind+") was processed", map[string]any{"span": span, "body": fmt.Sprintf("%q", clip(p.body))})
					} else {
						r.Violate("unknown", "a span was processed that nobody sent", span)
					}
					continue
				}
				if diff := same(span, in); diff != "" {
					r.Violate("content", "a span was processed with "+diff, map[string]any{"got": span, "want": in})
				}
			}
			for k, in := range want {
				if got[k] != 1 {
					r.Violate("count", fmt.Sprintf("a span of an accepted post was processed %d times", got[k]), in)
				}
			}
			r.Count("spans of accepted posts", len(want))
			r.Count("spans of rejected posts", len(forbidden))
			r.Count("waves", 1)
			if n == 0 {
				r.Sample(map[string]any{"kind": posts[0].kind, "body": string(clip(posts[0].body))})
			}
		}
		// the collector counts what it gets for a span it has already
		r.Count("spans in several parts", int(merges))
		if merged := w0(r, s).merged(); merged >= 0 && mergedBefore >= 0 && merged-mergedBefore != merges {
			r.Violate("twice", fmt.Sprintf("%d further parts of spans were handed over, but %d have been accepted", merged-mergedBefore, merges), nil)
		}
	})
}

func w0(r *rep.R, s *svc.Svc) *wave { return &wave{r: r, s: s} }
