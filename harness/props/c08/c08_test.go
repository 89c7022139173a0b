package c08

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dec"
	"verif/harness/lib/gen"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

type payload struct {
	class  string
	format int // index into dec.Formats, 3 for binary
	mark   string
	data   []byte
	want   *outcome // if well-formed
	first  atomic.Pointer[outcome]
}

type outcome struct {
	failed bool
	canon  string
}

func (o *outcome) String() string {
	if o.failed {
		return "error"
	}
	return o.canon
}

var serial atomic.Uint64

// markers in use. The markers are sparse, so damaging one never results in another one.
var issued sync.Map

func newMark() string {
	mark := fmt.Sprintf("<p%016x>", rep.Hash("mark", serial.Add(1)))
	issued.Store(mark, true)
	return mark
}

func newPayload(rng *rand.Rand, class string) *payload {
	p := &payload{class: class, mark: newMark()}
	p.format = rng.IntN(4)
	o := gen.Opts{Mark: p.mark, Plain: rng.IntN(2) == 0, NoLong: rng.IntN(6) > 0, Short: rng.IntN(3) == 0, MaxSpans: []int{2, 5, 90}[rng.IntN(3)]}
	if class == "repeated keys" {
		p.format = rng.IntN(2)
		o.Duplicates = true
	}
	if rng.IntN(40) == 0 {
		o.Large = gen.NewLarge(rng, 1)
		// the reference would not take this for something else's text
		if o.Large.Dim == "text" || o.Large.Dim == "spans" {
			o.Large.Size = min(o.Large.Size, 200_000)
		}
	}
	if p.format == 3 {
		span := proxy.Span{Id: proxy.Id(rng.Uint64()), Trace: proxy.Id(rng.Uint64()), Name: p.mark + gen.Text(rng), Service: p.mark + gen.Text(rng)}
		for k := rng.IntN(6); k > 0; k-- {
			span.AddTag(p.mark+gen.Text(rng), p.mark+gen.Text(rng))
		}
		var buf bytes.Buffer
		_ = codec.BinaryEncode(span, &buf)
		p.data = buf.Bytes()
		p.want = &outcome{canon: ref.Canon(span)}
	} else {
		f := dec.Formats[p.format]
		p.data = f.Gen(rng, o)
		if class == "valid" {
			p.want = &outcome{canon: strings.Join(ref.CanonAll(f.Ref(p.data)), "\n")}
		}
	}
	if class == "malformed" {
		p.want = nil
		if rng.IntN(2) == 0 {
			p.data = p.data[:rng.IntN(len(p.data)+1)]
		} else {
			p.data = gen.Mutate(rng, p.data)
		}
	}
	return p
}

func (p *payload) decode(rng *rand.Rand) ([]proxy.Span, error) {
	if p.format == 3 {
		// the buffer belongs to us, and is used for something else afterwards
		data := append([]byte(nil), p.data...)
		span, err := codec.BinaryDecode(bytes.NewReader(data))
		for i := range data {
			data[i] = '#'
		}
		if err != nil {
			return nil, err
		}
		return []proxy.Span{span}, nil
	}
	var reader io.Reader = bytes.NewReader(p.data)
	if rng.IntN(2) == 0 {
		reader = gen.NewReader(rng, p.data)
	}
	return dec.Formats[p.format].Parse(reader)
}

// foreign returns text that belongs to another payload
func foreign(mark string, spans []proxy.Span) string {
	check := func(s string) string {
		for rest := s; ; {
			i := strings.Index(rest, "<p")
			if i < 0 || i+len(mark) > len(rest) {
				return ""
			}
			got := rest[i : i+len(mark)]
			if _, ok := issued.Load(got); ok && got != mark {
				return s
			}
			rest = rest[i+2:]
		}
	}
	for _, span := range spans {
		texts := []string{span.Name, span.Service}
		for key, value := range span.Tags {
			texts = append(texts, key, value)
		}
		for _, text := range texts {
			if s := check(text); s != "" {
				return s
			}
		}
	}
	return ""
}

type kept struct {
	p     *payload
	spans []proxy.Span
	canon string
}

func worker(r *rep.R, id int, shared []*payload, steps int) {
	rng := r.Rand("worker", id)
	var held []kept

	verify := func(k kept) bool {
		r.Count("results inspected again", 1)
		if now := strings.Join(ref.CanonAll(k.spans), "\n"); now != k.canon {
			r.Violate("changed", fmt.Sprintf("spans of a %s payload changed after they were returned", k.p.class),
				map[string]any{"before": k.canon, "now": now})
			return false
		}
		return true
	}

	for i := 0; i < steps; i++ {
		var p *payload
		switch x := rng.IntN(10); {
		case x < 6:
			p = shared[rng.IntN(len(shared))]
		case x < 8:
			p = newPayload(rng, "valid")
		case x < 9:
			p = newPayload(rng, "repeated keys")
		default:
			p = newPayload(rng, "malformed")
		}

		spans, err := p.decode(rng)
		got := &outcome{failed: err != nil}
		if err == nil {
			got.canon = strings.Join(ref.CanonAll(spans), "\n")
		}
		r.Eval(rep.Hash(p.data, i, id), len(p.data) > 4)
		r.Count(p.class+" payloads decoded", 1)
		r.Distinct("payloads", rep.Hash(p.data))

		witness := map[string]any{"payload": string(p.data), "format": p.format, "class": p.class, "got": got.String(), "worker": id, "step": i}

		if text := foreign(p.mark, spans); text != "" {
			witness["text"] = text
			r.Violate("leak", fmt.Sprintf("span holds text of another payload: %.200q", text), witness)
		}
		if p.want != nil && *got != *p.want {
			witness["want"] = p.want.String()
			r.Violate("wrong", fmt.Sprintf("valid %s payload decoded differently after other payloads", p.class), witness)
		}
		if !p.first.CompareAndSwap(nil, got) {
			r.Count("repeated decodes of a payload", 1)
			if first := p.first.Load(); *first != *got {
				witness["first"] = first.String()
				r.Violate("history", fmt.Sprintf("a %s payload is not decoded the same way again", p.class), witness)
			}
		}

		if len(spans) > 0 {
			k := kept{p, spans, got.canon}
			if len(held) < 400 {
				held = append(held, k)
			} else {
				at := rng.IntN(len(held))
				verify(held[at])
				held[at] = k
			}
		}
		r.Progress("decode")
	}
	for _, k := range held {
		if !verify(k) {
			break
		}
	}
}

func Test(t *testing.T) {
	rep.Run(t, "C08", "histories of valid, malformed and repeated-key payloads (each with its own marker text) decoded by 8 concurrent goroutines under the race detector; every result compared with a reference, with the first result for the same payload and inspected again later; a case is one decode", func(r *rep.R) {
		r.WatchCPU(300 * time.Second)
		r.Need("repeated decodes of a payload", 2000)
		r.Need("results inspected again", 2000)
		r.Need("repeated keys payloads decoded", 500)
		rng := r.Rand("shared")
		var shared []*payload
		for i := 0; i < 240; i++ {
			shared = append(shared, newPayload(rng, []string{"valid", "malformed", "repeated keys"}[i%3]))
		}
		r.Sample(string(shared[2].data))

		// alone first, so that the pools are used one after another
		worker(r, 100, shared, r.N(1000, 20000))

		var wg sync.WaitGroup
		for id := 0; id < 8; id++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				worker(r, id, shared, r.N(600, 30000))
			}()
		}
		wg.Wait()
	})
}
