package c05

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"

	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// node is the reference view on a json value, built from the tokens of encoding/json.
type node struct {
	kind hyperjson.Type
	text string // decoded string, number text or literal text
	keys []string
	kids []*node
}

func parse(dec *json.Decoder) *node {
	tok, err := dec.Token()
	if err != nil {
		panic(err)
	}
	switch v := tok.(type) {
	case nil:
		return &node{kind: hyperjson.TypeNull, text: "null"}
	case bool:
		return &node{kind: hyperjson.TypeBoolean, text: fmt.Sprint(v)}
	case json.Number:
		return &node{kind: hyperjson.TypeNumber, text: string(v)}
	case string:
		return &node{kind: hyperjson.TypeString, text: v}
	case json.Delim:
		n := &node{kind: hyperjson.TypeArrayBegin}
		if v == '{' {
			n.kind = hyperjson.TypeObjectBegin
		}
		for dec.More() {
			if v == '{' {
				key, err := dec.Token()
				if err != nil {
					panic(err)
				}
				n.keys = append(n.keys, key.(string))
			}
			n.kids = append(n.kids, parse(dec))
		}
		if _, err := dec.Token(); err != nil {
			panic(err)
		}
		return n
	}
	panic("unreachable")
}

type walker struct {
	rng  *rand.Rand
	p    *hyperjson.Parser
	r    *rep.R
	skip int // probability to skip a value
	path []string
}

type mismatch struct{ error }

func (w *walker) fail(format string, args ...any) error {
	path := w.path
	if len(path) > 30 {
		path = path[len(path)-30:]
	}
	return mismatch{fmt.Errorf("at %v: %s", path, fmt.Sprintf(format, args...))}
}

func (w *walker) count(name string) { w.r.Count(name, 1) }

func (w *walker) visit(n *node) error {
	if w.rng.IntN(100) < w.skip {
		w.count("skip")
		if err := w.p.Skip(); err != nil {
			return w.fail("skip of %s failed: %v", n.kind, err)
		}
		return nil
	}

	for k := w.rng.IntN(3); k > 0; k-- {
		w.count("peek")
		typ, err := w.p.NextType()
		if err != nil || typ != n.kind {
			return w.fail("next type is %v (%v), want %v", typ, err, n.kind)
		}
	}

	switch n.kind {
	case hyperjson.TypeArrayBegin:
		if w.rng.IntN(2) == 0 {
			idx := 0
			err := w.p.ReadArray(func() error {
				if idx >= len(n.kids) {
					return w.fail("array has more than %d elements", len(n.kids))
				}
				w.path = append(w.path, fmt.Sprint(idx))
				err := w.visit(n.kids[idx])
				w.path = w.path[:len(w.path)-1]
				idx++
				return err
			})
			if err == nil && idx != len(n.kids) {
				err = w.fail("array has %d elements, want %d", idx, len(n.kids))
			}
			return w.wrap("read array", err)
		}
		if err := w.p.ConsumeArrayBegin(); err != nil {
			return w.fail("array begin: %v", err)
		}
		for idx, kid := range n.kids {
			w.path = append(w.path, fmt.Sprint(idx))
			if err := w.visit(kid); err != nil {
				return err
			}
			w.path = w.path[:len(w.path)-1]
		}
		if typ, err := w.p.NextType(); err != nil || typ != hyperjson.TypeArrayEnd {
			return w.fail("next type is %v (%v) instead of array end", typ, err)
		}
		if err := w.p.ConsumeArrayEnd(); err != nil {
			return w.fail("array end: %v", err)
		}
		return nil

	case hyperjson.TypeObjectBegin:
		if w.rng.IntN(2) == 0 {
			idx := 0
			err := w.p.ReadObject(func(key []byte) error {
				if idx >= len(n.kids) {
					return w.fail("object has more than %d members", len(n.kids))
				}
				if string(key) != n.keys[idx] {
					return w.fail("key is %q, want %q", key, n.keys[idx])
				}
				w.path = append(w.path, fmt.Sprint(idx))
				err := w.visit(n.kids[idx])
				w.path = w.path[:len(w.path)-1]
				idx++
				return err
			})
			if err == nil && idx != len(n.kids) {
				err = w.fail("object has %d members, want %d", idx, len(n.kids))
			}
			return w.wrap("read object", err)
		}
		if err := w.p.ConsumeObjectBegin(); err != nil {
			return w.fail("object begin: %v", err)
		}
		for idx, kid := range n.kids {
			tok, err := w.p.ReadString()
			if err != nil || tok.Type != hyperjson.TypeString || string(tok.Value) != n.keys[idx] {
				return w.fail("key is %q (%v), want %q", tok.Value, err, n.keys[idx])
			}
			w.path = append(w.path, fmt.Sprint(idx))
			if err := w.visit(kid); err != nil {
				return err
			}
			w.path = w.path[:len(w.path)-1]
		}
		if typ, err := w.p.NextType(); err != nil || typ != hyperjson.TypeObjectEnd {
			return w.fail("next type is %v (%v) instead of object end", typ, err)
		}
		if err := w.p.ConsumeObjectEnd(); err != nil {
			return w.fail("object end: %v", err)
		}
		return nil
	}

	var tok hyperjson.Token
	var err error
	if w.rng.IntN(2) == 0 {
		w.count("read literal")
		tok, err = w.p.ReadLiteral()
	} else {
		switch n.kind {
		case hyperjson.TypeNull:
			tok, err = w.p.ReadNull()
		case hyperjson.TypeBoolean:
			tok, err = w.p.ReadBoolean()
		case hyperjson.TypeNumber:
			tok, err = w.p.ReadNumber()
		case hyperjson.TypeString:
			tok, err = w.p.ReadString()
		}
	}
	w.count(n.kind.String())
	if err != nil || tok.Type != n.kind || string(tok.Value) != n.text {
		return w.fail("token is %v %q (%v), want %v %q", tok.Type, tok.Value, err, n.kind, n.text)
	}
	return nil
}

func (w *walker) wrap(what string, err error) error {
	if err == nil {
		return nil
	}
	var m mismatch
	if errors.As(err, &m) {
		return m
	}
	return w.fail("%s: %v", what, err)
}

// large makes a text in which one thing is large.
func large(rng *rand.Rand, r *rep.R) []byte {
	w := &gen.W{Rng: rng}
	kind := []string{"string", "escaped string", "key", "number", "array", "object", "depth", "whitespace", "strings"}[rng.IntN(9)]
	r.Count("texts with large "+kind, 1)
	w.Raw(`{"a": [1, `)
	switch kind {
	case "string":
		w.Raw(`"` + strings.Repeat("x", gen.Size(rng, 1000, 4_000_000)) + `"`)
	case "escaped string":
		w.Str(gen.TextOfSize(rng, gen.Size(rng, 1000, 2_000_000)))
	case "key":
		w.Raw(`{"` + strings.Repeat("k", gen.Size(rng, 1000, 2_000_000)) + `": true}`)
	case "number":
		w.Raw("1" + strings.Repeat("0123456789", gen.Size(rng, 20, 50_000)))
	case "array":
		w.Array(gen.Size(rng, 1000, 300_000), func(i int) { w.Raw([]string{"1", "null", `""`, "[]", "{}"}[i%5]) })
	case "object":
		n := gen.Size(rng, 1000, 100_000)
		w.Raw("{")
		for i := 0; i < n; i++ {
			if i > 0 {
				w.Raw(",")
			}
			fmt.Fprintf(&w.B, `"%x":%d`, i, i)
		}
		w.Raw("}")
	case "depth":
		w.Deep(gen.Size(rng, 1000, 9_000))
	case "whitespace":
		w.Raw(strings.Repeat([]string{" ", "\n", "\r\n\t "}[rng.IntN(3)], gen.Size(rng, 1000, 1_000_000)) + "7")
	case "strings":
		w.Array(gen.Size(rng, 100, 20_000), func(i int) { w.Str(strings.Repeat("s", i%200)) })
	}
	w.Raw(`, "end", -1], "b": "last"}`)
	return []byte(w.B.String())
}

func document(rng *rand.Rand) []byte {
	w := &gen.W{Rng: rng}
	w.WS()
	switch rng.IntN(8) {
	case 0:
		w.Deep(2 + rng.IntN(2000))
	case 1:
		return gen.V1(rng, gen.Opts{})
	case 2:
		return gen.V2(rng, gen.Opts{})
	case 3:
		return gen.Jaeger(rng, gen.Opts{NoLong: true})
	case 4, 5:
		w.Array(rng.IntN(12), func(int) { w.Value(4) })
	default:
		var ms []gen.Member
		for i := rng.IntN(12); i > 0; i-- {
			ms = append(ms, gen.Member{Key: gen.Text(rng), Write: func(w *gen.W) { w.Value(4) }})
		}
		w.Object(ms)
	}
	return []byte(w.B.String())
}

type witness struct {
	Doc, Reader string
	Buffer      int
	Skip        int
}

func check(r *rep.R, rng *rand.Rand, doc []byte, root *node, buffer int, reader *gen.Reader) bool {
	skip := []int{0, 0, 3, 20, 50}[rng.IntN(5)]
	var p *hyperjson.Parser
	name := reader.Name
	switch {
	case buffer == -2:
		// directly from memory
		name = "bytes"
		p = hyperjson.NewWithBytes(append([]byte(nil), doc...))
	case buffer == -1:
		p = hyperjson.NewWithReader(reader, nil)
	default:
		buf := make([]byte, buffer)
		rng := rand.New(rand.NewPCG(1, uint64(buffer)))
		for i := range buf {
			buf[i] = "\"]}0 n,"[rng.IntN(7)]
		}
		p = hyperjson.NewWithReader(reader, buf)
	}
	r.Journal([]byte(fmt.Sprintf("buffer=%d reader=%s\n%s", buffer, name, doc)))
	w := &walker{rng: rng, p: p, r: r, skip: skip}
	err := w.visit(root)
	if err == nil {
		// nothing is left
		if typ, e := p.NextType(); e == nil {
			err = fmt.Errorf("another value (%v) after the end of the text", typ)
		} else if !errors.Is(e, io.EOF) {
			err = fmt.Errorf("end of the text reported as %v", e)
		}
	}
	r.Eval(rep.Hash(doc, name, buffer, skip), len(root.kids) > 0)
	r.Distinct("buffer sizes", uint64(buffer+10))
	r.Distinct("reader modes", rep.Hash(name))
	if err != nil {
		r.Violate("token", fmt.Sprintf("buffer=%d reader=%s: %s", buffer, name, err), witness{string(doc), name, buffer, skip})
		return false
	}
	return true
}

func Test(t *testing.T) {
	rep.Run(t, "C05", "random json texts walked by a random mix of read/peek/skip calls, for every initial buffer size 0..40 and several larger ones and random read splits, compared token by token with encoding/json; non-trivial: the top-level value is not empty", func(r *rep.R) {
		r.WatchCPU(60 * time.Second)
		r.Need("TypeString", 1000)
		r.Need("TypeNumber", 1000)
		r.Need("TypeBoolean", 1000)
		r.Need("TypeNull", 1000)
		r.Need("skip", 1000)
		rng := r.Rand("texts")

		// all splits into two reads and all small buffers of some small texts
		small := []string{
			`{"a\u00e9\n":[1,-2.5e+3,true,false,null,"x\\",{"b":{}}],"\ud83d\ude00":"\"q\""}`,
			` [ "" , [ ] , { } , 0 , -1E5 , "\\\\" , "\/" ] `,
			`{"k":{"l":[[["deep\t"]]],"m":null},"n":"\u0041\u000a\uD834\uDD1E","o":123456789012345678901234567890}`,
		}
		for _, text := range small {
			dec := json.NewDecoder(bytes.NewReader([]byte(text)))
			dec.UseNumber()
			root := parse(dec)
			for buffer := -2; buffer <= 40; buffer++ {
				r.Progress("splits")
				for split := 0; split <= len(text); split += 1 {
					reader := gen.SplitAt([]byte(text), split, split%2 == 0)
					if !check(r, rng, []byte(text), root, buffer, reader) {
						break
					}
				}
			}
		}

		n := r.N(2500, 80000)
		for i := 0; i < n; i++ {
			doc := document(rng)
			if i%25 == 24 {
				doc = large(rng, r)
			}
			r.Progress(fmt.Sprintf("text %d (%d bytes)", i, len(doc)))
			dec := json.NewDecoder(bytes.NewReader(doc))
			dec.UseNumber()
			root := parse(dec)
			buffers := []int{-2, -1, rng.IntN(41), rng.IntN(700), []int{512, 4096, 8192, 100000}[rng.IntN(4)]}
			if len(doc) > 500_000 {
				buffers = buffers[rng.IntN(3):][:2]
			}
			for _, buffer := range buffers {
				if !check(r, rng, doc, root, buffer, gen.NewReader(rng, doc)) {
					break
				}
			}
			if i%(n/4+1) == 1 {
				r.Sample(string(doc))
			}
		}
	})
}
