package c09

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"maps"
	"strconv"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"

	"verif/harness/lib/avro"
	"verif/harness/lib/gen"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

func Test(t *testing.T) {
	rep.Run(t, "C09", "random spans (extreme numbers, strings around the pool size, up to 150 tags) encoded and decoded by the codec and by an independent avro codec, with trailing bytes and with all block layouts of the tag map; non-trivial: the span has tags", func(r *rep.R) {
		r.WatchCPU(60 * time.Second)
		r.Need("multi block layouts decoded", 500)
		// very long texts
		for i := 0; i < r.N(6, 40); i++ {
			rng := r.Rand("text", i)
			n := gen.Size(rng, 1_000_000, r.N(100_000_000, 400_000_000))
			if i == 0 {
				n = 70_000_000
			}
			span := gen.AnySpan(rng)
			text := gen.TextOfSize(rng, n)
			switch rng.IntN(4) {
			case 0:
				span.Name = text
			case 1:
				span.Service = text
			case 2:
				span.AddTag("long", text)
			case 3:
				span.AddTag(text, "long")
			}
			var buf bytes.Buffer
			if err := codec.BinaryEncode(span, &buf); err != nil {
				r.Violate("encode", "encode failed: "+err.Error(), map[string]any{"length of a text": n})
				continue
			}
			data, _ := avro.Encode(span, rng)
			for _, data := range [][]byte{buf.Bytes(), data} {
				got, err := codec.BinaryDecode(bytes.NewReader(data))
				if err != nil {
					r.Violate("roundtrip", "decode failed: "+err.Error(), map[string]any{"length of a text": n})
				} else if got.Id != span.Id || got.Trace != span.Trace || got.Parent != span.Parent || got.Name != span.Name || got.Service != span.Service ||
					got.Timestamp != span.Timestamp || got.Duration != span.Duration || got.Timings != span.Timings || !maps.Equal(got.Tags, span.Tags) {
					r.Violate("roundtrip", "decoded span differs", map[string]any{"length of a text": n})
				}
			}
			r.Progress("text")
			r.Count("spans with very long texts", 1)
			r.Distinct("lengths of very long texts", uint64(n))
		}
		rng := r.Rand("spans")
		n := r.N(12000, 400000)
		for i := 0; i < n; i++ {
			span := gen.AnySpan(rng)
			if i%20 == 19 {
				span = gen.LargeSpan(rng, 1)
				r.Count("large spans", 1)
			}
			if i%(n/2) == 99 {
				// very many
				for k := range 65_000 + gen.Size(rng, 1, r.N(40_000, 1_000_000)) {
					span.AddTag(strconv.Itoa(k), "v")
				}
				r.Count("spans with more than 65000 tags", 1)
			}
			want := ref.Canon(span)
			r.Progress("span")
			r.Eval(rep.Hash(want), len(span.Tags) > 0)
			r.Distinct("tag counts", uint64(len(span.Tags)))
			if i%(n/3+1) == 2 {
				r.Sample(want)
			}

			// encode behind other data
			var buf bytes.Buffer
			prefix := rng.IntN(20)
			buf.Write(make([]byte, prefix))
			if err := codec.BinaryEncode(span, &buf); err != nil {
				r.Violate("encode", "encode failed: "+err.Error(), want)
				continue
			}
			encoded := append([]byte(nil), buf.Bytes()[prefix:]...)
			if now := ref.Canon(span); now != want {
				r.Violate("mutated", "encoding changes the span", map[string]any{"before": want, "after": now})
			}
			witness := map[string]any{"span": want, "encoded": base64.StdEncoding.EncodeToString(encoded)}

			trailing := rng.IntN(30)
			input := append(append([]byte(nil), encoded...), make([]byte, trailing)...)
			for k := len(encoded); k < len(input); k++ {
				input[k] = byte(rng.IntN(256))
			}
			reader := bytes.NewReader(input)
			got, err := codec.BinaryDecode(reader)
			if err != nil {
				r.Violate("roundtrip", "decode failed: "+err.Error(), witness)
			} else if c := ref.Canon(got); c != want {
				witness["got"] = c
				r.Violate("roundtrip", "decoded span differs", witness)
			} else if reader.Len() != trailing {
				r.Violate("consumed", fmt.Sprintf("%d bytes left instead of %d", reader.Len(), trailing), witness)
			}

			independent, size, err := avro.Decode(input)
			if err != nil {
				r.Violate("avro", "not readable by an avro decoder: "+err.Error(), witness)
			} else if c := ref.Canon(independent); c != want || size != len(encoded) {
				witness["got"] = c
				r.Violate("avro", fmt.Sprintf("avro decoder reads a different span, %d of %d bytes", size, len(encoded)), witness)
			}

			for k := 0; k < 2; k++ {
				data, blocks := avro.Encode(span, rng)
				if blocks > 1 {
					r.Count("multi block layouts decoded", 1)
				}
				witness["encoded"] = base64.StdEncoding.EncodeToString(data)
				reader := bytes.NewReader(append(data[:len(data):len(data)], make([]byte, trailing)...))
				got, err := codec.BinaryDecode(reader)
				if err != nil {
					r.Violate("layout", "legal avro layout rejected: "+err.Error(), witness)
				} else if c := ref.Canon(got); c != want {
					witness["got"] = c
					r.Violate("layout", "legal avro layout decoded wrongly", witness)
				} else if reader.Len() != trailing {
					r.Violate("layout", fmt.Sprintf("legal avro layout: %d bytes left instead of %d", reader.Len(), trailing), witness)
				}
			}
		}
	})
}
