// Package dec has what the decoder checks share.
package dec

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/gen"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

type Format struct {
	Name  string
	Gen   func(*rand.Rand, gen.Opts) []byte
	Ref   func([]byte) []proxy.Span
	Parse func(io.Reader) ([]proxy.Span, error)
}

var (
	V1     = Format{"v1", gen.V1, ref.V1, codec.ParseJsonV1}
	V2     = Format{"v2", gen.V2, ref.V2, codec.ParseJsonV2}
	Jaeger = Format{"jaeger", gen.Jaeger, ref.Jaeger, codec.ParseJaeger}

	Formats = []Format{V1, V2, Jaeger}
)

// Binary decodes a binary span.
func Binary(r io.Reader) ([]proxy.Span, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	span, err := codec.BinaryDecode(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	return []proxy.Span{span}, nil
}

type Witness struct {
	Reader string
	Doc    string
	Detail string
}

// Fidelity compares the decoder with the reference decoder on many documents and readers.
func Fidelity(r *rep.R, f Format, docs int) {
	r.WatchCPU(60 * time.Second)
	r.Need("spans compared", docs)
	r.Need("documents longer than the parse buffer", docs/50)
	rng := r.Rand("docs")

	for i := 0; i < docs; i++ {
		o := gen.Opts{}
		switch {
		case i%40 == 7:
			scale := 1
			if i%200 == 7 {
				scale = 6
			}
			o.Large = gen.NewLarge(rng, scale)
			o.NoLong = true
			r.Count("documents with large "+o.Large.Dim, 1)
			r.Distinct("large sizes", rep.Hash(o.Large.Dim, o.Large.Size))
		case i%50 == 0:
			o.MaxSpans = 150
			o.NoLong = true
		case i%10 == 0:
			o.MaxSpans = 30
		case i%4 == 0:
			o.Short = true
		case i%2 == 0:
			o.NoLong = true
		}
		doc := f.Gen(rng, o)
		want := f.Ref(doc)
		r.Progress(fmt.Sprintf("document %d (%d bytes)", i, len(doc)))

		readers := 4
		if len(doc) > 300_000 {
			readers = 2
		}
		for k := 0; k < readers; k++ {
			reader := gen.NewReader(rng, doc)
			r.Journal([]byte(reader.Name + "\n" + string(doc)))
			got, err := f.Parse(reader)

			r.Eval(rep.Hash(doc, reader.Name), len(want) > 0)
			r.Count("spans compared", len(want))
			r.Distinct("reader modes", rep.Hash(reader.Name))

			w := Witness{Reader: reader.Name, Doc: string(doc)}
			if err != nil {
				w.Detail = err.Error()
				r.Violate("rejected", fmt.Sprintf("well-formed %s document rejected: %s", f.Name, err), w)
				break
			}
			if diff := ref.Diff(got, want); diff != "" {
				w.Detail = diff
				r.Violate("wrong", fmt.Sprintf("%s document decoded wrongly: %s", f.Name, diff), w)
				break
			}
		}
		for _, span := range want {
			r.Count("tags compared", len(span.Tags))
			t := span.Timings
			r.Distinct("timing combinations", rep.Hash(t.CS != 0, t.CR != 0, t.SR != 0, t.SS != 0, span.Parent != 0, span.Parent == span.Id))
		}
		if len(doc) > 8192 {
			r.Count("documents longer than the parse buffer", 1)
		}
		if i%(docs/4+1) == 3 {
			r.Sample(map[string]any{"doc": string(doc), "spans": ref.CanonAll(want)})
		}
	}
}
