package c07

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dec"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

var errReader = errors.New("connection lost")

func Test(t *testing.T) {
	rep.Run(t, "C07", "every proper prefix of random documents and binary spans, ended by EOF, by an unexpected EOF or by a reader error (with and without data); a case is one prefix of one document, all are non-trivial", func(r *rep.R) {
		r.WatchCPU(60 * time.Second)
		rng := r.Rand("docs")
		r.Need("cuts", 10000)
		r.Need("cuts inside of nested values", 1000)

		for i := 0; i < r.N(150, 3000); i++ {
			f := dec.Formats[i%3]
			o := gen.Opts{NoLong: i%20 != 0, MaxSpans: 3}
			if i%8 == 7 {
				o.Large = gen.NewLarge(rng, 1)
			}
			doc := f.Gen(rng, o)
			// a document may be followed by whitespace, cutting there is fine
			doc = bytes.TrimRight(doc, " \r\n\t")
			r.Progress(fmt.Sprintf("document %d", i))
			step := 1 + len(doc)/1500
			if len(doc) > 100_000 {
				step = 1 + len(doc)/60
				r.Count("large documents", 1)
			}

			for cut := 0; cut < len(doc); cut += 1 + rng.IntN(step) {
				for k := 0; k < 2; k++ {
					var reader *gen.Reader
					var err error
					switch rng.IntN(5) {
					case 0, 1:
						// plain end of input
					case 2:
						err = io.ErrUnexpectedEOF
					default:
						err = errReader
					}
					if k == 0 {
						reader = gen.Whole(doc[:cut], err, rng.IntN(2) == 0)
					} else {
						reader = gen.NewReader(rng, doc[:cut]).With(err)
					}
					r.Journal([]byte(f.Name + " " + reader.Name + "\n" + string(doc[:cut])))
					spans, perr := f.Parse(reader)
					r.Eval(rep.Hash(f.Name, doc[:cut]), true)
					r.Count("cuts", 1)
					if strings.Count(string(doc[:cut]), "{") > 2 {
						r.Count("cuts inside of nested values", 1)
					}
					if err != nil {
						r.Count("reader errors", 1)
					}
					if perr == nil || len(spans) > 0 {
						r.Violate("accepted", fmt.Sprintf("%s document of %d bytes accepted with %d spans (error %v), although it ends after %d bytes with %v", f.Name, len(doc), len(spans), perr, cut, err),
							map[string]any{"doc": string(doc), "cut": cut, "reader": reader.Name})
						cut = len(doc)
						break
					}
				}
			}
			if i < 2 {
				r.Sample(map[string]any{"format": f.Name, "document cut everywhere": string(doc)})
			}
		}

		// binary spans
		for i := 0; i < r.N(800, 15000); i++ {
			span := proxy.Span{Id: proxy.Id(rng.Uint64() >> rng.IntN(64)), Trace: proxy.Id(rng.Uint64()), Parent: proxy.Id(rng.Uint64() >> rng.IntN(64)), Name: gen.Text(rng), Service: gen.Text(rng), Timestamp: proxy.Timestamp(rng.Int64()), Duration: time.Duration(rng.Int64N(1e12))}
			if rng.IntN(2) == 0 {
				span.Timings.CS = span.Timestamp
				span.Timings.SS = span.Timestamp
			}
			for k := rng.IntN(5); k > 0; k-- {
				span.AddTag(gen.Text(rng), gen.Text(rng))
			}
			var buf bytes.Buffer
			if err := codec.BinaryEncode(span, &buf); err != nil {
				r.Violate("encode", err.Error(), span)
				continue
			}
			r.Progress("binary span")
			step := 1 + buf.Len()/500
			for cut := 0; cut < buf.Len(); cut += 1 + rng.IntN(step) {
				_, err := codec.BinaryDecode(bytes.NewReader(buf.Bytes()[:cut]))
				r.Eval(rep.Hash("binary", buf.Bytes()[:cut]), true)
				r.Count("binary cuts", 1)
				if err == nil {
					r.Violate("accepted", fmt.Sprintf("binary span of %d bytes accepted although it ends after %d bytes", buf.Len(), cut),
						map[string]any{"cut": cut, "base64": base64.StdEncoding.EncodeToString(buf.Bytes())})
					break
				}
			}
		}
	})
}
