package c27

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/gen"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

func Test(t *testing.T) {
	rep.Run(t, "C27", "random and extreme ids, hex strings, timestamps (in several local time zones) and span lists, written and read back and compared with independently formatted text; non-trivial: the value is not zero", func(r *rep.R) {
		rng := r.Rand("values")

		ids := []uint64{0, 1, 15, 16, 255, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, 0x0123456789abcdef, 0xfedcba9876543210}
		for i := 0; i < 64; i++ {
			ids = append(ids, 1<<i, 1<<i-1, 0xa<<i)
		}
		for i := 0; i < r.N(60000, 2000000); i++ {
			ids = append(ids, rng.Uint64()>>rng.IntN(64))
		}
		for i, v := range ids {
			id := proxy.Id(v)
			want := fmt.Sprintf("%016x", v)
			r.Eval(rep.Hash("id", v), v != 0)
			if got := id.String(); got != want {
				r.Violate("id text", fmt.Sprintf("id %x written as %q", v, got), v)
			}
			if got := fmt.Sprint(id); got != want {
				r.Violate("id text", fmt.Sprintf("id %x formatted as %q", v, got), v)
			}
			if got, err := proxy.ParseId([]byte(id.String())); err != nil || got != id {
				r.Violate("id text", fmt.Sprintf("id %x read back as %x (%v)", v, uint64(got), err), v)
			}
			encoded, err := json.Marshal(&id)
			if err != nil || string(encoded) != `"`+want+`"` {
				r.Violate("id json", fmt.Sprintf("id %x written as json %s (%v)", v, encoded, err), v)
			}
			var back proxy.Id
			if err := json.Unmarshal(encoded, &back); err != nil || back != id {
				r.Violate("id json", fmt.Sprintf("id %x read back from json as %x (%v)", v, uint64(back), err), v)
			}
			// unsigned and signed views
			if id.Uint64() != v || id.Int64() != int64(v) {
				r.Violate("id number", fmt.Sprintf("id %x has numbers %x and %x", v, id.Uint64(), id.Int64()), v)
			}
			if i%20011 == 3 {
				r.Sample(want)
			}
		}

		// hex strings
		const digits = "0123456789abcdefABCDEF"
		for i := 0; i < r.N(60000, 2000000); i++ {
			n := rng.IntN(20)
			b := make([]byte, n)
			for k := range b {
				b[k] = digits[rng.IntN(len(digits))]
			}
			if rng.IntN(3) == 0 && n > 0 {
				// one bad character, mostly a neighbor of a good one
				bad := []byte("/:@G`gxX-+_ .\x00\xff")
				b[rng.IntN(n)] = bad[rng.IntN(len(bad))]
			}
			if rng.IntN(6) == 0 && n > 16 {
				b[0], b[1] = '0', '0'
			}
			s := string(b)
			var want uint64
			var bad error
			if len(s) > 16 || strings.Trim(s, digits) != "" {
				bad = fmt.Errorf("not a valid id")
				r.Count("invalid hex", 1)
			} else if s != "" {
				want, bad = strconv.ParseUint(s, 16, 64)
				r.Count("valid hex", 1)
			}
			r.Eval(rep.Hash("hex", s), s != "")
			got, err := proxy.ParseId(b)
			if (err != nil) != (bad != nil) || (bad == nil && uint64(got) != want) {
				r.Violate("hex", fmt.Sprintf("hex %q parsed as %x (%v), want %x (%v)", s, uint64(got), err, want, bad), s)
			}
			if string(b) != s {
				r.Violate("hex", fmt.Sprintf("parsing changed %q to %q", s, b), s)
			}
			if strings.Trim(s, digits+"/:@G`gxX-+_ .") == "" {
				var id proxy.Id
				err = json.Unmarshal([]byte(`"`+s+`"`), &id)
				if (err != nil) != (bad != nil) || (bad == nil && uint64(id) != want) {
					r.Violate("hex json", fmt.Sprintf("json hex %q parsed as %x (%v), want %x (%v)", s, uint64(id), err, want, bad), s)
				}
			}
		}
		// every byte at every place
		for n := 1; n <= 17; n++ {
			for at := 0; at < n; at++ {
				for c := 0; c < 256; c++ {
					b := []byte("1f0E9a2B7c3D4e5F6"[:n])
					b[at] = byte(c)
					s := string(b)
					good := n <= 16 && strings.IndexByte(digits, byte(c)) >= 0
					want := uint64(0)
					if good {
						want, _ = strconv.ParseUint(s, 16, 64)
					}
					r.Eval(rep.Hash("byte", s), true)
					r.Count("single bytes", 1)
					if got, err := proxy.ParseId(b); (err == nil) != good || good && uint64(got) != want {
						r.Violate("hex", fmt.Sprintf("hex %q parsed as %x (%v), want %x (valid: %v)", s, uint64(got), err, want, good), s)
					}
				}
			}
		}
		for _, text := range []string{`12`, `true`, `{}`, `[]`, `[1]`} {
			var id proxy.Id
			if err := json.Unmarshal([]byte(text), &id); err == nil {
				r.Violate("hex json", "json "+text+" accepted as id", text)
			}
		}

		// timestamps
		local := time.Local
		defer func() { time.Local = local }()
		zones := []*time.Location{time.UTC, time.FixedZone("a", 2*3600), time.FixedZone("b", -5*3600-1800), time.FixedZone("c", 5*3600+2700)}
		stamps := []int64{0, 1, -1, 999, 1000, 999_999, 1_000_000, 999_999_999, 1_000_000_000, 1577836800_000_000_000, math.MaxInt64, math.MinInt64, math.MaxInt64 / 1000 * 1000}
		for i := 0; i < r.N(40000, 1000000); i++ {
			v := int64(rng.Uint64()) >> rng.IntN(64)
			switch rng.IntN(4) {
			case 0:
				v = 1_560_000_000_000_000_000 + rng.Int64N(1e17)
			case 1:
				v = v / 1000 * 1000
			}
			stamps = append(stamps, v)
		}
		for _, v := range stamps {
			ts := proxy.Timestamp(v)
			time.Local = zones[rng.IntN(len(zones))]
			r.Eval(rep.Hash("ts", v), v != 0)
			r.Count("timestamps", 1)
			encoded, err := json.Marshal(ts)
			if err != nil {
				r.Violate("timestamp json", fmt.Sprintf("timestamp %d can not be written: %v", v, err), v)
				continue
			}
			var back proxy.Timestamp
			if err := json.Unmarshal(encoded, &back); err != nil || back != ts {
				r.Violate("timestamp json", fmt.Sprintf("timestamp %d written as %s and read back as %d (%v)", v, encoded, int64(back), err), v)
			}
			var text string
			if err := json.Unmarshal(encoded, &text); err != nil {
				r.Violate("timestamp json", fmt.Sprintf("timestamp %d written as %s", v, encoded), v)
			} else if parsed, err := time.Parse(time.RFC3339Nano, text); err != nil || parsed.UnixNano() != v {
				r.Violate("timestamp json", fmt.Sprintf("timestamp %d written as %s", v, encoded), v)
			}
			if ts.ToNanos() != v || ts.ToTime().UnixNano() != v || ts.ToMicros() != v/1000 || ts.ToMillis() != v/1000_000 || ts.IsValid() != (v > 0) {
				r.Violate("timestamp units", fmt.Sprintf("timestamp %d has units %d %d %d, time %v", v, ts.ToNanos(), ts.ToMicros(), ts.ToMillis(), ts.ToTime()), v)
			}
			if us := v / 1000; proxy.Microseconds(us).ToMicros() != us || int64(proxy.Microseconds(us)) != us*1000 {
				r.Violate("timestamp units", fmt.Sprintf("%d us result in timestamp %d", us, int64(proxy.Microseconds(us))), v)
			}
			if d := time.Duration(rng.Int64N(1e15)); int64(ts.Add(d)) != v+int64(d) {
				r.Violate("timestamp units", fmt.Sprintf("%d plus %d is %d", v, d, int64(ts.Add(d))), v)
			}
		}
		time.Local = time.UTC

		// span lists
		for i := 0; i < r.N(3000, 60000); i++ {
			n := rng.IntN(6)
			spans := make([]proxy.Span, n)
			for k := range spans {
				spans[k] = gen.AnySpan(rng)
			}
			encoded, err := json.Marshal(spans)
			if err != nil {
				r.Violate("span json", "span list can not be written: "+err.Error(), ref.CanonAll(spans))
				continue
			}
			r.Eval(rep.Hash("spans", encoded), n > 0)
			r.Count("span lists", 1)
			var back []proxy.Span
			if err := json.Unmarshal(encoded, &back); err != nil {
				r.Violate("span json", "span list can not be read back: "+err.Error(), string(encoded))
				continue
			}
			if diff := ref.Diff(back, spans); diff != "" {
				r.Violate("span json", "span list read back differs: "+diff, string(encoded))
			}
			// ids are hex strings in the list
			var raw []map[string]any
			if err := json.Unmarshal(encoded, &raw); err != nil {
				r.Violate("span json", "span list is no json: "+err.Error(), string(encoded))
				continue
			}
			for k, span := range spans {
				for key, id := range map[string]proxy.Id{"id": span.Id, "trace": span.Trace, "parent": span.Parent} {
					if want := fmt.Sprintf("%016x", uint64(id)); raw[k][key] != want {
						r.Violate("span json", fmt.Sprintf("%s of span is %v, want %s", key, raw[k][key], want), string(encoded))
					}
				}
			}
		}
	})
}
