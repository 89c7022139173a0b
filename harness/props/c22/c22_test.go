package c22

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
	"verif/harness/lib/sink"
)

var errorValues = []string{"", "true", "false", "0", "1", "False", "FALSE", "no", "00", " false", "false ", "error", "java.lang.RuntimeException", "0.0", "f", "F", "t", "T", "TRUE", "True", "n", "N", "No", "off", "none", "null", "nil", "-0", "+0", "0x0", "fals", "falsee", "0\n", "\x00"}

func anySpan(rng *rand.Rand, trace proxy.Id) proxy.Span {
	s := gen.AnySpan(rng)
	s.Trace = trace
	if rng.IntN(4) == 0 {
		s.Name = ""
	}
	if rng.IntN(6) == 0 {
		s.Service = ""
	}
	switch rng.IntN(8) {
	case 0:
		s.Duration = time.Duration(rng.IntN(2002) - 1)
	case 1:
		s.Duration = []time.Duration{0, 1, 998, 999, 1000, 1001, -1, time.Microsecond + 1, time.Hour, -time.Hour}[rng.IntN(10)]
	case 2:
		s.Duration = time.Duration(rng.Int64N(1e10))
	}
	if rng.IntN(3) > 0 {
		s.Timestamp = coll.Base + proxy.Timestamp(rng.Int64N(1e15))
	}
	if rng.IntN(2) == 0 {
		v := errorValues[rng.IntN(len(errorValues))]
		if rng.IntN(6) == 0 {
			v = gen.Text(rng)
		}
		s.AddTag("error", v)
	}
	for rng.IntN(3) == 0 {
		s.AddTag(gen.RealTag(rng))
	}
	switch rng.IntN(40) {
	case 0:
		s.AddTag(gen.Text(rng), gen.TextOfSize(rng, gen.Size(rng, 100, 40_000)))
	case 1:
		s.AddTag(gen.TextOfSize(rng, gen.Size(rng, 20, 3000)), "x")
	case 2:
		s.Name = gen.TextOfSize(rng, gen.Size(rng, 50, 20_000))
	case 3:
		s.Service = gen.TextOfSize(rng, gen.Size(rng, 50, 20_000))
	case 4:
		for k := range gen.Size(rng, 10, 400) {
			s.AddTag(fmt.Sprint("k", k), gen.Text(rng))
		}
	case 5:
		for k := range 4 {
			// those the agent has its own fields for
			s.AddTag([]string{"service", "name", "resource", "span.type", "service.name", "resource.name", "sampling.priority", "_sampling_priority_v1", "version", "env", "_dd.origin", "type", "span.kind", "http.status_code", "db.type"}[(k*7+rng.IntN(7))%15], gen.Text(rng))
		}
	case 6, 7:
		s.Service, s.Name = gen.Text(rng), gen.Text(rng)
	}
	if d, ok := dict.Get().Duration(rng, 1, 100*time.Hour); ok && rng.IntN(8) == 0 {
		s.Duration = d
	}
	if rng.IntN(8) == 0 {
		s.AddTag("error.msg", "true")
	}
	if rng.IntN(20) == 0 {
		s.Parent = s.Id
	}
	return s
}

func check(r *rep.R, in proxy.Span, got sink.Span) string {
	wantError := int32(0)
	if v, ok := in.Tags["error"]; ok && v != "false" && v != "0" {
		wantError = 1
		r.Count("spans with errors", 1)
	} else if ok {
		r.Count("spans with an error tag of false or 0", 1)
	}
	wantDuration := max(in.Duration, time.Microsecond)
	if in.Duration < time.Microsecond {
		r.Count("spans below a microsecond", 1)
	}
	switch {
	case got.TraceID != uint64(in.Trace) || got.SpanID != uint64(in.Id) || got.ParentID != uint64(in.Parent):
		return fmt.Sprintf("ids %x/%x/%x", got.TraceID, got.SpanID, got.ParentID)
	case got.Start != int64(in.Timestamp):
		return fmt.Sprintf("start %d", got.Start)
	case got.Duration != int64(wantDuration):
		return fmt.Sprintf("duration %d instead of %d", got.Duration, wantDuration)
	case got.Service != in.Service || got.Name != in.Service:
		return fmt.Sprintf("service %q and name %q", got.Service, got.Name)
	case in.Name != "" && got.Resource != in.Name:
		return fmt.Sprintf("resource %q", got.Resource)
	case in.Name == "" && got.Resource == "":
		return "an empty resource"
	case !maps.Equal(got.Meta, in.Tags):
		return fmt.Sprintf("tags %v", got.Meta)
	case got.Error != wantError:
		return fmt.Sprintf("error %d instead of %d", got.Error, wantError)
	case !got.Sampled:
		return "not marked as sampled"
	}
	return ""
}

type key struct{ trace, id uint64 }

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C22", "traces of spans with any field values (durations around 1 us, all kinds of error tags, empty names, extreme ids and times) are handed to the sink in virtual time, some thousand at once; everything the transport gets is compared field by field, at once and again at the end; distinct by content", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("spans with errors", 500)
		r.Need("spans with an error tag of false or 0", 200)
		r.Need("spans below a microsecond", 500)
		r.Need("spans with an empty name", 500)
		for seq := 0; seq < r.N(8, 300); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			rng := r.Rand("episode", seq)
			coll.Verbose(r, seq)
			want := map[key]proxy.Span{}
			got := map[key]int{}
			rep.Bubble(t, func(t *testing.T) {
				b := sink.Start(nil)
				ids := coll.NewIds(rng)
				for step := 0; step < 40; step++ {
					trace := proxy.Trace{}
					id := ids.Next()
					n := 1 + rng.IntN(20)
					if rng.IntN(20) == 0 {
						n = 500 + rng.IntN(2000)
					}
					spanIds := coll.NewIds(rng)
					for i := 0; i < n; i++ {
						s := anySpan(rng, id)
						s.Id = spanIds.Next()
						trace = append(trace, s)
						c := coll.Clone(s)
						want[key{uint64(id), uint64(s.Id)}] = c
						if s.Name == "" {
							r.Count("spans with an empty name", 1)
						}
					}
					b.Hand(trace)
					synctest.Wait()
					if rng.IntN(3) == 0 {
						time.Sleep(time.Duration(rng.IntN(5000)) * time.Millisecond)
					}
				}
				time.Sleep(10 * time.Second)
				subs := b.Submissions()
				for _, sub := range subs {
					for _, trace := range sub.Traces {
						for _, s := range trace {
							k := key{s.TraceID, s.SpanID}
							in, ok := want[k]
							if !ok {
								r.Violate("unknown", fmt.Sprintf("span %x of trace %x was not handed to the sink", s.SpanID, s.TraceID), s)
								continue
							}
							got[k]++
							r.Eval(rep.Hash(in.Trace, in.Id, in.Duration, len(in.Tags), in.Tags["error"]), true)
							if diff := check(r, in, s); diff != "" {
								r.Violate("field", "submitted with "+diff, map[string]any{"in": in, "out": s})
							}
						}
					}
					if sub.Changed() {
						r.Violate("changed", "spans were modified after they had been submitted", nil)
					}
				}
				b.Stop()
			})
			for k, in := range want {
				if got[k] != 1 {
					r.Violate("count", fmt.Sprintf("span %x of trace %x reached the transport %d times", k.id, k.trace, got[k]), in)
				}
			}
			if seq == 0 {
				for _, s := range want {
					r.Sample(s)
					break
				}
			}
		}
	})
}
