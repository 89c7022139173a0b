package c16

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/coll"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// rpc is one span with the reports about it.
type rpc struct {
	want    proxy.Span
	order   string // sequence of client and server reports
	pattern uint64
	partial bool
}

var keys = []string{"a", "b", "http.status", "error", "ä", "peer.service", "lc", "x.y"}

func value(rng *rand.Rand) string {
	switch rng.IntN(12) {
	case 0:
		return gen.Text(rng) + "."
	case 1:
		return ""
	case 2:
		return dict.Get().String(rng)
	}
	return fmt.Sprintf("v%d", rng.IntN(1000))
}

func tags(rng *rand.Rand) map[string]string {
	switch rng.IntN(5) {
	case 0:
		return nil
	case 1:
		return map[string]string{}
	}
	res := map[string]string{}
	n := rng.IntN(6)
	if rng.IntN(200) == 0 {
		n = gen.Size(rng, 10, 300)
	}
	for ; n >= 0; n-- {
		key := keys[rng.IntN(len(keys))]
		if n > 10 || rng.IntN(10) == 0 {
			key = gen.Text(rng)
		}
		res[key] = value(rng)
	}
	return res
}

func maybe(rng *rand.Rand, v string) string {
	switch rng.IntN(15) {
	case 0, 1, 2, 3, 4:
		return ""
	case 5:
		return gen.Text(rng)
	}
	return v
}

// halves makes the reports of the client and the server of one span.
func halves(rng *rand.Rand, s proxy.Span) (rpc, []proxy.Span) {
	parentKnownBy := rng.IntN(3)
	cs := coll.Base + proxy.Timestamp(rng.Int64N(1e12))
	sr := coll.Base + proxy.Timestamp(rng.Int64N(1e12))
	client := proxy.Span{
		Trace: s.Trace, Id: s.Id, Name: maybe(rng, "client-"+s.Name), Service: maybe(rng, "cs-"+s.Service),
		Timestamp: cs, Duration: time.Duration(rng.Int64N(1e9)), Tags: tags(rng),
		Timings: proxy.Timings{CS: cs, CR: cs + 1 + proxy.Timestamp(rng.Int64N(1e9))},
	}
	server := proxy.Span{
		Trace: s.Trace, Id: s.Id, Name: maybe(rng, "server-"+s.Name), Service: maybe(rng, "ss-"+s.Service),
		Timestamp: sr, Duration: time.Duration(rng.Int64N(1e9)), Tags: tags(rng),
		Timings: proxy.Timings{SR: sr, SS: sr + 1 + proxy.Timestamp(rng.Int64N(1e9))},
	}
	if parentKnownBy != 0 {
		client.Parent = s.Parent
	}
	if parentKnownBy != 1 {
		server.Parent = s.Parent
	}

	// in which order and how often
	var order []byte
	switch rng.IntN(12) {
	case 0:
		order = []byte("c")
	case 1:
		order = []byte("s")
	case 2:
		order = []byte("ccc")[:1+rng.IntN(3)]
	case 3:
		order = []byte("sss")[:1+rng.IntN(3)]
	case 4, 5, 6:
		order = []byte("cs")
	default:
		order = []byte("cs")
		for n := rng.IntN(4); n > 0; n-- {
			order = append(order, "cs"[rng.IntN(2)])
		}
	}
	rng.Shuffle(len(order), func(i, k int) { order[i], order[k] = order[k], order[i] })

	r := rpc{order: string(order)}
	// what all the reports of a side say
	var times proxy.Timings
	known := map[byte]*proxy.Span{'c': {Tags: map[string]string{}}, 's': {Tags: map[string]string{}}}
	partial := rng.IntN(3) == 0
	var sends []proxy.Span
	for _, c := range order {
		// a report may know only one of the times of its side
		part := rng.IntN(6)
		if c == 'c' {
			report := client
			switch part {
			case 0:
				report.Timings.CS = 0
			case 1:
				report.Timings.CR = 0
			case 2:
				// just a span that is no server
				if rng.IntN(2) == 0 {
					report.Timings = proxy.Timings{}
				}
			}
			times.CS, times.CR = max(times.CS, report.Timings.CS), max(times.CR, report.Timings.CR)
			sends = append(sends, report)
		} else {
			report := server
			switch part {
			case 0:
				report.Timings.SR = 0
			case 1:
				report.Timings.SS = 0
			}
			times.SR, times.SS = max(times.SR, report.Timings.SR), max(times.SS, report.Timings.SS)
			sends = append(sends, report)
		}

		// or only some of what its side knows
		report := &sends[len(sends)-1]
		if partial {
			tags := maps.Clone(report.Tags)
			maps.DeleteFunc(tags, func(k, v string) bool { return rng.IntN(2) == 0 })
			report.Tags = tags
			if rng.IntN(4) == 0 {
				report.Name = ""
			}
			if rng.IntN(4) == 0 {
				report.Service = ""
			}
			if rng.IntN(4) == 0 {
				report.Parent = 0
			}
		}
		k := known[c]
		if report.Name != "" {
			k.Name = report.Name
		}
		if report.Service != "" {
			k.Service = report.Service
		}
		if report.Parent != 0 {
			k.Parent = report.Parent
		}
		maps.Copy(k.Tags, report.Tags)
	}

	// what has to come out
	w := proxy.Span{Trace: s.Trace, Id: s.Id, Tags: map[string]string{}}
	for _, side := range []byte("cs") {
		k := known[side]
		if k.Name != "" {
			w.Name = k.Name
		}
		if k.Service != "" {
			w.Service = k.Service
		}
		if k.Parent != 0 {
			w.Parent = k.Parent
		}
		maps.Copy(w.Tags, k.Tags)
	}
	w.Timings = times
	if len(w.Tags) == 0 {
		w.Tags = nil
	}
	r.want, r.partial = w, partial
	overlap := 0
	for k := range client.Tags {
		if _, ok := server.Tags[k]; ok {
			overlap++
		}
	}
	r.pattern = rep.Hash(r.order, client.Name == "", client.Service == "", server.Name == "", server.Service == "", len(client.Tags), len(server.Tags), overlap, parentKnownBy, partial)
	return r, sends
}

func episode(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	traceIds := coll.NewIds(rng)
	var arrivals []coll.Arrival
	want := map[proxy.Id]map[proxy.Id]rpc{}

	for n := 0; n < 60; n++ {
		trace := traceIds.Next()
		ids := coll.NewIds(rng)
		size := 1
		if rng.IntN(3) > 0 {
			size += rng.IntN(20)
		}
		spans := coll.Tree(rng, ids, trace, size)
		byId := map[proxy.Id]rpc{}
		var sends []proxy.Span
		for i, s := range spans {
			var h rpc
			var out []proxy.Span
			for {
				h, out = halves(rng, s)
				// one that does not know its parent would be a second root
				if i == 0 || h.want.Parent == s.Parent {
					break
				}
			}
			byId[s.Id] = h
			sends = append(sends, out...)
		}
		want[trace] = byId

		// keep the order of the reports of a span, but mix the spans.
		if rng.IntN(3) > 0 {
			sends = interleave(rng, sends)
		}
		at := time.Duration(rng.IntN(5000)) * time.Millisecond
		pause := rng.IntN(3)
		for _, s := range sends {
			arrivals = append(arrivals, coll.Arrival{At: at, Span: s})
			switch pause {
			case 1:
				at += time.Duration(rng.IntN(200)) * time.Millisecond
			case 2:
				if at < 20*time.Second && rng.IntN(5) == 0 {
					at += time.Duration(rng.IntN(5000)) * time.Millisecond
				}
			}
		}
	}

	got := map[proxy.Id]proxy.Trace{}
	for _, e := range coll.Run(t, arrivals, 20*time.Second, rng.IntN(10)) {
		if len(e.Spans) > 0 {
			trace := e.Spans[0].Trace
			got[trace] = append(got[trace], e.Spans...)
		}
	}

	for trace, rpcs := range want {
		if len(got[trace]) == 0 {
			// decided by other properties
			r.Count("traces that did not come out", 1)
			continue
		}
		spans := map[proxy.Id][]proxy.Span{}
		for _, s := range got[trace] {
			spans[s.Id] = append(spans[s.Id], s)
		}
		for id, h := range rpcs {
			r.Eval(h.pattern, len(h.order) > 1)
			if h.want.Timings.CS != 0 && h.want.Timings.SR != 0 {
				r.Count("spans merged from both sides", 1)
				r.Distinct("orders of reports", rep.Hash(h.order))
			}
			witness := func() any {
				var reports []proxy.Span
				for _, a := range arrivals {
					if a.Span.Trace == trace && a.Span.Id == id {
						reports = append(reports, a.Span)
					}
				}
				return map[string]any{"episode": seq, "reports": reports, "order": h.order, "emitted": spans[id], "want": h.want}
			}
			if h.partial && len(h.order) > 1 {
				r.Count("spans merged from partial reports", 1)
			}
			if len(spans[id]) != 1 {
				r.Violate("count", fmt.Sprintf("span %s (reports: %s) is %d times in the emitted trace", id, h.order, len(spans[id])), witness())
				continue
			}
			s := spans[id][0]
			if diff := coll.SameFields(s, h.want); diff != "" {
				r.Violate("merge", fmt.Sprintf("span reported as %s has %s", h.order, diff), witness())
			}
		}
	}
	if seq == 1 {
		r.Sample(arrivals[:3])
	}
}

// interleave shuffles, but keeps the order of the spans with the same id.
func interleave(rng *rand.Rand, sends []proxy.Span) []proxy.Span {
	queues := map[proxy.Id][]proxy.Span{}
	var order []proxy.Id
	for _, s := range sends {
		queues[s.Id] = append(queues[s.Id], s)
		order = append(order, s.Id)
	}
	rng.Shuffle(len(order), func(i, k int) { order[i], order[k] = order[k], order[i] })
	var res []proxy.Span
	for _, id := range order {
		res = append(res, queues[id][0])
		queues[id] = queues[id][1:]
	}
	return res
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C16", "traces in virtual time whose spans are reported by client, server or both, one to six times in any order and interleaving, with every combination of missing names, services, parents and overlapping tags; distinct by order and combination; non-trivial: more than one report", func(r *rep.R) {
		r.WatchCPU(120 * time.Second)
		r.Need("spans merged from both sides", 10000)
		r.Need("orders of reports", 20)
		r.Need("spans merged from partial reports", 5000)
		for seq := 0; seq < r.N(150, 4000); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			episode(t, r, seq)
		}
	})
}
