package c18

import (
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/coll"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

type trace struct {
	id    proxy.Id
	spans []proxy.Span
	what  string
}

// batch plays many traces and verifies which come out.
func batch(t *testing.T, r *rep.R, name string, traces []trace) {
	rng := r.Rand("batch", name)
	var arrivals []coll.Arrival
	byTrace := map[proxy.Id]trace{}
	for _, tr := range traces {
		byTrace[tr.id] = tr
		spread := rng.IntN(2) * rng.IntN(4000)
		for _, i := range rng.Perm(len(tr.spans)) {
			at := time.Duration(0)
			if spread > 0 {
				at = time.Duration(rng.IntN(spread)) * time.Millisecond
			}
			arrivals = append(arrivals, coll.Arrival{At: at, Span: tr.spans[i]})
		}
	}

	// what is logged must not matter
	logrus.SetLevel(logrus.InfoLevel)
	if rng.IntN(4) == 0 {
		logrus.SetLevel(logrus.DebugLevel)
		r.Count("traces with debug output", len(traces))
	}

	emitted := map[proxy.Id][]proxy.Trace{}
	for _, e := range coll.Run(t, arrivals, 20*time.Second, 256) {
		if len(e.Spans) == 0 {
			r.Violate("empty", "an empty trace was emitted", nil)
			continue
		}
		emitted[e.Spans[0].Trace] = append(emitted[e.Spans[0].Trace], e.Spans)
	}

	for _, tr := range traces {
		in, _ := coll.Index(tr.spans)
		kind, cands := coll.Classify(in)
		r.Eval(rep.Hash(tr.what), len(tr.spans) > 1)
		r.Count(kind.String(), 1)
		out := emitted[tr.id]
		witness := map[string]any{"trace": tr.id.String(), "what": tr.what, "received": tr.spans, "emitted": out, "candidates": cands}

		if kind == coll.NoRoot {
			if len(out) > 0 {
				r.Violate("emitted", fmt.Sprintf("a trace with %d root candidates that do not share a missing parent was emitted", len(cands)), witness)
			}
			continue
		}
		if len(out) == 0 {
			r.Violate("missing", fmt.Sprintf("a trace with %s was not emitted", kind), witness)
			continue
		}
		if len(out) > 1 {
			r.Violate("repeated", "a trace was emitted more than once", witness)
			continue
		}
		got, dup := coll.Index(out[0])
		if dup != "" {
			r.Violate("duplicate", dup, witness)
			continue
		}
		for id := range in {
			if _, ok := got[id]; !ok {
				r.Violate("incomplete", fmt.Sprintf("span %s is not in the emitted trace", id), witness)
			}
		}

		var extra []proxy.Span
		for id, s := range got {
			if _, ok := in[id]; !ok {
				extra = append(extra, s)
			}
		}
		if kind == coll.UniqueRoot {
			if len(extra) > 0 {
				r.Violate("extra", fmt.Sprintf("trace with a unique root has %d additional spans", len(extra)), witness)
			}
			continue
		}

		parent := cands[0].Parent
		if parent == 0 {
			// no known parent: whether there is something to stand for it is open
			r.Count("candidates without a known parent", 1)
			if len(extra) > 1 || len(extra) == 1 && extra[0].Id != 0 {
				r.Violate("extra", fmt.Sprintf("trace has %d additional spans", len(extra)), witness)
			}
			continue
		}
		if len(extra) != 1 {
			r.Violate("synthesized", fmt.Sprintf("trace has %d synthesized spans instead of one", len(extra)), witness)
			continue
		}
		fake := extra[0]
		first, last := cands[0].Timestamp, cands[0].Timestamp+proxy.Timestamp(cands[0].Duration)
		for _, c := range cands {
			first = min(first, c.Timestamp)
			last = max(last, c.Timestamp+proxy.Timestamp(c.Duration))
		}
		r.Count("synthesized spans verified", 1)
		if len(cands) > 100 {
			r.Count("synthesized spans for more than 100 candidates", 1)
		}
		switch {
		case fake.Id != parent || fake.Trace != tr.id:
			r.Violate("synthesized", fmt.Sprintf("synthesized span has id %s and trace %s instead of %s and %s", fake.Id, fake.Trace, parent, tr.id), witness)
		case fake.Timestamp != first || fake.Timestamp+proxy.Timestamp(fake.Duration) != last:
			r.Violate("synthesized", fmt.Sprintf("synthesized span covers %d+%d instead of %d+%d", fake.Timestamp, fake.Duration, first, last-first), witness)
		}
	}
}

// small enumerates all ways n spans can name their parents.
func small(r *rep.R, n int, name string, yield func(trace)) {
	rng := r.Rand("small", n)
	// parents: one of the spans, one of two missing spans, the trace id, unknown
	options := n + 4
	total := 1
	for i := 0; i < n; i++ {
		total *= options
	}
	traceIds := coll.NewIds(rng)
	for variant := 0; variant < 3; variant++ {
		for code := 0; code < total; code++ {
			ids := coll.NewIds(rng)
			tr := trace{id: traceIds.Next(), what: fmt.Sprintf("%d/%d/%d", n, variant, code)}
			known := make([]proxy.Id, n)
			for i := range known {
				for known[i] == 0 || known[i] == tr.id {
					known[i] = ids.Next()
				}
			}
			m1, m2 := tr.id, tr.id
			for m1 == tr.id {
				m1 = ids.Next()
			}
			for m2 == tr.id {
				m2 = ids.Next()
			}
			switch variant {
			case 1:
				known[0] = tr.id
			case 2:
				m1 = tr.id
			}
			c := code
			for i := range known {
				o := c % options
				c /= options
				s := proxy.Span{Trace: tr.id, Id: known[i], Name: fmt.Sprintf("s%d", i), Timestamp: coll.Base + proxy.Timestamp(rng.IntN(1000))*1e6, Duration: time.Duration(rng.IntN(1000)) * 1e6}
				switch {
				case o < n:
					s.Parent = known[o]
				case o == n:
					s.Parent = m1
				case o == n+1:
					s.Parent = m2
				case o == n+2:
					s.Parent = tr.id
				}
				tr.spans = append(tr.spans, s)
			}
			yield(tr)
		}
	}
}

func random(rng *rand.Rand, id proxy.Id, what string) trace {
	ids := coll.NewIds(rng)
	n := 1 + rng.IntN(40)
	if rng.IntN(100) == 0 {
		n = 40 + rng.IntN(1000)
	} else if rng.IntN(30) == 0 {
		if k, ok := gen.DictSize(rng, 2, 2500); ok {
			n = k
		}
	}
	tr := trace{id: id, what: what, spans: coll.Tree(rng, ids, id, n)}
	tr.spans[0].Timestamp = coll.Base + proxy.Timestamp(rng.Int64N(1e13))
	missing := ids.Next()
	if rng.IntN(3) == 0 {
		missing = id
		for _, s := range tr.spans {
			if s.Id == id {
				missing = ids.Next()
			}
		}
	}
	switch rng.IntN(6) {
	case 0:
		// children of the missing root
		tr.spans[0].Parent = missing
		for i := 1; i < len(tr.spans); i++ {
			if rng.IntN(3) == 0 {
				tr.spans[i].Parent = missing
			}
		}
	case 1:
		// some other orphan
		tr.spans[rng.IntN(len(tr.spans))].Parent = missing
	case 2:
		// lost in between
		at := rng.IntN(len(tr.spans))
		tr.spans = append(tr.spans[:at], tr.spans[at+1:]...)
		if at == 0 {
			return tr
		}
	case 3:
		// two self-parented spans
		i := rng.IntN(len(tr.spans))
		tr.spans[i].Parent = tr.spans[i].Id
	case 4:
		// all under the missing root
		for i := range tr.spans {
			tr.spans[i].Parent = missing
		}
	}
	if rng.IntN(4) == 0 {
		for i := range tr.spans {
			s := &tr.spans[i]
			s.Timings = proxy.Timings{CS: s.Timestamp + 5, CR: s.Timestamp + 105, SR: s.Timestamp + 1e9, SS: s.Timestamp + 1e9 + 50}
		}
	} else if rng.IntN(3) == 0 {
		for i := range tr.spans {
			if rng.IntN(2) == 0 {
				coll.Moments(rng, &tr.spans[i])
			}
		}
	}
	return tr
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C18", "all ways in which up to 4 (thorough: 5) spans can name each other, themselves, missing spans, the trace or nobody as parent, in three relations of trace and span ids, and random larger trees with lost, orphaned or doubled roots; also with debug output; non-trivial: more than one span", func(r *rep.R) {
		r.WatchCPU(120 * time.Second)
		r.Need("synthesized spans verified", 1000)
		r.Need("synthesized spans for more than 100 candidates", 10)
		r.Need(coll.NoRoot.String(), 1000)
		r.Need(coll.UniqueRoot.String(), 1000)

		var pending []trace
		count := 0
		flush := func() {
			r.Progress(fmt.Sprintf("batch %d", count))
			batch(t, r, fmt.Sprint(count), pending)
			count++
			pending = nil
		}
		for n := 1; n <= r.N(4, 5); n++ {
			small(r, n, "small", func(tr trace) {
				pending = append(pending, tr)
				if len(pending) == 600 {
					flush()
				}
			})
			flush()
		}

		for seq := 0; seq < r.N(20, 400); seq++ {
			rng := r.Rand("random", seq)
			ids := coll.NewIds(rng)
			for i := 0; i < 300; i++ {
				tr := random(rng, ids.Next(), fmt.Sprintf("random %d/%d", seq, i))
				if len(tr.spans) > 0 {
					pending = append(pending, tr)
				}
			}
			if seq == 0 {
				r.Sample(pending[3].spans)
			}
			flush()
		}
	})
}
