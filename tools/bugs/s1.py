HELP='''
package zipkinproxy

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

var _ = fmt.Sprint

func seedStart() (chan<- proxy.Span, <-chan proxy.Trace) {
	in, out := make(chan proxy.Span, 64), make(chan proxy.Trace, 4096)
	go ErrorCorrectSpans(in, out)
	return in, out
}

// waits for the next trace
func seedNext(t *testing.T, out <-chan proxy.Trace, wait time.Duration) proxy.Trace {
	select {
	case trace := <-out:
		return trace
	case <-time.After(wait):
		return nil
	}
}

const seedBase = proxy.Timestamp(1600000000000000000)

func seedSpan(trace, id, parent proxy.Id) proxy.Span {
	span := proxy.NewSpan("name", trace, id, parent)
	span.Service = "service"
	span.Timestamp = seedBase
	span.Duration = time.Millisecond
	return span
}

'''
def d(body): return HELP+body
BUGS=[
dict(id='collector-merge-keeps-age',property='C15',pkg='.',
 edits=[('correct.go','''func (tree *tree) AddSpan(newSpan proxy.Span) {
	tree.updated = time.Now()

	// get a reference to the span if it already exists
	span := tree.spans.GetSpanRef(newSpan.Id)
	if span == nil {
		tree.spans.Append(newSpan)
''','''func (tree *tree) AddSpan(newSpan proxy.Span) {
	// get a reference to the span if it already exists
	span := tree.spans.GetSpanRef(newSpan.Id)
	if span == nil {
		tree.updated = time.Now()
		tree.spans.Append(newSpan)
''')],
 needs='a trace in which, for a while, only second halves of spans that are already known arrive, and a new span after that, with all pauses shorter than the quiet period',
 breaks='the halves that are merged no longer keep the trace open: it is emitted while spans still arrive and the remaining spans end up in a second trace (or in none)',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()

	server := seedSpan(1, 1, 1)
	server.Timings.SR, server.Timings.SS = seedBase, seedBase+1000
	in <- server

	time.Sleep(5 * time.Second)
	client := seedSpan(1, 1, 1)
	client.Timings.CS, client.Timings.CR = seedBase, seedBase+1000
	in <- client

	time.Sleep(5 * time.Second)
	in <- seedSpan(1, 2, 1)

	if trace := seedNext(t, out, 15*time.Second); len(trace) != 2 {
		t.Fatalf("expected one trace with two spans, got %d spans", len(trace))
	}
}
''')),
dict(id='collector-nameless-server',property='C16',pkg='.',
 edits=[('correct.go','''		if newSpan.Name != "" {
			spanToUpdate.Name = newSpan.Name
		}

		// merge tags, prefer''','''		// the name of an endpoint is better known to the server
		spanToUpdate.Name = newSpan.Name

		// merge tags, prefer''')],
 needs='a server half without a name that is received after the client half of the span',
 breaks='the name the client reported is lost',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()

	client := seedSpan(1, 1, 1)
	client.Timings.CS, client.Timings.CR = seedBase, seedBase+4000
	in <- client

	server := seedSpan(1, 1, 1)
	server.Name = ""
	server.Timings.SR, server.Timings.SS = seedBase+1000, seedBase+3000
	in <- server

	trace := seedNext(t, out, 15*time.Second)
	if len(trace) != 1 || trace[0].Name != "name" {
		t.Fatalf("wrong trace: %+v", trace)
	}
}
''')),
dict(id='collector-parent-of-server',property='C16',pkg='.',
 edits=[('correct.go','''	if span.Parent.IsUnknown() {
		span.Parent = newSpan.Parent
	}
''','''	if span.Parent.IsUnknown() && newSpan.Timings.CS.IsValid() {
		// the client knows from where it was called
		span.Parent = newSpan.Parent
	}
''')],
 needs='a span whose first reported half does not know the parent and whose second half is the server (or carries no client timing) and knows it',
 breaks='the parent is lost, the span becomes another root and the trace is not emitted',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	in <- seedSpan(1, 1, 1)

	client := seedSpan(1, 2, 0)
	client.Timings.CS, client.Timings.CR = seedBase, seedBase+4000
	in <- client

	server := seedSpan(1, 2, 1)
	server.Timings.SR, server.Timings.SS = seedBase, seedBase+4000
	in <- server

	trace := seedNext(t, out, 15*time.Second)
	if len(trace) != 2 {
		t.Fatalf("expected two spans, got %d", len(trace))
	}
	for _, span := range trace {
		if span.Parent != 1 {
			t.Fatalf("wrong span: %+v", span)
		}
	}
}
''')),
dict(id='collector-skew-not-accumulated',property='C17',pkg='.',
 edits=[('correct.go','		offset += screw\n','		offset = screw\n')],
 needs='two spans with skewed clocks on one path of the call tree, with another span below them',
 breaks='spans below the second skewed span are shifted by the skew of the nearest call only instead of the accumulated one',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	for id := proxy.Id(1); id <= 3; id++ {
		span := seedSpan(1, id, 1)
		if id > 1 {
			span.Parent = id - 1
		}
		if id < 3 {
			span.Timings.CS, span.Timings.CR = seedBase, seedBase+4000
			span.Timings.SR, span.Timings.SS = seedBase+1000000, seedBase+1004000
		}
		in <- span
	}

	trace := seedNext(t, out, 15*time.Second)
	if len(trace) != 3 {
		t.Fatalf("expected three spans, got %d", len(trace))
	}
	for _, span := range trace {
		if span.Id == 3 && span.Timestamp != seedBase-2000000 {
			t.Fatalf("wrong start: %d", span.Timestamp-seedBase)
		}
	}
}
''')),
dict(id='collector-2020-before-skew',property='C17',pkg='.',
 edits=[('correct.go','''	if offset != 0 {
		node.Timestamp += proxy.Timestamp(offset)
	}

	clientSent''','''	broken := node.Timestamp.ToMillis() < 1577836800_000

	if offset != 0 {
		node.Timestamp += proxy.Timestamp(offset)
	}

	clientSent'''),('correct.go','	if parent != nil && node.Timestamp.ToMillis() < 1577836800_000 {\n','	if parent != nil && broken {\n')],
 needs='a span reported by a host whose clock is so far behind that it reports times before 2020, below a call from which the skew is known',
 breaks='the start that was just corrected is thrown away and replaced by that of the parent, as validity is decided on the uncorrected start',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	old := proxy.Timestamp(1000000000000000)

	root := seedSpan(1, 1, 1)
	root.Timings.CS, root.Timings.CR = seedBase, seedBase+4000000
	root.Timings.SR, root.Timings.SS = old, old+4000000
	in <- root

	child := seedSpan(1, 2, 1)
	child.Timestamp = old + 1000000
	in <- child

	trace := seedNext(t, out, 15*time.Second)
	if len(trace) != 2 {
		t.Fatalf("expected two spans, got %d", len(trace))
	}
	for _, span := range trace {
		if span.Id == 2 && span.Timestamp != seedBase+1000000 {
			t.Fatalf("wrong start: %d", span.Timestamp-seedBase)
		}
	}
}
''')),
dict(id='collector-same-parent-neighbours',property='C18',pkg='.',
 edits=[('correct.go','''	for _, span := range spans {
		if spans[0].Parent != span.Parent {
			return false
		}
	}

	return true
''','''	return spans[0].Parent == spans[len(spans)-1].Parent
''')],
 needs='at least three root candidates of which the one with the largest and the one with the smallest id share a missing parent, but one in between does not',
 breaks='the candidates are taken to have the same parent; instead of being dropped as a trace without root a trace with a wrong synthesized root (or none) results',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	spans := []*proxy.Span{}
	for _, parent := range []proxy.Id{77, 78, 77} {
		span := seedSpan(1, proxy.Id(10+len(spans)), parent)
		spans = append(spans, &span)
	}
	if allTheSameParent(spans) {
		t.Fatal("the candidates have different parents")
	}
	if !allTheSameParent([]*proxy.Span{spans[0], spans[2]}) {
		t.Fatal("the candidates have the same parent")
	}
}
''')),
dict(id='collector-fake-root-end',property='C18',pkg='.',
 edits=[('correct.go','''		if span.Timestamp < firstTimestamp {
			firstTimestamp = span.Timestamp
		}

		ts := span.Timestamp.Add(span.Duration)
		if ts > lastTimestamp {
			lastTimestamp = ts
		}
''','''		ts := span.Timestamp.Add(span.Duration)
		if span.Timestamp < firstTimestamp {
			firstTimestamp = span.Timestamp
		} else if ts > lastTimestamp {
			lastTimestamp = ts
		}
''')],
 needs='root candidates of which one, not the first one looked at (the one with the largest id), starts before and ends after the ones before it',
 breaks='the synthesized root ends before the span that it is made for ends',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	inner := seedSpan(1, 9, 5)
	inner.Timestamp += 1000
	inner.Duration = 1000
	in <- inner

	outer := seedSpan(1, 8, 5)
	outer.Duration = 5000
	in <- outer

	trace := seedNext(t, out, 15*time.Second)
	for _, span := range trace {
		if span.Id == 5 {
			if span.Timestamp != seedBase || span.Duration != 5000 {
				t.Fatalf("wrong root: %+v", span)
			}
			return
		}
	}
	t.Fatal("no root")
}
''')),
dict(id='collector-old-trace-returns',property='C19',pkg='.',
 edits=[('correct.go','''		if traceTooOld {
			blacklist[traceID] = none{}
''','''		if traceTooOld && !updatedRecently {
			blacklist[traceID] = none{}
''')],
 needs='a trace that gets spans without ever being quiet for more than five quiet periods',
 breaks='a trace that is still active when it is too old is not cut off, but emitted in part, and its later spans are collected as a further trace',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	in <- seedSpan(1, 1, 1)
	for id := proxy.Id(2); id < 12; id++ {
		time.Sleep(5 * time.Second)
		in <- seedSpan(1, id, 1)
	}
	if trace := seedNext(t, out, 10*time.Second); trace != nil {
		t.Fatalf("the trace must be cut off, got %d spans", len(trace))
	}
}
''')),
dict(id='collector-small-blacklist',property='C19',pkg='.',
 edits=[('correct.go','		if len(blacklist) < 1024 {\n','		if len(blacklist) < maxSpans>>10 {\n')],
 needs='about a hundred traces that were cut off before, and further spans of one of them',
 breaks='the list of cut-off traces holds only 96 traces, so spans of a trace that was cut off are collected and emitted again',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	const count = 120
	for trace := proxy.Id(1); trace <= count; trace++ {
		for id := proxy.Id(1); id <= 8200; id++ {
			in <- seedSpan(trace, 10000-id, 10000-id+1)
		}
		if trace%4 == 0 {
			time.Sleep(250 * time.Millisecond)
		}
	}
	time.Sleep(time.Second)
	for trace := proxy.Id(1); trace <= count; trace++ {
		in <- seedSpan(trace, 1, 1)
	}
	if trace := seedNext(t, out, 12*time.Second); trace != nil {
		t.Fatalf("trace %s was cut off, but is emitted", trace[0].Trace)
	}
}
''')),
dict(id='collector-discard-by-age',property='C20',pkg='.',
 edits=[('correct.go','''		return traces[i].nodeCount > traces[j].nodeCount
''','''		// a difference in size that does not matter must not make us drop the newer one
		a, b := traces[i], traces[j]
		if a.nodeCount/1024 != b.nodeCount/1024 {
			return a.nodeCount > b.nodeCount
		}
		return a.started.Before(b.started)
''')],
 needs='more than 100 000 spans held, in traces of less than 1024 spans each of different sizes, where the older ones are the smaller ones',
 breaks='traces are no longer discarded largest first: small traces are lost while larger ones survive',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	trees := map[Id]*tree{}
	for id := proxy.Id(1); id <= 4; id++ {
		trees[id] = newTree(id)
		trees[id].nodeCount = uint32(100 * id)
		trees[id].started = time.Unix(int64(id), 0)
	}
	discardSuspiciousTraces(trees, 700)
	if len(trees) != 3 || trees[4] != nil {
		t.Fatalf("expected the largest trace to be discarded, %d left", len(trees))
	}
}
''')),
dict(id='collector-wait-stays-short',property='C20',pkg='.',
 edits=[('correct.go','''func finishTraces(traces map[Id]*tree,''','''// the time spans are currently kept in the buffer.
var currentBufferTime = bufferConfigs[0].BufferTime

func finishTraces(traces map[Id]*tree,'''),('correct.go','''			bufferTime = config.BufferTime
		}
	}
''','''			bufferTime = config.BufferTime
		}
	}

	// do not flap between two values if the number of spans is close to a limit
	if bufferTime > currentBufferTime && len(traces) > 0 {
		bufferTime = currentBufferTime
	}
	currentBufferTime = bufferTime
''')],
 needs='a load peak of at least 40 000 held spans, and after that traffic that never pauses until the collector is empty',
 breaks='the quiet period stays short after the peak and traces with pauses of a few seconds are torn apart',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	for trace := proxy.Id(1); trace <= 850; trace++ {
		for id := proxy.Id(1); id <= 100; id++ {
			in <- seedSpan(trace, id, 1)
		}
	}
	for traces := 0; traces < 850; traces++ {
		if traces == 840 {
			// before the collector is empty
			in <- seedSpan(1000, 1, 1)
		}
		if trace := seedNext(t, out, 15*time.Second); trace == nil {
			t.Fatal("traces are missing")
		}
	}
	start := time.Now()
	trace := seedNext(t, out, 15*time.Second)
	if trace == nil || time.Since(start) < 6*time.Second {
		t.Fatalf("the last trace was emitted after %s", time.Since(start))
	}
}
''')),
dict(id='collector-finished-counts-rootless',property='C21',pkg='.',
 edits=[('correct.go','''			metricsTracesWithoutRoot.Mark(1)
			continue
		}

		correctTreeTimings(trace, roots[0], nil, 0)

		metricsTracesCorrected.Mark(1)

		// send all the spans to the output channel
		outputCh <- trace.Spans()

		metricsTracesFinished.Mark(1)
	}
''','''			if len(roots) > 1 {
				metricsTracesWithoutRoot.Mark(1)
			}
			continue
		}

		correctTreeTimings(trace, roots[0], nil, 0)

		metricsTracesCorrected.Mark(1)

		// send all the spans to the output channel
		outputCh <- trace.Spans()

		metricsTracesFinished.Mark(1)
	}
''')],
 needs='a trace without any root candidate, i.e. all parents were received, but they form a cycle',
 breaks='such a trace leaves the collector without being counted anywhere',
 demo=d('''
func TestSeedDemo(t *testing.T) {
	in, out := seedStart()
	before := metricsTracesWithoutRoot.Count()
	in <- seedSpan(1, 1, 2)
	in <- seedSpan(1, 2, 1)
	if trace := seedNext(t, out, 10*time.Second); trace != nil {
		t.Fatal("trace without root is emitted")
	}
	if count := metricsTracesWithoutRoot.Count() - before; count != 1 {
		t.Fatalf("%d traces without root counted", count)
	}
}
''')),
]
