// Package coll runs the trace collector in virtual time and records what it emits.
package coll

import (
	"io"
	"maps"
	"sort"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/rep"
)

// Arrival is one span that is handed to the collector at a virtual time.
type Arrival struct {
	At   time.Duration
	Span proxy.Span
}

// Emitted is one trace that came out of the collector.
type Emitted struct {
	At    time.Duration
	Spans proxy.Trace
}

func Quiet() {
	logrus.SetOutput(io.Discard)
}

// Verbose lets every fourth round log everything; what is logged must not matter.
func Verbose(r interface{ Count(string, int) }, round int) {
	logrus.SetLevel(logrus.InfoLevel)
	if round%4 == 3 {
		logrus.SetLevel(logrus.DebugLevel)
		r.Count("rounds with verbose logging", 1)
	}
}

func Clone(s proxy.Span) proxy.Span {
	s.Tags = maps.Clone(s.Tags)
	return s
}

// Box is a running collector. It must be used inside of a synctest bubble.
type Box struct {
	in    chan proxy.Span
	out   chan proxy.Trace
	done  chan struct{}
	start time.Time

	// everything emitted so far, may be read after synctest.Wait
	Emitted []Emitted
}

// ahead is how far the clock is ahead of Base in the next box. Other times have the spans in the future.
var ahead = []time.Duration{time.Hour, 10 * time.Second, -time.Second, 2 * time.Hour, 30 * time.Minute, -24 * time.Hour, time.Hour + 5*time.Second, 365 * 24 * time.Hour}
var boxes atomic.Int64

func Start(inBuffer, outBuffer int) *Box {
	if n := boxes.Add(1); time.Now().Year() == 2000 && n%5 != 0 {
		// the clock of a bubble starts in the year 2000, that of the spans at Base
		time.Sleep(time.Until(time.Unix(0, int64(Base)).Add(ahead[int(n/5*4+n%5-1)%len(ahead)])))
	}
	b := &Box{
		in:    make(chan proxy.Span, inBuffer),
		out:   make(chan proxy.Trace, outBuffer),
		done:  make(chan struct{}),
		start: time.Now(),
	}
	go func() {
		zipkinproxy.ErrorCorrectSpans(b.in, b.out)
		close(b.out)
	}()
	go func() {
		for trace := range b.out {
			b.Emitted = append(b.Emitted, Emitted{time.Since(b.start), trace})
		}
		close(b.done)
	}()
	return b
}

func (b *Box) Now() time.Duration { return time.Since(b.start) }

// Until sleeps until the virtual time.
func (b *Box) Until(at time.Duration) {
	if d := at - b.Now(); d > 0 {
		time.Sleep(d)
	}
}

// Send hands a copy of the span to the collector.
func (b *Box) Send(s proxy.Span) { b.in <- Clone(s) }

// Give hands the span itself to the collector.
func (b *Box) Give(s proxy.Span) { b.in <- s }

// Settle waits until the collector has handled everything sent so far.
func (b *Box) Settle() { synctest.Wait() }

// Stop closes the input and waits for the end of the collector.
func (b *Box) Stop() []Emitted {
	close(b.in)
	<-b.done
	return b.Emitted
}

// Run plays the arrivals (in order of time) and waits for another while.
func Run(t *testing.T, arrivals []Arrival, tail time.Duration, inBuffer int, midway ...func(b *Box)) (res []Emitted) {
	sort.SliceStable(arrivals, func(i, k int) bool { return arrivals[i].At < arrivals[k].At })
	rep.Bubble(t, func(t *testing.T) {
		b := Start(inBuffer, 0)
		for _, a := range arrivals {
			b.Until(a.At)
			b.Send(a.Span)
		}
		time.Sleep(tail)
		synctest.Wait()
		for _, f := range midway {
			f(b)
		}
		res = b.Stop()
	})
	return res
}

// Counters are the counters of the collector.
var Counters = []string{
	"traces.finished", "traces.noroot", "traces.toolarge", "traces.tooold", "traces.discarded",
	"spans.merged", "spans.discarded", "blacklist.span.received",
}

// Counts reads the counters.
func Counts() map[string]int64 {
	res := map[string]int64{}
	for _, name := range Counters {
		if m, ok := metrics.DefaultRegistry.Get(name).(interface{ Count() int64 }); ok {
			res[name] = m.Count()
		}
	}
	return res
}

// Gauge reads a gauge, -1 if there is none.
func Gauge(name string) int64 {
	if g, ok := metrics.DefaultRegistry.Get(name).(interface{ Value() int64 }); ok {
		return g.Value()
	}
	return -1
}
