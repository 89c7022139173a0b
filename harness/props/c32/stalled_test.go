package c32

import (
	"fmt"
	"net/http"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"

	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/rep"
)

// hanging is a transport that answers when it is told to.
type hanging struct {
	drain
	answer  chan bool
	waiting atomic.Int64
}

func (h *hanging) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	h.waiting.Add(1)
	<-h.answer
	h.waiting.Add(-1)
	return h.drain.SendTraces(traces)
}

// stalled lets the sink go on for hours while the agent hangs.
func stalled(r *rep.R, t *testing.T) {
	rng := r.Rand("stalled")
	var us []usage
	spans := 0
	rep.Bubble(t, func(t *testing.T) {
		traces := make(chan proxy.Trace, 256)
		transport := &hanging{answer: make(chan bool)}
		go datadog.Sink(transport, traces)
		var next uint64
		for epoch := 0; epoch < r.N(12, 100); epoch++ {
			r.Progress(fmt.Sprintf("hanging agent %d", epoch))
			for end := spans + 40_000; spans < end; {
				next++
				x := mix(next)
				trace := make(proxy.Trace, 1+rng.IntN(20))
				for i := range trace {
					next++
					trace[i] = proxy.Span{Trace: x, Id: mix(next), Parent: x, Name: "name-" + strconv.FormatUint(next, 36), Service: "s", Timestamp: proxy.Timestamp(next), Duration: 5000}
					trace[i].AddTag("tag", strconv.FormatUint(next, 36))
				}
				spans += len(trace)
				traces <- trace
				if rng.IntN(100) == 0 {
					time.Sleep(time.Duration(rng.IntN(5000)) * time.Millisecond)
				}
			}
			time.Sleep(10 * time.Second)
			synctest.Wait()
			if transport.waiting.Load() == 0 {
				r.Abort("no submission hangs")
			}
			us = append(us, measure())
		}
		if growth(r, "the sink, while the agent hangs,", us[1:], fmt.Sprintf("%d spans", spans)) {
			r.Finish()
		}
		r.Count("spans while the agent hangs", spans)
		close(traces)
		close(transport.answer)
		time.Sleep(time.Minute)
	})
}
