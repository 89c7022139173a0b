package c25

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

func span(n int) proxy.Span {
	s := proxy.Span{Id: id(n), Trace: proxy.Id(n / 7), Parent: proxy.Id(n + 1), Name: fmt.Sprint("n", n), Service: "s", Timestamp: proxy.Timestamp(n), Duration: time.Duration(n), Tags: map[string]string{"n": fmt.Sprint(n)}, Timings: proxy.Timings{CS: proxy.Timestamp(n)}}
	// any field may be missing or negative
	h := uint32(n) * 2654435761 >> 16
	switch h % 40 {
	case 0:
		s.Timestamp = 0
	case 1:
		s.Duration = 0
	case 2:
		s.Timestamp, s.Duration = 0, 0
	case 3:
		s.Name = ""
	case 4:
		s.Service = ""
	case 5:
		s.Tags = nil
	case 6:
		s.Parent = 0
	case 7:
		s.Trace = 0
	case 8, 9:
		// nothing but an id, spans without are not handed to the list
		s = proxy.Span{Id: s.Id, Timings: s.Timings}
	case 10:
		s.Duration = -s.Duration
	case 11:
		s.Timestamp = -s.Timestamp
	case 12:
		s.Name, s.Service = "GET", "service"
	case 13:
		s.Parent = s.Id
	case 14:
		s.Id = max(1, s.Trace)
	case 15:
		s.Tags = map[string]string{"error": "true"}
	case 16:
		s.Timestamp = 1_700_000_000_000_000_000 + proxy.Timestamp(n)
	}
	switch h % 1500 {
	case 30:
		// a lot of tags
		s.Tags = map[string]string{}
		for i := 0; i < 100+n%900; i++ {
			s.Tags[fmt.Sprint("tag", i)] = "x"
		}
	case 31:
		s.Name = large[:n%len(large)]
	case 32:
		s.Tags = map[string]string{"db.statement": large[:n%len(large)]}
	case 33:
		s.Service = large[:n%len(large)]
	}
	return s
}

var large = strings.Repeat("0123456789", 20_000)

// id maps numbers to ids that are neither ordered nor zero
func id(n int) proxy.Id {
	switch n / 64 % 4 {
	case 1:
		// the same in neighbours
		n -= n % 2
	case 2:
		// in other traces
		n -= n % 32
	}
	return proxy.Id(uint64(max(1, n)) * 0x9E3779B97F4A7C15)
}

func number(s proxy.Span) int { return int(s.Timings.CS) }

func intact(s proxy.Span) bool {
	n := number(s)
	w := span(n)
	return maps.Equal(s.Tags, w.Tags) && s.Id == w.Id && s.Trace == w.Trace && s.Parent == w.Parent && s.Name == w.Name && s.Service == w.Service &&
		s.Timestamp == w.Timestamp && s.Duration == w.Duration && s.Timings == w.Timings
}

// verify checks a snapshot and returns the number of the latest span in it.
func verify(spans []proxy.Span, capacity int) (int, string) {
	if len(spans) == 0 {
		return 0, ""
	}
	for i, s := range spans {
		if !intact(s) {
			return 0, fmt.Sprintf("span %d of the list has other content: %+v", i, s)
		}
		if i > 0 && number(s) != number(spans[i-1])+1 {
			return 0, fmt.Sprintf("span number %d is followed by number %d", number(spans[i-1]), number(s))
		}
	}
	last := number(spans[len(spans)-1])
	if want := min(capacity, last); len(spans) != want {
		return 0, fmt.Sprintf("%d spans are listed after %d spans were received, with capacity %d", len(spans), last, capacity)
	}
	return last, ""
}

func numbers(spans []proxy.Span) []int {
	var res []int
	for _, s := range spans {
		res = append(res, number(s))
	}
	if len(res) > 100 {
		res = append(res[:50:50], res[len(res)-50:]...)
	}
	return res
}

func size(rng *rand.Rand, capacity int) int {
	switch rng.IntN(8) {
	case 0:
		return 0
	case 1:
		return capacity
	case 2:
		return 1 + rng.IntN(3*capacity)
	case 3:
		return capacity + 1
	case 4:
		return max(1, capacity-1)
	}
	return 1 + rng.IntN(min(capacity, 20))
}

var capacities = []int{1, 2, 3, 4, 7, 16, 64, 100, 2048}

func sequential(r *rep.R, seq int) {
	rng := r.Rand("sequential", seq)
	capacity := capacities[seq%len(capacities)]
	if k, ok := gen.DictSize(rng, 1, 5000); ok && seq > 2*len(capacities) {
		capacity = k
	}
	buffer := zipkinproxy.NewSpansBuffer(uint(capacity))
	ch := make(chan proxy.Trace)
	done := make(chan struct{})
	go func() { buffer.ReadFrom(ch); close(done) }()

	if got := buffer.ToSlice(); len(got) != 0 {
		r.Violate("content", "a new list is not empty", numbers(got))
	}
	total := 0
	steps := 60
	if capacity > 1000 {
		steps = 12
	}
	for step := 0; step < steps; step++ {
		n := size(rng, capacity)
		var trace proxy.Trace
		for i := 0; i < n; i++ {
			total++
			trace = append(trace, span(total))
		}
		ch <- trace
		// when this was received, the one before has been handled
		ch <- nil
		r.Eval(rep.Hash(capacity, n, total%capacity, total > capacity), total > 0)
		got := buffer.ToSlice()
		last, problem := verify(got, capacity)
		if problem == "" && last != total {
			problem = fmt.Sprintf("the latest span listed is number %d instead of %d", last, total)
		}
		if problem != "" {
			r.Violate("content", fmt.Sprintf("capacity %d, %d spans received: %s", capacity, total, problem), numbers(got))
			break
		}
		r.Count("lists compared", 1)
		if total > capacity {
			r.Count("lists after wrapping around", 1)
		}
	}
	close(ch)
	<-done
	// still there after the end
	if last, problem := verify(buffer.ToSlice(), capacity); !r.Violated() && (problem != "" || last != total) {
		r.Violate("content", fmt.Sprintf("after the end: latest %d of %d %s", last, total, problem), nil)
	}
}

// long adds very many spans.
func long(r *rep.R, seq int) {
	rng := r.Rand("long", seq)
	capacity := []int{3, 7, 100, 1000, 2048, 2049, 5000}[seq%7]
	if k, ok := gen.DictSize(rng, 1, 20_000); ok {
		capacity = k
	}
	total, end := 0, gen.Size(rng, 70_000, r.N(200_000, 3_000_000))
	buffer := zipkinproxy.NewSpansBuffer(uint(capacity))
	ch := make(chan proxy.Trace)
	done := make(chan struct{})
	go func() { buffer.ReadFrom(ch); close(done) }()
	for next := 0; total < end; {
		var trace proxy.Trace
		for i := 500 + rng.IntN(1000); i > 0; i-- {
			total++
			trace = append(trace, span(total))
		}
		ch <- trace
		if total < next && total < end {
			continue
		}
		next = total + gen.Size(rng, 1000, 20_000)
		ch <- nil
		got := buffer.ToSlice()
		last, problem := verify(got, capacity)
		if problem == "" && last != total {
			problem = fmt.Sprintf("the latest span listed is number %d instead of %d", last, total)
		}
		if problem != "" {
			r.Violate("content", fmt.Sprintf("capacity %d, %d spans received: %s", capacity, total, problem), numbers(got))
			break
		}
		r.Eval(rep.Hash("long", capacity, total), true)
		r.Count("lists compared in long runs", 1)
	}
	r.Count("spans in long runs", total)
	close(ch)
	<-done
}

// days has the spans come, and the list be read, after pauses of any length.
func days(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("days", seq)
	capacity := capacities[1+seq%(len(capacities)-1)]
	rep.Bubble(t, func(t *testing.T) {
		buffer := zipkinproxy.NewSpansBuffer(uint(capacity))
		ch := make(chan proxy.Trace)
		go buffer.ReadFrom(ch)
		defer close(ch)
		pause := func() {
			d := time.Duration(rng.Int64N(int64([]time.Duration{time.Second, time.Minute, 3 * time.Hour, 100 * time.Hour}[rng.IntN(4)])))
			if k, ok := dict.Get().Duration(rng, time.Millisecond, 1000*time.Hour); ok && rng.IntN(2) == 0 {
				d = k
			}
			time.Sleep(d)
		}
		total := 0
		for step := 0; step < 40; step++ {
			var trace proxy.Trace
			for i := size(rng, min(capacity, 64)); i > 0; i-- {
				total++
				trace = append(trace, span(total))
			}
			pause()
			ch <- trace
			synctest.Wait()
			for range 3 {
				got := buffer.ToSlice()
				last, problem := verify(got, capacity)
				if problem == "" && last != total {
					problem = fmt.Sprintf("the latest span listed is number %d instead of %d", last, total)
				}
				if problem != "" {
					r.Violate("content", fmt.Sprintf("capacity %d, %d spans received within days: %s", capacity, total, problem), numbers(got))
					return
				}
				r.Eval(rep.Hash("days", seq, step), total > 0)
				r.Count("lists compared after pauses", 1)
				pause()
			}
		}
	})
}

func concurrent(r *rep.R, seq int) {
	rng := r.Rand("concurrent", seq)
	capacity := capacities[rng.IntN(len(capacities))]
	buffer := zipkinproxy.NewSpansBuffer(uint(capacity))
	ch := make(chan proxy.Trace, rng.IntN(2)*rng.IntN(8))
	slack := cap(ch) + 1
	done := make(chan struct{})
	go func() { buffer.ReadFrom(ch); close(done) }()

	var started, finished atomic.Int64 // numbers of spans
	var stop atomic.Bool
	var wg sync.WaitGroup
	type kept struct {
		spans []proxy.Span
		last  int
	}
	for reader := 0; reader < 4; reader++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var keep []kept
			previous := 0
			for i := 0; !stop.Load() && i < 3000; i++ {
				low := int(finished.Load())
				got := buffer.ToSlice()
				high := int(started.Load())
				last, problem := verify(got, capacity)
				if problem == "" && last < low {
					problem = fmt.Sprintf("the latest span is number %d, although %d were handled before", last, low)
				}
				if problem == "" && last > high {
					problem = fmt.Sprintf("the latest span is number %d, but only %d were sent", last, high)
				}
				if problem == "" && last < previous {
					problem = fmt.Sprintf("the latest span is number %d, and was %d before", last, previous)
				}
				if problem != "" {
					r.Violate("concurrent", fmt.Sprintf("capacity %d: %s", capacity, problem), numbers(got))
					return
				}
				if last != previous {
					r.Count("distinct lists seen while adding", 1)
				}
				previous = last
				r.Count("lists read while adding", 1)
				if len(keep) < 5 || i%40 == 0 && len(keep) < 20 {
					keep = append(keep, kept{got, last})
				}
				if reader == 0 && len(got) > 0 && len(keep) < 5 {
					// the result belongs to the caller
					mine := buffer.ToSlice()
					for k := range mine {
						mine[k] = proxy.Span{Id: 77}
					}
				}
				runtime.Gosched()
			}
			<-done
			for _, k := range keep {
				if last, problem := verify(k.spans, capacity); problem != "" || last != k.last {
					r.Violate("changed", fmt.Sprintf("a list that was returned has changed: latest %d instead of %d %s", last, k.last, problem), numbers(k.spans))
				}
				r.Count("lists inspected again", 1)
			}
		}()
	}

	total := 0
	ends := []int{}
	for step := 0; step < 300; step++ {
		var trace proxy.Trace
		for i := size(rng, min(capacity, 64)); i > 0; i-- {
			total++
			trace = append(trace, span(total))
		}
		ends = append(ends, total)
		started.Store(int64(total))
		ch <- trace
		// with this many sends done, earlier ones have been handled for sure
		if k := len(ends) - 1 - slack; k >= 0 {
			finished.Store(int64(ends[k]))
		}
		if rng.IntN(4) == 0 {
			time.Sleep(time.Duration(rng.IntN(200)) * time.Microsecond)
		}
		r.Eval(rep.Hash("c", seq, step), len(trace) > 0)
	}
	close(ch)
	<-done
	stop.Store(true)
	wg.Wait()
	if last, problem := verify(buffer.ToSlice(), capacity); problem != "" || last != total {
		r.Violate("content", fmt.Sprintf("at the end: latest %d of %d %s", last, total, problem), nil)
	}
	if seq == 0 {
		r.Sample(map[string]any{"capacity": capacity, "spans": total, "latest": numbers(buffer.ToSlice())})
	}
}

func Test(t *testing.T) {
	rep.Run(t, "C25", "numbered spans in traces of any size (none, up to three times the capacity) are added to lists of capacity 1 to 2048; the list is compared after every trace, and read by four goroutines while spans are added under the race detector: contiguous, complete up to the capacity, within what was surely and possibly received, never going back; distinct by capacity, size and position", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("lists after wrapping around", 500)
		r.Need("distinct lists seen while adding", 200)
		r.Need("lists inspected again", 50)
		r.Need("spans in long runs", 300_000)
		for seq := 0; seq < r.N(90, 1500); seq++ {
			r.Progress("sequential")
			sequential(r, seq)
		}
		for seq := 0; seq < r.N(16, 160); seq++ {
			r.Progress("days")
			days(t, r, seq)
		}
		for seq := 0; seq < r.N(7, 30); seq++ {
			r.Progress("long")
			long(r, seq)
		}
		for seq := 0; seq < r.N(40, 800); seq++ {
			r.Progress("concurrent")
			concurrent(r, seq)
		}
	})
}
