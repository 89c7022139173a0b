package c11

import (
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/avro"
	"verif/harness/lib/dict"
	"verif/harness/lib/kafka"
	"verif/harness/lib/rep"
)

const (
	topic      = "zipkin-spans"
	partitions = 6

	clientLimit = 20_000 // larger messages are refused by the client
	brokerLimit = 10_000 // and these by the broker

	patience = 60 * time.Second
)

type episode struct {
	r       *rep.R
	rng     *rand.Rand
	name    string
	cluster *kafka.Cluster
	ch      chan proxy.Span
	config  *sarama.Config
	next    *proxy.Id
	history []string

	virtual  bool
	patience time.Duration
	round    time.Duration // in which a round of probes arrives
}

func (e *episode) note(format string, args ...any) {
	e.history = append(e.history, fmt.Sprintf(format, args...))
}

func (e *episode) witness() any {
	return map[string]any{
		"episode": e.name, "acks": e.config.Producer.RequiredAcks, "retries": e.config.Producer.Retry.Max,
		"buffer": e.config.ChannelBufferSize, "flush": e.config.Producer.Flush.Frequency.String(), "brokers": e.cluster.Nodes(),
		"history": e.history,
	}
}

func (e *episode) span(size int) proxy.Span {
	*e.next++
	s := proxy.Span{Id: *e.next, Trace: proxy.Id(e.rng.Uint64() | 1), Name: fmt.Sprintf("span %d", *e.next), Service: "svc",
		Timestamp: 1_600_000_000_000_000_000, Duration: time.Millisecond}
	if size > 0 {
		s.AddTag("pad", strings.Repeat("x", size))
	}
	return s
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// push gives a span to the sender, which has to take it.
func (e *episode) push(s proxy.Span) {
	select {
	case e.ch <- s:
		return
	default:
	}
	t := time.NewTimer(e.patience)
	defer t.Stop()
	select {
	case e.ch <- s:
	case <-t.C:
		e.r.Fatal("blocked", fmt.Sprintf("the sender has not taken a span for %s (%s)", e.patience, e.name), map[string]any{
			"state": e.witness(), "goroutines": stacks()})
	}
}

// arrived counts how often the broker has got spans since the position.
func (e *episode) arrived(records []kafka.Record) map[proxy.Id]int {
	res := map[proxy.Id]int{}
	for _, rec := range records {
		if s, _, err := avro.Decode(rec.Value); err == nil {
			res[s.Id]++
		}
	}
	return res
}

// recover sends spans until all partitions work again, twice in a row.
func (e *episode) recover() {
	deadline := time.Now().Add(e.patience)
	good := 0
	for round := 0; good < 2; round++ {
		from := len(e.cluster.Records(0))
		sent := map[proxy.Id]bool{}
		for i := 0; i < 8*partitions; i++ {
			s := e.span(0)
			sent[s.Id] = true
			e.push(s)
		}
		complete := func(records []kafka.Record) bool {
			parts := map[int32]bool{}
			n := 0
			for _, rec := range records[from:] {
				if s, _, err := avro.Decode(rec.Value); err == nil && sent[s.Id] {
					n++
					parts[rec.Partition] = true
				}
			}
			return n >= len(sent) && len(parts) == partitions
		}
		if e.cluster.Wait(e.round, complete) {
			good++
		} else {
			good = 0
		}
		e.r.Count("probes", len(sent))
		if time.Now().After(deadline) && good == 0 {
			got := e.arrived(e.cluster.Records(from))
			n := 0
			for id := range sent {
				if got[id] > 0 {
					n++
				}
			}
			e.r.Fatal("dead", fmt.Sprintf("the broker works again for %s, but only %d of %d spans of the last round have arrived", e.patience, n, len(sent)), map[string]any{
				"state": e.witness(), "goroutines": stacks()})
		}
	}
}

// exact sends spans while the broker works.
func (e *episode) exact(n int) {
	from := len(e.cluster.Records(0))
	conns, _, _ := e.cluster.Counts()
	sent := map[proxy.Id]bool{}
	for i := 0; i < n; i++ {
		if e.rng.IntN(5) == 0 {
			// this is refused on the way, and the only one
			e.push(e.span(clientLimit + e.rng.IntN(20_000)))
			e.r.Count("spans that cannot be delivered", 1)
		}
		s := e.span([]int{0, 0, 0, 400, 600, 3000, brokerLimit - 500}[e.rng.IntN(7)])
		sent[s.Id] = true
		e.push(s)
	}
	done := func(records []kafka.Record) bool {
		// one decoding per span is enough, all were distinct
		return len(records)-from >= len(sent) && len(e.arrived(records[from:])) >= len(sent)
	}
	e.cluster.Wait(40*time.Second, done)
	time.Sleep(100 * time.Millisecond)
	got := e.arrived(e.cluster.Records(from))
	lost, twice := 0, 0
	for id := range sent {
		switch {
		case got[id] == 0:
			lost++
		case got[id] > 1:
			twice++
		}
	}
	e.r.Count("spans sent to the working broker", len(sent))
	if lost+twice > 0 {
		now, _, _ := e.cluster.Counts()
		if now != conns {
			// the machine is too slow for the timeouts
			e.r.Inconclusive("connections were lost although the broker worked (%s)", e.name)
			return
		}
		e.r.Violate("exact", fmt.Sprintf("%d of %d spans that were sent while the broker worked are lost, %d were sent more than once (%s)", lost, len(sent), twice, e.name), e.witness())
	}
}

// mixed sends spans of which some cannot be delivered.
func (e *episode) mixed(n int) {
	for i := 0; i < n; i++ {
		size := []int{0, 0, 300, 3000, brokerLimit + 2000, clientLimit + 1000}[e.rng.IntN(6)]
		if size > brokerLimit {
			e.r.Count("spans that cannot be delivered", 1)
		}
		e.push(e.span(size))
	}
}

// lasts waits while something is broken, up to the number of milliseconds or, in virtual time, as long as we like.
func (e *episode) lasts(ms int) {
	d := time.Duration(e.rng.IntN(ms)) * time.Millisecond
	if !e.virtual {
		time.Sleep(d)
		return
	}
	switch e.rng.IntN(4) {
	case 0:
		d = time.Duration(e.rng.Int64N(int64(10 * time.Minute)))
	case 1:
		d = time.Duration(e.rng.Int64N(int64(48 * time.Hour)))
	case 2:
		if k, ok := dict.Get().Duration(e.rng, time.Second, 1000*time.Hour); ok {
			d = k
		}
	}
	e.note("for %s", d)
	e.r.Count("seconds of virtual time", int(d.Seconds()))
	// with some spans now and then
	for n := e.rng.IntN(2) * e.rng.IntN(60); n > 0; n-- {
		pause := d / 60
		d -= pause
		time.Sleep(pause)
		e.mixed(1)
	}
	time.Sleep(d)
}

func (e *episode) fault(kind string) {
	c := e.cluster
	e.name = kind
	e.note("%s", kind)
	n := 150 + e.rng.IntN(150)
	switch kind {
	case "too large for the client":
		for i := 0; i < n; i++ {
			e.push(e.span(clientLimit + e.rng.IntN(20_000)))
		}
		e.r.Count("spans that cannot be delivered", n)
	case "too large for the broker":
		for i := 0; i < n; i++ {
			e.push(e.span(brokerLimit + e.rng.IntN(5_000)))
		}
		e.r.Count("spans that cannot be delivered", n)
	case "refused":
		codes := []int16{-1, 2, 3, 5, 6, 7, 10, 17, 19, 20, 29, 56}
		code := codes[e.rng.IntN(len(codes))]
		e.note("code %d", code)
		e.r.Distinct("error codes", uint64(code+1))
		c.Set(kafka.Refuse, code)
		e.mixed(n)
		e.lasts(300)
	case "closed":
		c.Set(kafka.Close, 0)
		e.mixed(n)
		e.lasts(300)
	case "silent":
		c.Set(kafka.Silent, 0)
		e.mixed(n / 4)
		e.lasts(1500)
	case "dropped":
		for i := 0; i < 4; i++ {
			e.mixed(n / 4)
			c.Drop(e.rng.IntN(c.Nodes()))
		}
	case "idle":
		e.lasts(3000)
	case "down":
		var down []int
		for i := 0; i < c.Nodes(); i++ {
			if len(down) == 0 || e.rng.IntN(2) == 0 {
				c.Down(i)
				down = append(down, i)
			}
		}
		e.mixed(n)
		e.lasts(600)
		for _, i := range down {
			if err := c.Up(i); err != nil {
				e.r.Abort("the port of the broker is gone: %v", err)
			}
		}
	}
	c.Set(kafka.OK, 0)
	e.r.Count("faults: "+kind, 1)
}

var kinds = []string{"too large for the client", "too large for the broker", "refused", "closed", "silent", "dropped", "down"}

func Test(t *testing.T) {
	rep.Run(t, "C11", "a sender is fed through phases in which spans are too large or brokers refuse, hang up, do not answer or are down; it has to take every span within 60 s, to deliver again after each phase, and to deliver each span of a batch sent then exactly once (race detector); distinct by configuration and sequence of phases, nontrivial always", func(r *rep.R) {
		r.WatchCPU(900 * time.Second)
		logrus.SetOutput(io.Discard)
		sarama.PanicHandler = func(v any) {
			r.Fatal("producer", fmt.Sprint("the producer crashed: ", v), map[string]any{"stack": string(debug.Stack())})
		}
		r.Need("spans sent to the working broker", 2000)
		r.Need("spans that cannot be delivered", 1000)
		r.Need("records refused by the broker", 100)
		r.Need("episodes in virtual time", 20)

		var mu sync.Mutex
		var ids proxy.Id
		one := func(k int, virtual bool) {
			rng := r.Rand("episode", k, virtual)
			var cluster *kafka.Cluster
			var network *kafka.Virtual
			var err error
			if virtual {
				cluster, network, err = kafka.StartVirtual(1+rng.IntN(3), map[string]int32{topic: partitions})
			} else {
				cluster, err = kafka.Start(1+rng.IntN(3), map[string]int32{topic: partitions})
			}
			if err != nil {
				r.Abort("broker: %v", err)
			}
			cluster.Limit(brokerLimit)
			config := sarama.NewConfig()
			config.Version = sarama.V1_1_1_0
			config.Producer.RequiredAcks = []sarama.RequiredAcks{sarama.NoResponse, sarama.NoResponse, sarama.WaitForLocal, sarama.WaitForAll}[rng.IntN(4)]
			config.Producer.Flush.Frequency = []time.Duration{0, 10, 50}[rng.IntN(3)] * time.Millisecond
			config.Producer.MaxMessageBytes = clientLimit
			config.Producer.Retry.Max = rng.IntN(4)
			config.Producer.Retry.Backoff = 20 * time.Millisecond
			config.Metadata.Retry.Max = 2
			config.Metadata.Retry.Backoff = 50 * time.Millisecond
			config.Net.ReadTimeout = 2 * time.Second
			config.Net.WriteTimeout = 2 * time.Second
			config.ChannelBufferSize = []int{1, 8, 64}[rng.IntN(3)]
			if virtual {
				config.Net.Proxy.Enable, config.Net.Proxy.Dialer = true, network
				if rng.IntN(2) == 0 {
					// as the service has it
					config.Producer.RequiredAcks = sarama.NoResponse
					config.Producer.Flush.Frequency = time.Second
					config.Producer.Retry = sarama.NewConfig().Producer.Retry
					config.Metadata = sarama.NewConfig().Metadata
					config.Net.ReadTimeout, config.Net.WriteTimeout = 30*time.Second, 30*time.Second
					config.ChannelBufferSize = 64
				}
			}
			client, err := sarama.NewClient(cluster.Addrs(), config)
			if err != nil {
				r.Abort("kafka client: %v", err)
			}
			sender, err := balance.NewSender(client, topic)
			if err != nil {
				r.Fatal("sender", "NewSender failed: "+err.Error(), nil)
			}
			mu.Lock()
			first := ids
			ids += 1_000_000
			mu.Unlock()
			e := &episode{r: r, rng: rng, cluster: cluster, config: config, next: &first, ch: make(chan proxy.Span, 16), virtual: virtual, patience: patience, round: 700 * time.Millisecond}
			if virtual {
				e.patience, e.round = 2*time.Hour, 10*time.Second
			}
			loops := 1 + rng.IntN(2)
			var ended sync.WaitGroup
			var closing atomic.Bool
			for i := 0; i < loops; i++ {
				ended.Add(1)
				go func() {
					defer ended.Done()
					sender.Send(e.ch)
					if !closing.Load() {
						r.Fatal("left", "Send has returned although its channel is open", map[string]any{"state": e.witness()})
					}
				}()
			}
			e.name = "start"
			e.exact(100)
			order := append([]string{}, kinds...)
			if virtual {
				order = append(order, "idle", "idle", "down", "refused", "silent")
			}
			rng.Shuffle(len(order), func(i, k int) { order[i], order[k] = order[k], order[i] })
			for _, kind := range order {
				r.Progress(fmt.Sprintf("episode %d: %s", k, kind))
				e.fault(kind)
				e.recover()
				e.exact(100 + rng.IntN(100))
			}
			if p := cluster.Problems(); len(p) > 0 {
				r.Abort("the broker did not understand the client: %v", p)
			}
			closing.Store(true)
			close(e.ch)
			finished := make(chan struct{})
			go func() {
				ended.Wait()
				close(finished)
			}()
			select {
			case <-finished:
			case <-time.After(e.patience):
				r.Fatal("end", "Send does not return after its channel was closed", map[string]any{"state": e.witness(), "goroutines": stacks()})
			}
			r.Eval(rep.Hash(fmt.Sprint(config.Producer.RequiredAcks, config.Producer.Flush.Frequency, config.Producer.Retry.Max, config.ChannelBufferSize, loops, cluster.Nodes(), e.history)), true)
			r.Sample(e.witness())
			_, requests, refused := cluster.Counts()
			r.Count("records refused by the broker", refused)
			r.Count("produce requests", requests["Produce"])
			r.Count("records at the broker", len(cluster.Records(0)))
			if virtual {
				r.Count("episodes in virtual time", 1)
			}
			go client.Close()
			for i := 0; i < cluster.Nodes(); i++ {
				cluster.Down(i)
			}
		}

		// in virtual time, where outages last for hours. A sender cannot be closed, so the
		// bubbles never end: they are left alone, waiting for something outside of them.
		metrics.NewMeter().Stop()
		forever, next := make(chan bool), atomic.Int64{}
		bubbles := make(chan bool)
		for range 6 {
			go rep.Bubble(t, func(t *testing.T) {
				for {
					k := int(next.Add(1))
					if k > r.N(60, 1200) || r.Violated() {
						break
					}
					one(k, true)
				}
				bubbles <- true
				<-forever
			})
		}
		for range 6 {
			<-bubbles
		}

		n := r.N(16, 400)
		work := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < 12; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range work {
					one(k, false)
				}
			}()
		}
		for k := 0; k < n; k++ {
			work <- k
		}
		close(work)
		wg.Wait()
	})
}
