package c12

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/avro"
	"verif/harness/lib/coll"
	"verif/harness/lib/dict"
	"verif/harness/lib/gen"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

const topic = "the topic"

type message struct {
	value     []byte
	decodable bool
	span      proxy.Span
	key       []byte
	at        time.Time // as the broker says
	headers   []*sarama.RecordHeader
	handed    int // callbacks that have returned
	begun     int
}

type partition struct {
	number    int32
	base      int64 // offset of the first message
	log       []*message
	published int   // number of messages the broker has
	committed int64 // next offset
	lastBegun int64 // offset
	claims    int
}

// group is a consumer group that hands out partitions like sarama does.
type group struct {
	r   *rep.R
	rng *rand.Rand

	mu         sync.Mutex
	partitions []*partition
	byKey      map[string][2]int
	sessions   int
	failed     int
	closed     bool // close has returned
	inCallback int
	notes      []string
	healthy    bool // sessions do not end any more
	failing    int  // so many sessions in a row fail at once
	seq        int
	callbackMs int
	end        func() // ends the current session
}

func (g *group) note(format string, args ...any) {
	if len(g.notes) < 4000 {
		g.notes = append(g.notes, fmt.Sprintf(format, args...))
	}
}

func (g *group) fail(sig, format string, args ...any) {
	g.r.Violate(sig, fmt.Sprintf(format, args...), map[string]any{"episode": g.seq, "history": g.notes[max(0, len(g.notes)-80):]})
}

func (g *group) Errors() <-chan error { return make(chan error) }
func (g *group) Close() error         { return nil }

type session struct {
	g      *group
	ctx    context.Context
	claims map[string][]int32
	n      int32
}

func (s *session) Claims() map[string][]int32 { return s.claims }
func (s *session) MemberID() string           { return "member" }
func (s *session) GenerationID() int32        { return s.n }
func (s *session) Context() context.Context   { return s.ctx }
func (s *session) ResetOffset(string, int32, int64, string) {
}
func (s *session) MarkMessage(m *sarama.ConsumerMessage, metadata string) {
	s.MarkOffset(m.Topic, m.Partition, m.Offset+1, metadata)
}

// MarkOffset acknowledges everything before the offset.
func (s *session) MarkOffset(t string, part int32, offset int64, _ string) {
	g := s.g
	g.mu.Lock()
	defer g.mu.Unlock()
	p := g.partition(part)
	if t != topic || p == nil {
		g.fail("mark", "message of %s:%d acknowledged", t, part)
		return
	}
	offset -= p.base
	g.note("mark %d:%d", part, offset)
	g.r.Count("acknowledgements", 1)
	if offset > int64(p.published) {
		g.fail("mark", "offset %d of partition %d acknowledged, which does not exist", offset, part)
		return
	}
	for o := p.committed; o < offset; o++ {
		if m := p.log[o]; m.decodable && m.handed == 0 {
			g.fail("early-ack", "message %d:%d was acknowledged before its span was handed over", part, o)
		}
	}
	p.committed = max(p.committed, offset)
}

func (g *group) partition(number int32) *partition {
	for _, p := range g.partitions {
		if p.number == number {
			return p
		}
	}
	return nil
}

type claim struct {
	part  int32
	first int64
	// the next offset that would be written
	high atomic.Int64
	ch   chan *sarama.ConsumerMessage
}

func (c *claim) Topic() string                            { return topic }
func (c *claim) Partition() int32                         { return c.part }
func (c *claim) InitialOffset() int64                     { return c.first }
func (c *claim) HighWaterMarkOffset() int64               { return c.high.Load() }
func (c *claim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

func (g *group) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	g.mu.Lock()
	if len(topics) != 1 || topics[0] != topic {
		g.fail("topic", "session started on topics %q", topics)
	}
	if g.closed {
		g.fail("after-close", "a session was started after close had returned")
	}
	g.sessions++
	n := g.sessions
	rng := rand.New(rand.NewPCG(g.rng.Uint64(), uint64(n)))
	kind := rng.IntN(6)
	var linger time.Duration
	if rng.IntN(4) == 0 {
		linger = time.Duration(gen.Size(rng, 1, 60_000)) * time.Millisecond
	}
	healthy := g.healthy
	if healthy {
		kind = 5
	}
	if g.failing > 0 {
		g.failing--
		kind = 0
		g.r.Count("sessions that fail in a row", 1)
	}
	g.note("session %d (kind %d)", n, kind)
	g.mu.Unlock()
	g.r.Count("sessions", 1)

	wait := func(d time.Duration) {
		select {
		case <-ctx.Done():
		case <-time.After(d):
		}
	}

	// how a session may fail while the group is alive
	failures := []error{errors.New("the session failed"), sarama.ErrOutOfBrokers, sarama.ErrNotConnected, sarama.ErrIncompleteResponse, sarama.ErrInsufficientData,
		sarama.ErrRebalanceInProgress, sarama.ErrUnknownMemberId, sarama.ErrIllegalGeneration, sarama.ErrNotCoordinatorForConsumer, sarama.ErrConsumerCoordinatorNotAvailable,
		sarama.ErrRequestTimedOut, sarama.ErrUnknownTopicOrPartition, sarama.ErrTopicAuthorizationFailed, sarama.ErrOffsetOutOfRange, sarama.ErrBrokerNotAvailable,
		&sarama.PacketDecodingError{Info: "no packet"}, io.EOF, io.ErrUnexpectedEOF, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")},
		fmt.Errorf("wrapped: %w", sarama.ErrOutOfBrokers)}
	failure := failures[rng.IntN(len(failures))]
	if kind == 0 {
		// not even started
		wait(time.Duration(rng.IntN(500)) * time.Millisecond)
		g.mu.Lock()
		g.failed++
		g.mu.Unlock()
		return failure
	}

	sctx, cancel := context.WithCancel(ctx)
	defer cancel()
	g.mu.Lock()
	g.end = cancel
	if g.healthy != healthy {
		cancel()
	}
	g.mu.Unlock()
	s := &session{g: g, ctx: sctx, n: int32(n), claims: map[string][]int32{}}
	var parts []int32
	for _, p := range g.partitions {
		if healthy || rng.IntN(4) > 0 {
			parts = append(parts, p.number)
		}
	}
	s.claims[topic] = parts
	if err := handler.Setup(s); err != nil {
		return err
	}

	var wg sync.WaitGroup
	for _, part := range parts {
		p := g.partition(part)
		g.mu.Lock()
		c := &claim{part: part, first: p.base + p.committed, ch: make(chan *sarama.ConsumerMessage, rng.IntN(2)*rng.IntN(10))}
		// how far behind we are
		lag := []int64{0, int64(rng.IntN(1000)), rng.Int64N(1 << (10 + rng.IntN(40)))}[rng.IntN(3)]
		c.high.Store(p.base + int64(p.published) + lag)
		p.claims++
		p.lastBegun = p.committed - 1
		g.mu.Unlock()
		left := make(chan struct{})
		stop := 0
		if kind == 1 {
			stop = 1 + rng.IntN(30)
		}
		prng := rand.New(rand.NewPCG(rng.Uint64(), 1))
		wg.Add(2)
		go func() {
			defer wg.Done()
			// a claim that ends ends the session
			defer cancel()
			defer close(left)
			_ = handler.ConsumeClaim(s, c)
		}()
		go func() {
			defer wg.Done()
			defer close(c.ch)
			for o := c.first - p.base; ; {
				g.mu.Lock()
				more := o < int64(p.published)
				g.mu.Unlock()
				if !more {
					select {
					case <-sctx.Done():
						return
					case <-left:
						return
					case <-time.After(50 * time.Millisecond):
					}
					continue
				}
				m := p.log[o]
				c.high.Store(max(c.high.Load(), p.base+o+1))
				select {
				case c.ch <- &sarama.ConsumerMessage{Topic: topic, Partition: part, Offset: p.base + o, Value: append([]byte(nil), m.value...), Key: m.key, Timestamp: m.at, BlockTimestamp: m.at, Headers: m.headers}:
				case <-sctx.Done():
					return
				case <-left:
					return
				}
				o++
				if stop > 0 && o == c.first-p.base+int64(stop) {
					// the broker went away
					cancel()
					return
				}
				if prng.IntN(10) == 0 {
					time.Sleep(time.Duration(prng.IntN(20)) * time.Millisecond)
				}
			}
		}()
	}

	if kind == 2 || kind == 3 {
		// a rebalance or failure after a while
		go func() {
			select {
			case <-sctx.Done():
			case <-time.After(time.Duration(rng.IntN(3000)) * time.Millisecond):
				cancel()
			}
		}()
	}
	<-sctx.Done()
	wg.Wait()
	if linger > 0 {
		// the broker is told that the member leaves, and takes its time
		time.Sleep(linger)
		g.r.Count("sessions that take long to end", 1)
	}
	g.mu.Lock()
	if g.closed {
		g.fail("after-close", "close has returned before the session was over")
	}
	g.mu.Unlock()
	if err := handler.Cleanup(s); err != nil {
		return err
	}
	if kind <= 2 {
		g.mu.Lock()
		g.failed++
		g.mu.Unlock()
		return failure
	}
	return nil
}

const numbered = "message number "

// identity tells the spans apart: most have an id of their own, others a name.
func identity(s proxy.Span) string {
	if strings.HasPrefix(s.Name, numbered) {
		return s.Name
	}
	if n, ok := s.Tags["number"]; ok {
		return "twin " + n
	}
	return s.Id.String()
}

func (g *group) callback(span proxy.Span) {
	g.mu.Lock()
	g.inCallback++
	if g.closed {
		g.fail("after-close", "the callback was called after close had returned")
	}
	at, ok := g.byKey[identity(span)]
	if !ok {
		g.fail("unknown", "a span was handed over that was never sent: %+v", span)
		g.inCallback--
		g.mu.Unlock()
		return
	}
	p := g.partitions[at[0]]
	m := p.log[at[1]]
	g.note("callback %d:%d", at[0], at[1])
	if ref.Canon(span) != ref.Canon(m.span) {
		g.fail("content", "message %d:%d was handed over with other content: %s", at[0], at[1], ref.Diff([]proxy.Span{span}, []proxy.Span{m.span}))
	}
	m.begun++
	if m.begun > 1 {
		g.fail("repeated", "message %d:%d was handed over %d times", at[0], at[1], m.begun)
	}
	if int64(at[1]) <= p.lastBegun {
		g.fail("order", "message %d:%d was handed over after %d", at[0], at[1], p.lastBegun)
	}
	p.lastBegun = int64(at[1])
	delay := g.rng.IntN(20) == 0
	d := time.Duration(1+g.rng.IntN(g.callbackMs)) * time.Millisecond
	g.mu.Unlock()
	if delay {
		time.Sleep(d)
	}
	g.mu.Lock()
	m.handed++
	g.inCallback--
	g.mu.Unlock()
	g.r.Count("callbacks", 1)
}

func (g *group) remaining() (n int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, p := range g.partitions {
		for _, m := range p.log[:p.published] {
			if m.decodable && m.handed == 0 {
				n++
			}
		}
	}
	return n
}

// stamp gives the message what else a broker says about it.
func stamp(rng *rand.Rand, m *message) {
	switch rng.IntN(5) {
	case 0:
		m.key = []byte("k")
	case 1:
		m.key = []byte(gen.Text(rng))
	case 2:
		m.key = binary.BigEndian.AppendUint64(nil, uint64(m.span.Trace))
	case 3:
		m.key = []byte{}
	}
	switch rng.IntN(5) {
	case 0:
		// may be very old
		m.at = time.Unix(rng.Int64N(4e9), rng.Int64N(1e9))
	case 1:
		m.at = time.Unix(0, 0)
	case 2:
		// as it is in the test
		m.at = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(-time.Duration(rng.Int64N(int64(10000 * time.Hour))))
		if d, ok := dict.Get().Duration(rng, time.Second, 10000*time.Hour); ok {
			m.at = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(-d)
		}
	case 3:
		m.at = time.Now()
	}
	if rng.IntN(6) == 0 {
		m.headers = append(m.headers, &sarama.RecordHeader{Key: []byte(gen.Text(rng)), Value: []byte(gen.Text(rng))})
	}
}

func episode(t *testing.T, r *rep.R, seq int) {
	rng := r.Rand("episode", seq)
	coll.Verbose(r, seq)
	g := &group{r: r, rng: r.Rand("group", seq), byKey: map[string][2]int{}, seq: seq, callbackMs: []int{1, 30, 2000}[seq%3]}
	ids := coll.NewIds(rng)
	if seq%5 == 4 {
		g.failing = gen.Size(rng, 10, 1000)
	}
	if seq%7 == 5 {
		g.callbackMs = 100_000
	}
	n := 1 + rng.IntN(6)
	if seq%8 == 6 {
		n = gen.Size(rng, 10, 150)
		r.Count("groups with many partitions", 1)
		r.Distinct("numbers of partitions", uint64(n))
	}
	few := n > 6
	for ; n > 0; n-- {
		p := &partition{number: int32(len(g.partitions))}
		if seq%2 == 1 {
			// of very many
			for p.number = -1; p.number < 0 || g.partition(p.number) != nil; {
				p.number = int32([]int{rng.IntN(12), 64 * rng.IntN(4), rng.IntN(300), 1 << rng.IntN(15), rng.IntN(20_000)}[rng.IntN(5)])
			}
		}
		switch rng.IntN(4) {
		case 0:
			p.base = []int64{1<<31 - 20, 1<<32 - 20, 1<<16 - 20, 1<<53 - 20, 1<<62 - 20}[rng.IntN(5)]
		case 1:
			p.base = rng.Int64N(1 << (1 + rng.IntN(60)))
		}
		k := rng.IntN(120)
		if few {
			k = rng.IntN(5)
		} else if rng.IntN(20) == 0 {
			k = gen.Size(rng, 300, 4000)
			r.Count("long partitions", 1)
		}
		var previous proxy.Span
		bad := 0 // so many undecodable messages follow
		for ; k >= 0; k-- {
			if !few && bad == 0 && rng.IntN(400) == 0 {
				bad = gen.Size(rng, 5, 1000)
				k += bad
				r.Count("runs of undecodable messages", 1)
				r.Distinct("lengths of runs of undecodable messages", uint64(bad))
			}
			s := gen.AnySpan(rng)
			if len(s.Tags) > 20 {
				s.Tags = nil
			}
			s.Id = ids.Next()
			_, twin := previous.Tags["number"]
			if !strings.HasPrefix(previous.Name, numbered) && (rng.IntN(20) == 0 || twin && rng.IntN(2) == 0) {
				// only a tag is different
				n := s.Id.String()
				s = previous
				s.Tags = maps.Clone(s.Tags)
				s.AddTag("number", n)
				r.Count("twins", 1)
			} else if rng.IntN(6) == 0 {
				// like the one before, or any other, or nothing
				s.Name = numbered + s.Id.String()
				switch rng.IntN(6) {
				case 0, 1:
					name := s.Name
					s = previous
					s.Name = name
				case 2:
					s.Id, s.Trace = previous.Id, previous.Trace
				case 3:
					s.Id = 0
				case 4:
					s.Trace = 0
				case 5:
					s = proxy.Span{Name: s.Name}
				}
				r.Count("spans without an id of their own", 1)
			}
			previous = s
			value, _ := avro.Encode(s, rng)
			m := &message{value: value, span: s, decodable: true}
			if bad--; bad >= 0 || rng.IntN(6) == 0 {
				m = &message{value: avro.Garbage(rng, value)}
				r.Count("undecodable messages", 1)
			} else {
				g.byKey[identity(s)] = [2]int{len(g.partitions), len(p.log)}
				r.Count("decodable messages", 1)
			}
			bad = max(bad, 0)
			stamp(rng, m)
			p.log = append(p.log, m)
		}
		if rng.IntN(3) == 0 {
			// ends with something undecodable
			p.log = append(p.log, &message{value: avro.Garbage(rng, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20})})
		}
		p.published = rng.IntN(len(p.log) + 1)
		g.partitions = append(g.partitions, p)
	}

	rep.Bubble(t, func(t *testing.T) {
		closeGroup := balance.Consume(g, topic, g.callback)
		early := seq%4 == 3
		for step := 0; step < 10; step++ {
			time.Sleep(time.Duration(rng.IntN(1500)) * time.Millisecond)
			g.mu.Lock()
			for _, p := range g.partitions {
				p.published = min(len(p.log), p.published+rng.IntN(1+len(p.log)/4))
			}
			g.mu.Unlock()
			if early && step == 5 {
				break
			}
		}
		if !early {
			// all has to arrive eventually, once sessions do not fail any more
			g.mu.Lock()
			g.healthy = true
			if g.end != nil {
				g.end()
			}
			for _, p := range g.partitions {
				p.published = len(p.log)
			}
			g.mu.Unlock()
			for i, last := 0, g.remaining(); i < 4000 && last > 0; i++ {
				time.Sleep(time.Second)
				if n := g.remaining(); n < last {
					// there is progress
					i, last = 0, n
				}
			}
			if n := g.remaining(); n > 0 {
				g.fail("lost", "%d decodable messages were never handed over", n)
			}
		}

		done := make(chan struct{})
		began := time.Now()
		go func() {
			closeGroup()
			g.mu.Lock()
			g.closed = true
			if g.inCallback > 0 {
				g.fail("after-close", "close has returned while the callback is running")
			}
			g.mu.Unlock()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Hour):
			g.mu.Lock()
			g.fail("close", "close did not return within %s", time.Since(began))
			g.mu.Unlock()
			r.Fatal("close", "close did not return", nil)
		}
		time.Sleep(time.Hour)
		g.mu.Lock()
		sessions := g.sessions
		g.mu.Unlock()
		time.Sleep(time.Hour)
		g.mu.Lock()
		defer g.mu.Unlock()
		if g.sessions != sessions {
			g.fail("after-close", "sessions are started after close")
		}
		for _, p := range g.partitions {
			r.Eval(rep.Hash(seq, len(p.log), p.claims, p.committed), p.claims > 1)
			r.Distinct("numbers of claims of a partition", uint64(p.claims))
		}
		r.Count("failed sessions", g.failed)
		if early {
			r.Count("closed while busy", 1)
		}
		if seq == 0 {
			r.Sample(g.notes[:min(len(g.notes), 40)])
		}
	})
}

func Test(t *testing.T) {
	coll.Quiet()
	rep.Run(t, "C12", "a consumer group stand-in with up to 6 partitions feeds messages (any legal Avro layout, or undecodable) to the real consumer in virtual time, ends sessions by failure, rebalance or broken claims, delivers again from the acknowledged offset, and records callbacks and acknowledgements in one history, which is checked for exactly once, order, content, early acknowledgements and activity after close; a case is one partition; non-trivial: claimed more than once", func(r *rep.R) {
		r.WatchCPU(200 * time.Second)
		r.Need("callbacks", 5000)
		r.Need("failed sessions", 100)
		r.Need("undecodable messages", 500)
		r.Need("closed while busy", 10)
		for seq := 0; seq < r.N(120, 2500); seq++ {
			r.Progress(fmt.Sprintf("episode %d", seq))
			episode(t, r, seq)
			if r.Violated() {
				break
			}
		}
	})
}
