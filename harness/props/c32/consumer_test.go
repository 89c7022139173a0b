package c32

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/avro"
	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// group is a consumer group that does not live in peace.
type group struct {
	r        *rep.R
	rng      *rand.Rand
	sessions int
	messages int
	offsets  [4]int64
	us       []usage
	every    int
	most     int
	end      context.CancelFunc
}

func (g *group) Errors() <-chan error { return make(chan error) }
func (g *group) Close() error         { return nil }

type session struct {
	ctx    context.Context
	claims map[string][]int32
	n      int32
}

func (s *session) Claims() map[string][]int32                          { return s.claims }
func (s *session) MemberID() string                                    { return fmt.Sprint("member-", s.n) }
func (s *session) GenerationID() int32                                 { return s.n }
func (s *session) Context() context.Context                            { return s.ctx }
func (s *session) ResetOffset(string, int32, int64, string)            {}
func (s *session) MarkMessage(m *sarama.ConsumerMessage, _ string)     {}
func (s *session) MarkOffset(t string, part int32, o int64, md string) {}

type claim struct {
	topic string
	part  int32
	first int64
	ch    chan *sarama.ConsumerMessage
}

func (c *claim) Topic() string                            { return c.topic }
func (c *claim) Partition() int32                         { return c.part }
func (c *claim) InitialOffset() int64                     { return c.first }
func (c *claim) HighWaterMarkOffset() int64               { return c.first }
func (c *claim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

func (g *group) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	g.sessions++
	if g.sessions%g.every == 0 {
		g.r.Progress(fmt.Sprintf("session %d", g.sessions))
		time.Sleep(8 * time.Hour)
		g.us = append(g.us, measure())
	}
	if g.sessions >= g.most {
		g.end()
		return nil
	}
	time.Sleep(time.Duration(g.rng.IntN(3000)) * time.Millisecond)
	if g.rng.IntN(5) == 0 {
		return []error{sarama.ErrOutOfBrokers, errors.New("dial: connection refused"), sarama.ErrRebalanceInProgress, sarama.ErrUnknownMemberId}[g.rng.IntN(4)]
	}
	sub, cancel := context.WithCancel(ctx)
	defer cancel()
	s := &session{sub, map[string][]int32{}, int32(g.sessions)}
	for part := int32(0); part < 4; part++ {
		if g.rng.IntN(4) > 0 {
			s.claims[topics[0]] = append(s.claims[topics[0]], part)
		}
	}
	if err := handler.Setup(s); err != nil {
		return err
	}
	var wg sync.WaitGroup
	for _, part := range s.claims[topics[0]] {
		c := &claim{topics[0], part, g.offsets[part], make(chan *sarama.ConsumerMessage, g.rng.IntN(64))}
		var values [][]byte
		for k := g.rng.IntN(60); k > 0; k-- {
			span := gen.AnySpan(g.rng)
			span.Service = fmt.Sprintf("%d-%s", g.messages, strings.Repeat("s", g.rng.IntN(200)))
			b, _ := avro.Encode(span, g.rng)
			if g.rng.IntN(3) == 0 {
				b = avro.Garbage(g.rng, b)
			}
			values = append(values, b)
			g.messages++
		}
		first := g.offsets[part]
		g.offsets[part] += int64(len(values))
		go func() {
			for i, value := range values {
				c.ch <- &sarama.ConsumerMessage{Topic: c.topic, Partition: part, Offset: first + int64(i), Value: value, Timestamp: time.Now()}
				time.Sleep(20 * time.Millisecond)
			}
			close(c.ch)
		}()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := handler.ConsumeClaim(s, c); err != nil {
				cancel()
			}
			for range c.ch {
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Duration(g.rng.IntN(3)) * 20 * time.Second)
	cancel()
	return handler.Cleanup(s)
}

// consumer lets one consumer go through very many sessions.
func consumer(r *rep.R, t *testing.T) {
	g := &group{r: r, rng: r.Rand("consumer"), every: r.N(100, 1000), most: r.N(2001, 20001)}
	rep.Bubble(t, func(t *testing.T) {
		ctx, cancel := context.WithCancel(context.Background())
		g.end = cancel
		var spans atomic.Int64
		end := balance.Consume(g, "zipkin-spans", func(proxy.Span) { spans.Add(1) })
		<-ctx.Done()
		end()
		synctest.Wait()
		g.us = append(g.us, measure())
		r.Count("spans consumed", int(spans.Load()))
		r.Count("sessions", g.sessions)
		if growth(r, "the consumer", g.us[2:], fmt.Sprintf("%d messages in %d sessions", g.messages, g.sessions)) {
			// what is left may not end
			r.Finish()
		}
	})
}
