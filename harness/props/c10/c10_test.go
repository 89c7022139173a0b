package c10

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/harness/lib/avro"
	"verif/harness/lib/gen"
	"verif/harness/lib/kafka"
	"verif/harness/lib/ref"
	"verif/harness/lib/rep"
)

const partitions = 12

// message is a message as it passed the partitioner. The encoders stay alive, so that the memory cannot be reused legally.
type message struct {
	topic      string
	key, value sarama.Encoder

	keyBytes, valueBytes []byte // copies
}

type monitor struct {
	r  *rep.R
	mu sync.Mutex

	sent     map[string]proxy.Span
	messages []message
	keys     map[string]proxy.Id
	byTrace  map[proxy.Id]string
}

func encode(e sarama.Encoder) []byte {
	if e == nil {
		return nil
	}
	b, err := e.Encode()
	if err != nil {
		panic(err)
	}
	return b
}

// partitioner records the messages on their way.
type partitioner struct {
	sarama.Partitioner
	m   *monitor
	rng *rand.Rand
}

func (p *partitioner) Partition(msg *sarama.ProducerMessage, n int32) (int32, error) {
	rec := message{topic: msg.Topic, key: msg.Key, value: msg.Value}
	rec.keyBytes, rec.valueBytes = bytes.Clone(encode(msg.Key)), bytes.Clone(encode(msg.Value))
	p.m.mu.Lock()
	p.m.messages = append(p.m.messages, rec)
	// have a look at older messages now and then
	var old []message
	for i := 0; i < 3; i++ {
		old = append(old, p.m.messages[p.rng.IntN(len(p.m.messages))])
	}
	p.m.mu.Unlock()
	for _, o := range old {
		p.m.unchanged(o, "while more messages were made")
	}
	return p.Partitioner.Partition(msg, n)
}

func (m *monitor) unchanged(msg message, when string) {
	m.r.Count("looks at old messages", 1)
	if k := encode(msg.key); !bytes.Equal(k, msg.keyBytes) {
		m.r.Violate("key-changed", "the key of a message changed "+when, map[string]string{
			"before": hex.EncodeToString(msg.keyBytes), "after": hex.EncodeToString(k)})
	}
	if v := encode(msg.value); !bytes.Equal(v, msg.valueBytes) {
		at := 0
		for at < len(v) && at < len(msg.valueBytes) && v[at] == msg.valueBytes[at] {
			at++
		}
		m.r.Violate("value-changed", fmt.Sprintf("the value of a message changed %s, at byte %d", when, at), map[string]string{
			"before": hex.EncodeToString(msg.valueBytes), "after": hex.EncodeToString(v)})
	}
	if msg.key != nil && msg.key.Length() != len(msg.keyBytes) || msg.value != nil && msg.value.Length() != len(msg.valueBytes) {
		m.r.Violate("length", "the length of a message is not that of its bytes", nil)
	}
}

func same(a, b proxy.Span) bool {
	if !maps.Equal(a.Tags, b.Tags) {
		return false
	}
	a.Tags, b.Tags = nil, nil
	return reflect.DeepEqual(a, b)
}

const numbered = "span number "

// identity tells the spans apart: most have an id of their own, others a name or a tag.
func identity(s proxy.Span) string {
	if strings.HasPrefix(s.Name, numbered) {
		return s.Name
	}
	if n, ok := s.Tags[numbered]; ok {
		return "twin " + n
	}
	return s.Id.String()
}

// twin is a span that is the same as another one, but for a tag.
func twin(n proxy.Id, other proxy.Span) proxy.Span {
	s := other
	s.Tags = maps.Clone(s.Tags)
	s.AddTag(numbered, n.String())
	return s
}

// judge looks at the key and value that went out, it returns the id of the span.
func (m *monitor) judge(where, topic, want string, key, value []byte) (id string, ok bool) {
	witness := map[string]string{"topic": topic, "key": hex.EncodeToString(key), "value": hex.EncodeToString(value)}
	if topic != want {
		m.r.Violate("topic", fmt.Sprintf("a message went to topic %q instead of %q (%s)", topic, want, where), witness)
		return "", false
	}
	span, n, err := avro.Decode(value)
	if err != nil || n != len(value) {
		m.r.Violate("value", fmt.Sprintf("the value of a message is not exactly one span (%s): %v, %d of %d bytes used", where, err, n, len(value)), witness)
		return "", false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	sent, known := m.sent[identity(span)]
	if !known {
		m.r.Violate("value", "a message carries a span that nobody sent ("+where+")", witness)
		return "", false
	}
	if same(span, sent) {
	} else if d := ref.Diff([]proxy.Span{span}, []proxy.Span{sent}); d != "" {
		m.r.Violate("value", "a message carries something else than the span ("+where+"): "+d, witness)
		return "", false
	}
	if other, ok := m.byTrace[span.Trace]; ok && other != string(key) {
		m.r.Violate("key", fmt.Sprintf("spans of trace %x have the keys %x and %x (%s)", uint64(span.Trace), other, key, where), witness)
		return "", false
	}
	m.byTrace[span.Trace] = string(key)
	if other, ok := m.keys[string(key)]; ok && other != span.Trace {
		m.r.Violate("key", fmt.Sprintf("the traces %x and %x have the same key %x (%s)", uint64(span.Trace), uint64(other), key, where), witness)
		return "", false
	}
	m.keys[string(key)] = span.Trace
	return identity(span), true
}

// traces are ids that differ in single bytes, in their order of bytes and their sign.
func traces(rng *rand.Rand, n int) (res []proxy.Id) {
	base := rng.Uint64()
	for len(res) < n {
		switch rng.IntN(6) {
		case 0:
			base = rng.Uint64()
			res = append(res, proxy.Id(base))
		case 1, 2:
			res = append(res, proxy.Id(base^(uint64(1+rng.IntN(255))<<(8*rng.IntN(8)))))
		case 3:
			res = append(res, proxy.Id(1+rng.Uint64N(300)))
		case 4:
			res = append(res, proxy.Id((1+rng.Uint64N(300))<<(8*rng.IntN(8))))
		default:
			v := uint64(res0(res, rng))
			res = append(res, proxy.Id(v), proxy.Id(v>>32|v<<32), proxy.Id(^v))
		}
	}
	return res
}

func res0(ids []proxy.Id, rng *rand.Rand) proxy.Id {
	if len(ids) == 0 {
		return 1
	}
	return ids[rng.IntN(len(ids))]
}

func span(rng *rand.Rand, id, trace proxy.Id) (s proxy.Span, size int) {
	s = gen.AnySpan(rng)
	s.Id, s.Trace = id, trace
	if rng.IntN(5) == 0 {
		// ids need not be known or unique
		s.Name = numbered + s.Id.String()
		switch rng.IntN(4) {
		case 0:
			s.Id = 0
		case 1:
			s.Id = 0
			s.Trace = 0
		case 2:
			s.Id = id - 1
		case 3:
			s.Trace = 0
		}
	}
	data, _ := avro.Encode(s, rng)
	target := 0
	switch rng.IntN(40) {
	case 0, 1, 2, 3, 4, 5:
		target = 490 + rng.IntN(50)
	case 6:
		target = 32*1024 - 600 + rng.IntN(1200)
	case 7:
		target = 1000 + rng.IntN(60000)
	case 8:
		if rng.IntN(6) == 0 {
			target = 200_000 + rng.IntN(450_000)
		}
	}
	if n := target - len(data); n > 12 {
		s.AddTag("pad", strings.Repeat(string(rune('a'+rng.IntN(26))), n-8))
		data, _ = avro.Encode(s, rng)
	}
	return s, len(data)
}

func avroBytes(s proxy.Span) []byte {
	data, _ := avro.Encode(s, rand.New(rand.NewPCG(1, 1)))
	return data
}

func content(topic string, key, value []byte) string {
	return topic + "\x00" + string(key) + "\x00" + string(value)
}

func Test(t *testing.T) {
	rep.Run(t, "C10", "spans of all sizes go through several senders and Send loops to a recording broker (race detector); the messages are copied at the partitioner, looked at again while and after more are made, and compared with the records of the broker; distinct by span content, nontrivial if the span has tags", func(r *rep.R) {
		r.WatchCPU(900 * time.Second)
		logrus.SetOutput(io.Discard)
		r.Need("records at the broker", r.N(8000, 100000))
		r.Need("spans larger than the slab chunk", 500)
		r.Need("spans larger than the slab", 20)

		next := proxy.Id(1)
		for round := 0; round < r.N(5, 60); round++ {
			rng := r.Rand("round", round)
			// another monitor per round limits the memory
			m := &monitor{r: r, sent: map[string]proxy.Span{}, keys: map[string]proxy.Id{}, byTrace: map[proxy.Id]string{}}
			topic := []string{"zipkin-spans", "t", "other.topic_1"}[rng.IntN(3)]
			cluster, err := kafka.Start(1+rng.IntN(3), map[string]int32{"zipkin-spans": partitions, "t": 1, "other.topic_1": partitions, "unused": 3})
			if err != nil {
				r.Abort("broker: %v", err)
			}
			// the memory of a sender is used for long if there is just one and no garbage collection
			long := round%3 == 1
			if long {
				debug.SetGCPercent(-1)
				debug.SetMemoryLimit(4 << 30)
			}
			var channels []chan proxy.Span
			var wg sync.WaitGroup
			var clients []sarama.Client
			for s := 0; s < 1+rng.IntN(3) && (!long || s == 0); s++ {
				config := sarama.NewConfig()
				config.Version = sarama.V1_1_1_0
				config.Producer.RequiredAcks = []sarama.RequiredAcks{sarama.NoResponse, sarama.WaitForLocal}[rng.IntN(2)]
				config.Producer.Flush.Frequency = time.Duration(rng.IntN(50)) * time.Millisecond
				config.Producer.MaxMessageBytes = 768 * 1024
				config.ChannelBufferSize = 1 + rng.IntN(64)
				prng := rand.New(rand.NewPCG(rng.Uint64(), 1))
				config.Producer.Partitioner = func(topic string) sarama.Partitioner {
					return &partitioner{sarama.NewHashPartitioner(topic), m, prng}
				}
				client, err := sarama.NewClient(cluster.Addrs(), config)
				if err != nil {
					r.Abort("kafka client: %v", err)
				}
				clients = append(clients, client)
				sender, err := balance.NewSender(client, topic)
				if err != nil {
					r.Fatal("sender", "NewSender failed: "+err.Error(), nil)
				}
				for k := 0; k < 1+rng.IntN(4) && (!long || k == 0); k++ {
					ch := make(chan proxy.Span, rng.IntN(3)*64)
					channels = append(channels, ch)
					wg.Add(1)
					go func() {
						defer wg.Done()
						sender.Send(ch)
					}()
				}
			}
			r.Count("send loops", len(channels))

			ids := traces(rng, 400)
			var feed sync.WaitGroup
			total := 0
			for _, ch := range channels {
				n := 3000 / len(channels)
				total += n
				first := next
				next += proxy.Id(n)
				frng := rand.New(rand.NewPCG(rng.Uint64(), 2))
				feed.Add(1)
				go func() {
					defer feed.Done()
					defer close(ch)
					var previous proxy.Span
					var previousSize int
					for i := 0; i < n; i++ {
						s, size := span(frng, first+proxy.Id(i), ids[frng.IntN(len(ids))])
						if _, ok := previous.Tags[numbered]; i > 0 && !strings.HasPrefix(previous.Name, numbered) && (frng.IntN(20) == 0 || ok && frng.IntN(2) == 0) {
							s = twin(first+proxy.Id(i), previous)
							size = previousSize
							r.Count("twins", 1)
						}
						previous, previousSize = s, size
						kept := ref.Clone(s)
						m.mu.Lock()
						m.sent[identity(s)] = kept
						m.mu.Unlock()
						r.Eval(rep.Hash(avroBytes(s)), len(s.Tags) > 0)
						if size > 512 {
							r.Count("spans larger than the slab chunk", 1)
						}
						if size > 32*1024 {
							r.Count("spans larger than the slab", 1)
						}
						if i == 5 {
							r.Sample(ref.Canon(s))
						}
						ch <- s
						if !long && frng.IntN(600) == 0 {
							runtime.GC()
						}
					}
				}()
			}
			feed.Wait()
			wg.Wait()
			cluster.Wait(40*time.Second, func(records []kafka.Record) bool { return len(records) >= total })
			// anything too much would come now
			time.Sleep(200 * time.Millisecond)
			if p := cluster.Problems(); len(p) > 0 {
				r.Abort("the broker did not understand the client: %v", p)
			}

			// what was made
			seen := map[string]int{}
			made := map[string]string{}
			m.mu.Lock()
			messages := m.messages
			m.mu.Unlock()
			for _, msg := range messages {
				m.unchanged(msg, "after more messages were made")
				if id, ok := m.judge("partitioner", msg.topic, topic, msg.keyBytes, msg.valueBytes); ok {
					seen[id]++
					made[content(msg.topic, msg.keyBytes, msg.valueBytes)] = id
				}
			}
			r.Count("messages", len(messages))
			// what went out
			records := cluster.Records(0)
			arrived := map[string]int{}
			for _, rec := range records {
				// a record with the bytes of a message has been judged already
				if id, ok := made[content(rec.Topic, rec.Key, rec.Value)]; ok {
					arrived[id]++
				} else if id, ok := m.judge("broker", rec.Topic, topic, rec.Key, rec.Value); ok {
					arrived[id]++
				}
				r.Distinct("partitions with records", rep.Hash(rec.Topic, rec.Partition))
			}
			r.Count("records at the broker", len(records))
			for id, s := range m.sent {
				if seen[id] != 1 || arrived[id] != 1 {
					r.Violate("count", fmt.Sprintf("a span was put into %d messages, the broker got it %d times", seen[id], arrived[id]), ref.Canon(s))
				}
			}
			r.Count("distinct keys", len(m.keys))
			for _, c := range clients {
				_ = c.Close()
			}
			for i := 0; i < cluster.Nodes(); i++ {
				cluster.Down(i)
			}
			r.Count("rounds", 1)
			if long {
				r.Count("rounds without garbage collection", 1)
				debug.SetGCPercent(100)
				runtime.GC()
			}
		}
	})
}
