// Package kafka is a small kafka cluster on the loopback network. It records what it is sent, can be made to fail
// and coordinates consumer groups.
package kafka

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"
)

// Record is a record as the cluster got it.
type Record struct {
	Topic     string
	Partition int32
	Offset    int64
	KV
	At time.Time
}

type Mode int

const (
	OK     Mode = iota
	Refuse      // produce requests are answered with an error and not stored
	Close       // the connection is closed on a produce request, nothing is stored
	Silent      // produce requests are never answered, nothing is stored
)

type batch struct {
	base  int64
	count int
	raw   []byte
}

type partition struct {
	batches []batch
	next    int64
}

type topic struct {
	partitions []*partition
}

// Spec is a request to create a topic.
type Spec struct {
	Name        string
	Partitions  int32
	Replication int16
	Config      map[string]string
}

// Cluster is a set of brokers that share their state.
type Cluster struct {
	nodes []*node

	mu      sync.Mutex
	cond    *sync.Cond
	virtual *Virtual
	topics  map[string]*topic
	groups  map[string]*group
	readers map[place]map[<-chan struct{}]bool // connections by what they fetch
	records []Record
	mode    Mode
	code    int16
	maxSize int

	Unsupported []string // requests that could not be understood
	Created     []string
	Asked       []Spec // topics that somebody wanted to be created
	Conns       int
	Requests    map[string]int
	Refused     int // records
}

type node struct {
	c        *Cluster
	id       int32
	port     int
	mu       sync.Mutex
	listener net.Listener
	conns    map[net.Conn]bool
}

// Start starts a cluster of n brokers, topics has the numbers of partitions.
func Start(n int, topics map[string]int32) (*Cluster, error) {
	return start(nil, n, topics)
}

func start(v *Virtual, n int, topics map[string]int32) (*Cluster, error) {
	c := &Cluster{virtual: v, topics: map[string]*topic{}, groups: map[string]*group{}, readers: map[place]map[<-chan struct{}]bool{}, Requests: map[string]int{}}
	c.cond = sync.NewCond(&c.mu)
	for name, parts := range topics {
		c.create(name, parts)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := 0; i < n; i++ {
		nd := &node{c: c, id: int32(i + 1), conns: map[net.Conn]bool{}}
		if err := nd.up(); err != nil {
			return nil, err
		}
		c.nodes = append(c.nodes, nd)
	}
	pause := 20 * time.Millisecond
	if v != nil {
		pause = time.Second
	}
	go func() {
		// waiting requests look at the clock now and then
		for {
			time.Sleep(pause)
			c.cond.Broadcast()
		}
	}()
	return c, nil
}

func (c *Cluster) create(name string, partitions int32) {
	t := &topic{}
	for i := int32(0); i < partitions; i++ {
		t.partitions = append(t.partitions, &partition{})
	}
	c.topics[name] = t
}

func (c *Cluster) Addrs() (res []string) {
	for _, n := range c.nodes {
		res = append(res, fmt.Sprintf("127.0.0.1:%d", n.port))
	}
	return res
}

// Set makes the brokers fail, code is the error code for Refuse.
func (c *Cluster) Set(m Mode, code int16) {
	c.mu.Lock()
	c.mode, c.code = m, code
	c.mu.Unlock()
	c.cond.Broadcast()
}

// Limit makes the brokers refuse larger values, with the error that kafka has for it.
func (c *Cluster) Limit(size int) {
	c.mu.Lock()
	c.maxSize = size
	c.mu.Unlock()
}

// Down closes the port and all connections of a broker.
func (c *Cluster) Down(n int) {
	nd := c.nodes[n]
	nd.mu.Lock()
	defer nd.mu.Unlock()
	if nd.listener != nil {
		nd.listener.Close()
		nd.listener = nil
	}
	for conn := range nd.conns {
		conn.Close()
	}
}

// Drop closes the connections of a broker.
func (c *Cluster) Drop(n int) {
	nd := c.nodes[n]
	nd.mu.Lock()
	defer nd.mu.Unlock()
	for conn := range nd.conns {
		conn.Close()
	}
}

func (c *Cluster) Up(n int) error {
	var err error
	for i := 0; i < 100; i++ {
		if err = c.nodes[n].up(); err == nil {
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return err
}

func (c *Cluster) Nodes() int { return len(c.nodes) }

// Records returns what was stored from the position on, in the order of arrival.
func (c *Cluster) Records(from int) []Record {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Record{}, c.records[min(from, len(c.records)):]...)
}

// Counts returns the number of connections accepted, the requests and the refused records.
func (c *Cluster) Counts() (conns int, requests map[string]int, refused int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	requests = map[string]int{}
	for k, v := range c.Requests {
		requests[k] = v
	}
	return c.Conns, requests, c.Refused
}

// Problems returns requests that were not understood.
func (c *Cluster) Problems() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.Unsupported...)
}

// Specs returns the topics that somebody wanted to be created, and those that were.
func (c *Cluster) Specs() (asked []Spec, created []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Spec{}, c.Asked...), append([]string{}, c.Created...)
}

// Readers returns how many connections have fetched every partition of a topic.
func (c *Cluster) Readers(topicName string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.topics[topicName]
	if t == nil {
		return 0
	}
	res := -1
	for i := range t.partitions {
		if n := len(c.readers[place{topicName, int32(i)}]); res < 0 || n < res {
			res = n
		}
	}
	return res
}

// Topics returns the names of the topics that somebody has fetched.
func (c *Cluster) Topics() (res []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	seen := map[string]bool{}
	for p := range c.readers {
		if !seen[p.topic] {
			seen[p.topic] = true
			res = append(res, p.topic)
		}
	}
	return res
}

// Partitions returns the number of partitions of a topic, 0 if it does not exist.
func (c *Cluster) Partitions(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.topics[name]; t != nil {
		return len(t.partitions)
	}
	return 0
}

// Inject appends records to a partition, these are not among the Records.
func (c *Cluster) Inject(name string, part int, kvs []KV) {
	c.mu.Lock()
	p := c.topics[name].partitions[part]
	p.append(encodeBatch(kvs), len(kvs))
	c.mu.Unlock()
	c.cond.Broadcast()
}

// Wait waits until the condition holds, which is called with the lock held.
func (c *Cluster) Wait(limit time.Duration, cond func(records []Record) bool) bool {
	deadline := time.Now().Add(limit)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !cond(c.records) {
		if time.Now().After(deadline) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (p *partition) append(raw []byte, n int) {
	binary.BigEndian.PutUint64(raw, uint64(p.next))
	p.batches = append(p.batches, batch{p.next, n, raw})
	p.next += int64(n)
}

// Virtual is a network without sockets, it works within a bubble of virtual time.
type Virtual struct {
	mu        sync.Mutex
	listeners map[string]*pipes
}

type pipes struct {
	v    *Virtual
	port int
	ch   chan net.Conn
	down chan struct{}
	once sync.Once
}

// StartVirtual starts a cluster within a bubble, clients have to use Dial.
func StartVirtual(n int, topics map[string]int32) (*Cluster, *Virtual, error) {
	v := &Virtual{listeners: map[string]*pipes{}}
	c, err := start(v, n, topics)
	return c, v, err
}

// listen opens a port, of the machine if there is no virtual network
func (v *Virtual) listen(network, addr string) (net.Listener, error) {
	if v == nil {
		return net.Listen(network, addr)
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	l := &pipes{v: v, ch: make(chan net.Conn), down: make(chan struct{})}
	host, port, _ := net.SplitHostPort(addr)
	l.port, _ = strconv.Atoi(port)
	if l.port == 0 {
		l.port = 9092 + len(v.listeners)
	}
	v.listeners[net.JoinHostPort(host, strconv.Itoa(l.port))] = l
	return l, nil
}

func (l *pipes) Accept() (net.Conn, error) {
	select {
	case conn := <-l.ch:
		return conn, nil
	case <-l.down:
		return nil, net.ErrClosed
	}
}

func (l *pipes) Close() error {
	l.once.Do(func() { close(l.down) })
	return nil
}

func (l *pipes) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: l.port} }

// Dial connects to a broker.
func (v *Virtual) Dial(network, addr string) (net.Conn, error) {
	refused := &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	v.mu.Lock()
	l := v.listeners[addr]
	v.mu.Unlock()
	if l == nil {
		return nil, refused
	}
	a, b := net.Pipe()
	select {
	case l.ch <- a:
		return b, nil
	case <-l.down:
		return nil, refused
	}
}

func (n *node) up() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	l, err := n.c.virtual.listen("tcp", fmt.Sprintf("127.0.0.1:%d", n.port))
	if err != nil {
		return err
	}
	n.listener = l
	if n.port == 0 {
		n.port = l.Addr().(*net.TCPAddr).Port
	}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			n.mu.Lock()
			if n.listener != l {
				conn.Close()
			} else {
				n.conns[conn] = true
			}
			n.mu.Unlock()
			n.c.mu.Lock()
			n.c.Conns++
			n.c.mu.Unlock()
			go n.serve(conn)
		}
	}()
	return nil
}

// errors
const (
	errUnknownTopic      = 3
	errTooLarge          = 10
	errIllegalGeneration = 22
	errUnknownMember     = 25
	errRebalance         = 27
	errTopicExists       = 36
)

// serve handles the requests of a connection one after the other, like a real broker.
func (n *node) serve(conn net.Conn) {
	c := n.c
	mine := map[*member]bool{}
	gone := make(chan struct{})
	defer func() {
		conn.Close()
		n.mu.Lock()
		delete(n.conns, conn)
		n.mu.Unlock()
	}()

	// requests are read ahead, so that a lost connection is seen while a request waits
	type request struct{ data []byte }
	requests := make(chan request, 1024)
	go func() {
		defer close(requests)
		defer close(gone)
		for {
			var size [4]byte
			if _, err := io.ReadFull(conn, size[:]); err != nil {
				return
			}
			l := binary.BigEndian.Uint32(size[:])
			if l > 200<<20 {
				return
			}
			data := make([]byte, l)
			if _, err := io.ReadFull(conn, data); err != nil {
				return
			}
			requests <- request{data}
		}
	}()
	// whoever is behind a closed connection is not a member any more
	defer func() {
		c.mu.Lock()
		for m := range mine {
			m.group.remove(m)
		}
		for _, conns := range c.readers {
			delete(conns, gone)
		}
		c.mu.Unlock()
		c.cond.Broadcast()
	}()

	for req := range requests {
		r := &reader{req.data}
		answer, ok := n.handle(r, mine, gone)
		if !ok {
			return
		}
		if answer == nil {
			continue
		}
		var out writer
		out.i32(int32(len(answer)))
		out.b = append(out.b, answer...)
		if _, err := conn.Write(out.b); err != nil {
			return
		}
	}
}

var names = map[int16]string{0: "Produce", 1: "Fetch", 2: "ListOffsets", 3: "Metadata", 8: "OffsetCommit", 9: "OffsetFetch",
	10: "FindCoordinator", 11: "JoinGroup", 12: "Heartbeat", 13: "LeaveGroup", 14: "SyncGroup", 19: "CreateTopics"}

func (n *node) handle(r *reader, mine map[*member]bool, gone <-chan struct{}) (answer []byte, ok bool) {
	c := n.c
	var what string
	defer func() {
		if x := recover(); x != nil {
			p, isProtocol := x.(protocolError)
			if !isProtocol {
				panic(x)
			}
			c.mu.Lock()
			c.Unsupported = append(c.Unsupported, what+": "+string(p))
			c.mu.Unlock()
			answer, ok = nil, false
		}
	}()
	key, version, correlation := r.i16(), r.i16(), r.i32()
	_ = r.str()
	name := names[key]
	what = fmt.Sprintf("request %d (%s) version %d", key, name, version)
	w := &writer{}
	w.i32(correlation)

	supports := func(from, to int16) {
		if version < from || version > to {
			panic(protocolError("unsupported version"))
		}
	}

	c.mu.Lock()
	c.Requests[name]++
	locked := true
	unlock := func() {
		if locked {
			locked = false
			c.mu.Unlock()
		}
	}
	defer unlock()

	// wait sleeps until the condition holds, the time is over or the connection is lost
	wait := func(limit time.Duration, cond func() bool) {
		deadline := time.Now().Add(limit)
		for !cond() && time.Now().Before(deadline) {
			select {
			case <-gone:
				return
			default:
			}
			c.cond.Wait()
		}
	}
	// the lock has to be free when a protocol error is reported
	defer func() {
		if x := recover(); x != nil {
			unlock()
			panic(x)
		}
	}()

	switch name {
	case "Metadata":
		supports(1, 5)
		var topics []string
		all := r.each(func() { topics = append(topics, r.str()) }) < 0
		if all {
			for name := range c.topics {
				topics = append(topics, name)
			}
			sort.Strings(topics)
		}
		if version >= 3 {
			w.i32(0)
		}
		w.i32(int32(len(c.nodes)))
		for _, nd := range c.nodes {
			w.i32(nd.id)
			w.str("127.0.0.1")
			w.i32(int32(nd.port))
			w.null()
		}
		if version >= 2 {
			w.str("the-cluster")
		}
		w.i32(c.nodes[0].id)
		w.i32(int32(len(topics)))
		for _, name := range topics {
			t := c.topics[name]
			if t == nil {
				w.i16(errUnknownTopic)
				w.str(name)
				w.i8(0)
				w.i32(0)
				continue
			}
			w.i16(0)
			w.str(name)
			w.i8(0)
			w.i32(int32(len(t.partitions)))
			for p := range t.partitions {
				leader := c.nodes[p%len(c.nodes)].id
				w.i16(0)
				w.i32(int32(p))
				w.i32(leader)
				w.i32(1)
				w.i32(leader)
				w.i32(1)
				w.i32(leader)
				if version >= 5 {
					w.i32(0)
				}
			}
		}

	case "CreateTopics":
		supports(1, 2)
		type result struct {
			name string
			code int16
		}
		var results []result
		var specs []Spec
		r.each(func() {
			s := Spec{Name: r.str(), Partitions: r.i32(), Config: map[string]string{}}
			s.Replication = r.i16()
			r.each(func() { r.i32(); r.each(func() { r.i32() }) })
			r.each(func() { k := r.str(); s.Config[k] = r.str() })
			specs = append(specs, s)
		})
		r.i32()
		validate := r.i8() != 0
		for _, s := range specs {
			code := int16(0)
			if c.topics[s.Name] != nil {
				code = errTopicExists
			} else if !validate {
				c.create(s.Name, s.Partitions)
				c.Created = append(c.Created, fmt.Sprintf("%s:%d", s.Name, s.Partitions))
			}
			c.Asked = append(c.Asked, s)
			results = append(results, result{s.Name, code})
		}
		if version >= 2 {
			w.i32(0)
		}
		w.i32(int32(len(results)))
		for _, res := range results {
			w.str(res.name)
			w.i16(res.code)
			w.null()
		}

	case "Produce":
		supports(3, 3)
		_ = r.str()
		acks := r.i16()
		r.i32()
		switch c.mode {
		case Close:
			return nil, false
		case Silent:
			// the connection is of no use any more
			wait(time.Hour, func() bool { return c.mode != Silent })
			return nil, false
		}
		type result struct {
			topic  string
			part   int32
			code   int16
			offset int64
		}
		var results []result
		r.each(func() {
			name := r.str()
			r.each(func() {
				part := r.i32()
				data := r.bytes()
				res := result{topic: name, part: part}
				t := c.topics[name]
				if t == nil || part < 0 || int(part) >= len(t.partitions) {
					res.code = errUnknownTopic
					results = append(results, res)
					return
				}
				p := t.partitions[part]
				res.offset = p.next
				for len(data) > 0 {
					kvs, raw, rest, err := decodeBatch(data)
					if err != nil {
						panic(protocolError(err.Error()))
					}
					data = rest
					large := false
					for _, kv := range kvs {
						large = large || c.maxSize > 0 && len(kv.Value) > c.maxSize
					}
					if c.mode == Refuse || large {
						res.code = errTooLarge
						if c.mode == Refuse {
							res.code = c.code
						}
						c.Refused += len(kvs)
						continue
					}
					first := p.next
					p.append(raw, len(kvs))
					for i, kv := range kvs {
						c.records = append(c.records, Record{name, part, first + int64(i), kv, time.Now()})
					}
				}
				results = append(results, res)
			})
		})
		c.cond.Broadcast()
		if acks == 0 {
			for _, res := range results {
				if res.code != 0 {
					// that is how a broker reports errors to a producer that does not want answers
					return nil, false
				}
			}
			return nil, true
		}
		var out parts
		for _, res := range results {
			o := out.of(res.topic, res.part)
			o.i16(res.code)
			o.i64(res.offset)
			o.i64(-1)
		}
		out.write(w)
		w.i32(0)

	case "ListOffsets":
		supports(1, 1)
		r.i32()
		var out parts
		r.each(func() {
			name := r.str()
			r.each(func() {
				part, at := r.i32(), r.i64()
				out := out.of(name, part)
				t := c.topics[name]
				if t == nil || int(part) >= len(t.partitions) {
					out.i16(errUnknownTopic)
					out.i64(-1)
					out.i64(-1)
					return
				}
				out.i16(0)
				out.i64(-1)
				if at == -2 {
					out.i64(0)
				} else {
					out.i64(t.partitions[part].next)
				}
			})
		})
		out.write(w)

	case "Fetch":
		supports(4, 4)
		r.i32()
		maxWait, minBytes, maxBytes := r.i32(), r.i32(), r.i32()
		r.i8()
		type want struct {
			topic  string
			part   int32
			offset int64
			max    int32
		}
		var wants []want
		r.each(func() {
			name := r.str()
			r.each(func() {
				wants = append(wants, want{name, r.i32(), r.i64(), r.i32()})
			})
		})
		for _, x := range wants {
			at := place{x.topic, x.part}
			if c.readers[at] == nil {
				c.readers[at] = map[<-chan struct{}]bool{}
			}
			c.readers[at][gone] = true
			for _, g := range c.groups {
				if g.state == stable {
					g.fetches[place{x.topic, x.part}] = true
				}
			}
		}
		available := func() (n int) {
			for _, x := range wants {
				if t := c.topics[x.topic]; t != nil && int(x.part) < len(t.partitions) {
					for _, b := range t.partitions[x.part].batches {
						if b.base+int64(b.count) > x.offset {
							n += len(b.raw)
						}
					}
				}
			}
			return n
		}
		wait(time.Duration(maxWait)*time.Millisecond, func() bool { return available() >= int(max(1, minBytes)) })
		w.i32(0)
		total := 0
		var out parts
		for _, x := range wants {
			w := out.of(x.topic, x.part)
			t := c.topics[x.topic]
			if t == nil || int(x.part) >= len(t.partitions) {
				w.i16(errUnknownTopic)
				w.i64(-1)
				w.i64(-1)
				w.i32(0)
				w.i32(0)
				continue
			}
			p := t.partitions[x.part]
			var data []byte
			for _, b := range p.batches {
				if b.base+int64(b.count) <= x.offset {
					continue
				}
				if len(data) > 0 && len(data)+len(b.raw) > int(x.max) || total > 0 && total+len(b.raw) > int(maxBytes) {
					break
				}
				data = append(data, b.raw...)
				total += len(b.raw)
			}
			w.i16(0)
			w.i64(p.next)
			w.i64(p.next)
			w.i32(0)
			w.bytes(data)
		}
		out.write(w)

	case "FindCoordinator":
		supports(0, 1)
		_ = r.str()
		if version >= 1 {
			w.i32(0)
		}
		w.i16(0)
		if version >= 1 {
			w.null()
		}
		w.i32(c.nodes[0].id)
		w.str("127.0.0.1")
		w.i32(int32(c.nodes[0].port))

	case "JoinGroup":
		supports(0, 2)
		g := c.group(r.str())
		r.i32()
		timeout := 30 * time.Second
		if version >= 1 {
			timeout = time.Duration(r.i32()) * time.Millisecond
		}
		id := r.str()
		_ = r.str()
		var protocols []protocol
		r.each(func() { protocols = append(protocols, protocol{r.str(), r.bytes()}) })

		if version >= 2 {
			w.i32(0)
		}
		m := g.members[id]
		if id != "" && m == nil {
			w.i16(errUnknownMember)
			w.i32(-1)
			w.str("")
			w.str("")
			w.str(id)
			w.i32(0)
			break
		}
		if m == nil {
			g.seq++
			m = &member{id: fmt.Sprintf("member-%d", g.seq), group: g}
			g.members[m.id] = m
		}
		mine[m] = true
		m.protocols = protocols
		g.join(m)
		c.cond.Broadcast()
		generation := g.generation
		wait(timeout, func() bool { return g.generation > generation || g.members[m.id] != m || g.complete() })
		select {
		case <-gone:
			return nil, false
		default:
		}
		if g.generation == generation && g.members[m.id] == m {
			// who did not join in time is out
			for _, other := range g.members {
				if !other.joined {
					g.drop(other)
				}
			}
			g.next()
			c.cond.Broadcast()
		}
		if g.members[m.id] != m {
			w.i16(errUnknownMember)
			w.i32(-1)
			w.str("")
			w.str("")
			w.str(m.id)
			w.i32(0)
			break
		}
		w.i16(0)
		w.i32(g.generation)
		w.str(g.protocol)
		w.str(g.leader)
		w.str(m.id)
		if g.leader == m.id {
			ids := g.ids()
			w.i32(int32(len(ids)))
			for _, id := range ids {
				w.str(id)
				var meta []byte
				for _, p := range g.members[id].protocols {
					if p.name == g.protocol {
						meta = p.meta
					}
				}
				w.bytes(meta)
			}
		} else {
			w.i32(0)
		}

	case "SyncGroup":
		supports(0, 1)
		g := c.group(r.str())
		generation, id := r.i32(), r.str()
		assignments := map[string][]byte{}
		r.each(func() { k := r.str(); assignments[k] = r.bytes() })
		if version >= 1 {
			w.i32(0)
		}
		m := g.members[id]
		code := int16(0)
		switch {
		case m == nil:
			code = errUnknownMember
		case generation != g.generation:
			code = errIllegalGeneration
		case g.state == preparing:
			code = errRebalance
		default:
			if g.leader == id && g.state == syncing {
				g.assignments = assignments
				g.state = stable
				c.cond.Broadcast()
			}
			wait(30*time.Second, func() bool {
				return g.generation != generation || g.state != syncing || g.members[id] != m
			})
			if g.generation != generation || g.state != stable || g.members[id] != m {
				code = errRebalance
			}
		}
		w.i16(code)
		if code == 0 {
			w.bytes(g.assignments[id])
		} else {
			w.i32(0)
		}

	case "Heartbeat":
		supports(0, 1)
		g := c.group(r.str())
		generation, id := r.i32(), r.str()
		if version >= 1 {
			w.i32(0)
		}
		switch {
		case g.members[id] == nil:
			w.i16(errUnknownMember)
		case g.state == preparing:
			w.i16(errRebalance)
		case generation != g.generation:
			w.i16(errIllegalGeneration)
		default:
			w.i16(0)
		}

	case "LeaveGroup":
		supports(0, 1)
		g := c.group(r.str())
		m := g.members[r.str()]
		if version >= 1 {
			w.i32(0)
		}
		if m == nil {
			w.i16(errUnknownMember)
			break
		}
		g.remove(m)
		c.cond.Broadcast()
		w.i16(0)

	case "OffsetFetch":
		supports(1, 1)
		g := c.group(r.str())
		var out parts
		r.each(func() {
			name := r.str()
			r.each(func() {
				part := r.i32()
				out := out.of(name, part)
				if o, ok := g.offsets[place{name, part}]; ok {
					out.i64(o)
				} else {
					out.i64(-1)
				}
				out.str("")
				out.i16(0)
			})
		})
		out.write(w)

	case "OffsetCommit":
		supports(1, 4)
		g := c.group(r.str())
		generation, id := r.i32(), r.str()
		if version >= 2 {
			r.i64()
		}
		code := int16(0)
		if g.members[id] == nil {
			code = errUnknownMember
		} else if generation != g.generation {
			code = errIllegalGeneration
		}
		if version >= 3 {
			w.i32(0)
		}
		var out parts
		r.each(func() {
			name := r.str()
			r.each(func() {
				part, offset := r.i32(), r.i64()
				if version == 1 {
					r.i64()
				}
				_ = r.str()
				out := out.of(name, part)
				out.i16(code)
				if code == 0 {
					g.offsets[place{name, part}] = offset
				}
			})
		})
		out.write(w)

	default:
		panic(protocolError("unknown request"))
	}
	return w.b, true
}
