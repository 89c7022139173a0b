package c14

import (
	"container/list"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/cache"

	"verif/harness/lib/gen"
	"verif/harness/lib/rep"
)

// lru is the part of the cache that is used
type lru interface {
	Get(key string) string
	Set(value string)
	Size() int
	Count() int
}

// model is an ordered list, most recently used last.
type model struct {
	order *list.List
	at    map[string]*list.Element
	size  int // without overhead
}

func newModel() *model { return &model{list.New(), map[string]*list.Element{}, 0} }

func (m *model) len() int { return m.order.Len() }

func (m *model) has(key string) bool { return m.at[key] != nil }

func (m *model) use(key string) { m.order.MoveToBack(m.at[key]) }

func (m *model) add(key string) {
	m.at[key] = m.order.PushBack(key)
	m.size += len(key)
}

func (m *model) drop() string {
	key := m.order.Remove(m.order.Front()).(string)
	delete(m.at, key)
	m.size -= len(key)
	return key
}

// keys returns (the oldest of) the keys.
func (m *model) keys(limit int) (res []string) {
	for e := m.order.Front(); e != nil && len(res) < limit; e = e.Next() {
		res = append(res, e.Value.(string))
	}
	return res
}

func history(r *rep.R, seq int, rng *rand.Rand, overhead int, steps int, large bool) {
	max := []int{1, overhead, overhead + 1, 200, 500, 1000, 3000, 10000, 50000}[rng.IntN(9)]
	keyspace := 1 + rng.IntN(400)
	if large {
		max = gen.Size(rng, 100_000, 20_000_000)
		keyspace = 1 + rng.IntN(2*max/(overhead+100))
		r.Count("histories of large caches", 1)
	}
	var c lru = cache.NewLRUCache(max)
	m := newModel()
	evicted := map[string]bool{}

	key := func() string {
		k := rng.IntN(keyspace)
		s := fmt.Sprintf("%d:", k)
		switch k % 4 {
		case 1:
			s += strings.Repeat("x", k%40)
		case 2:
			s += strings.Repeat("y", (k*37)%700)
		case 3:
			// characters of several bytes, or none at all
			s += strings.Repeat([]string{"\u00e9", "\u65e5", "\U0001f600", "\xff", "\u0000", "a\u0301"}[k/4%6], (k*13)%230)
		}
		return s
	}

	var trace []string
	note := func(format string, args ...any) {
		trace = append(trace, fmt.Sprintf(format, args...))
		if len(trace) > 60 {
			trace = trace[1:]
		}
	}
	broken := func(sig, format string, args ...any) bool {
		r.Violate(sig, fmt.Sprintf("limit %d, overhead %d: ", max, overhead)+fmt.Sprintf(format, args...), map[string]any{"history": seq, "lastOperations": trace, "expectedOldestFirst": m.keys(100)})
		return false
	}

	totals := func() bool {
		if want := m.size + m.len()*overhead; c.Count() != m.len() || c.Size() != want {
			return broken("accounting", "count %d and size %d reported, but %d entries with size %d are in the cache", c.Count(), c.Size(), m.len(), want)
		}
		return true
	}

	step := func() bool {
		k := key()
		r.Eval(rep.Hash(seq, m.len(), k), true)
		if rng.IntN(100) < 45 {
			note("get %.20q", k)
			got := c.Get(k)
			if m.has(k) {
				r.Count("hits", 1)
				if got != k {
					return broken("lost", "%.40q is not found, although it was not evicted (got %.40q)", k, got)
				}
				m.use(k)
			} else {
				r.Count("misses", 1)
				if got != "" {
					return broken("phantom", "%.40q is found, but was evicted or never added", got)
				}
			}
			return totals()
		}

		note("set %.20q", k)
		known := m.has(k)
		sizeBefore := c.Size()
		c.Set(k)
		if known {
			r.Count("set of existing key", 1)
			m.use(k)
			return totals()
		}
		r.Count("insertions", 1)
		if evicted[k] {
			r.Count("insertions of evicted keys", 1)
			delete(evicted, k)
		}

		// number of evicted entries
		drop := m.len() + 1 - c.Count()
		if drop < 0 || drop > m.len() {
			return broken("accounting", "count changed from %d to %d by one insertion", m.len(), c.Count())
		}
		size := m.size + m.len()*overhead
		if size != sizeBefore {
			return broken("accounting", "size %d reported, but it is %d", sizeBefore, size)
		}
		for i := 0; i < drop; i++ {
			// is there a need for room, if this one stays?
			if size+len(k)+overhead < max {
				return broken("eager", "an entry was evicted, although size %d plus the new entry %d is below the limit", size, len(k)+overhead)
			}
			old := m.drop()
			size -= len(old) + overhead
			evicted[old] = true
		}
		r.Count("evictions", drop)
		m.add(k)

		if c.Size() >= max+len(k)+overhead {
			return broken("unbounded", "size %d after insertion of an entry of size %d", c.Size(), len(k)+overhead)
		}
		return totals()
	}

	for i := 0; i < steps; i++ {
		if !step() {
			return
		}
		if i%97 == 0 {
			r.Progress("history")
		}
	}

	// everything that is left has to be found
	for _, k := range m.keys(m.len()) {
		if got := c.Get(k); got != k {
			broken("lost", "%.40q is not found at the end, although it was not evicted", k)
			return
		}
	}
	for k := range evicted {
		if got := c.Get(k); got != "" {
			broken("phantom", "%.40q was evicted (as it is the least recently used) but is still found at the end", k)
			return
		}
	}
	if m.len() > 0 {
		r.Distinct("final cache sizes", uint64(m.len()))
	}
	if seq == 5 {
		r.Sample(trace)
	}
}

// veteran keeps a cache of equal entries, a known number of them, for millions of operations.
func veteran(r *rep.R, seq, overhead int) bool {
	rng := r.Rand("veteran", seq)
	capacity := 10 + rng.IntN(3000)
	c := cache.NewLRUCache(capacity * (overhead + 8))
	steps := r.N(3_000_000, 30_000_000)
	keyspace := capacity + 1 + rng.IntN(3*capacity)
	// a ring of the keys that are held, most recently used first. The last one is what is not in the ring.
	head := keyspace
	next, prev, in := make([]int, keyspace+1), make([]int, keyspace+1), make([]bool, keyspace)
	next[head], prev[head] = head, head
	remove := func(k int) { next[prev[k]], prev[next[k]], in[k] = next[k], prev[k], false }
	push := func(k int) {
		next[k], prev[k], in[k] = next[head], head, true
		prev[next[head]], next[head] = k, k
	}
	keys := make([]string, keyspace)
	for k := range keys {
		keys[k] = fmt.Sprintf("%08d", k)
	}
	held := 0
	fail := func(sig, format string, args ...any) bool {
		r.Violate(sig, fmt.Sprintf(format, args...), map[string]any{"history": seq, "capacity": capacity, "keys": keyspace})
		return false
	}
	for i := 0; i < steps; i++ {
		k := rng.IntN(keyspace)
		switch rng.IntN(6) {
		case 0, 1:
			k = k * k / keyspace
		case 2, 3:
			// the one that would be the next to go
			if held > 0 {
				k = prev[head]
			}
		}
		switch got := c.Get(keys[k]); {
		case in[k] && got == "":
			return fail("lost", "step %d: an entry that is held is not found", i)
		case !in[k] && got != "":
			return fail("phantom", "step %d: an entry is found, although one that was used later has been dropped", i)
		case in[k]:
			remove(k)
			push(k)
			continue
		}
		before := c.Count()
		c.Set(keys[k])
		push(k)
		switch n := c.Count(); {
		case n == before+1:
			held++
		case n > before || n == 0:
			return fail("accounting", "step %d: count changed from %d to %d by one insertion", i, before, n)
		default:
			for ; n <= before; n++ {
				remove(prev[head])
				r.Count("evictions seen in long histories", 1)
			}
			held = c.Count()
		}
		r.Count("insertions of long histories", 1)
		if c.Size() != c.Count()*(overhead+8) || c.Count() > capacity {
			return fail("accounting", "step %d: count %d and size %d, room for %d", i, c.Count(), c.Size(), capacity)
		}
		if i%10000 == 0 {
			r.Progress("veteran")
		}
	}
	r.Eval(rep.Hash("veteran", seq), true)
	return true
}

func Test(t *testing.T) {
	rep.Run(t, "C14", "random histories of get and set on caches with limits from one byte to 50 kB, checked step by step against an ordered list; which entries were evicted is inferred from the count and verified by later lookups; a case is one operation in one state", func(r *rep.R) {
		r.WatchCPU(60 * time.Second)
		r.Need("evictions", 5000)
		r.Need("hits", 5000)
		r.Need("misses", 5000)

		// the accounted overhead of one entry
		probe := cache.NewLRUCache(1 << 20)
		probe.Set("x")
		overhead := probe.Size() - 1
		probe.Set("abcdefghij")
		if overhead < 0 || probe.Size() != 2*overhead+11 {
			r.Violate("accounting", fmt.Sprintf("size is not the sum of the entries: %d and %d", overhead+1, probe.Size()), nil)
		}

		for seq := 0; seq < r.N(400, 8000); seq++ {
			history(r, seq, r.Rand("history", seq), overhead, 700, false)
		}
		for seq := 0; seq < r.N(20, 200); seq++ {
			history(r, 100_000+seq, r.Rand("large history", seq), overhead, 150_000, true)
		}

		// a cache that is used for long
		var c lru = cache.NewLRUCache(5 << 20)
		rng := r.Rand("long")
		largest := 0
		for i := 0; i < r.N(300_000, 3_000_000); i++ {
			v := strings.Repeat("v", rng.IntN(300)) + fmt.Sprint(rng.IntN(1_000_000))
			c.Set(v)
			if c.Size() > largest {
				largest = c.Size()
			}
			// no entry is larger than this
			if c.Size() >= 5<<20+306+overhead {
				r.Violate("unbounded", fmt.Sprintf("size %d after %d insertions", c.Size(), i), nil)
				break
			}
			if c.Get(v) != v {
				r.Violate("lost", "the latest entry is not found", v)
				break
			}
			r.Progress("long")
		}
		r.Count("largest size of the 5 MB cache", largest)

		// and small ones that are used for even longer
		for seq := 0; seq < r.N(3, 10); seq++ {
			if !veteran(r, seq, overhead) {
				break
			}
		}
	})
}
