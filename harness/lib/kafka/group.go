package kafka

import (
	"sort"
	"time"
)

type protocol struct {
	name string
	meta []byte
}

type place struct {
	topic string
	part  int32
}

const (
	empty = iota
	preparing
	syncing
	stable
)

type member struct {
	id        string
	group     *group
	protocols []protocol
	joined    bool // in the generation that is being prepared
}

// group is a consumer group, guarded by the lock of the cluster.
type group struct {
	members     map[string]*member
	state       int
	generation  int32
	protocol    string
	leader      string
	assignments map[string][]byte
	offsets     map[place]int64
	seq         int
	begun       time.Time      // of the preparation
	fetches     map[place]bool // partitions that were fetched since this generation is stable
}

func (c *Cluster) group(name string) *group {
	g := c.groups[name]
	if g == nil {
		g = &group{members: map[string]*member{}, offsets: map[place]int64{}, fetches: map[place]bool{}}
		c.groups[name] = g
	}
	return g
}

func (g *group) ids() (res []string) {
	for id := range g.members {
		res = append(res, id)
	}
	sort.Strings(res)
	return res
}

func (g *group) prepare() {
	if g.state == preparing {
		return
	}
	g.state = preparing
	g.begun = time.Now()
	for _, m := range g.members {
		m.joined = false
	}
}

func (g *group) join(m *member) {
	g.prepare()
	m.joined = true
}

// complete finishes the preparation if everybody is there.
func (g *group) complete() bool {
	if g.state != preparing || time.Since(g.begun) < 300*time.Millisecond {
		return false
	}
	for _, m := range g.members {
		if !m.joined {
			return false
		}
	}
	g.next()
	return true
}

func (g *group) next() {
	g.generation++
	g.state = syncing
	g.assignments = nil
	g.fetches = map[place]bool{}
	ids := g.ids()
	if len(ids) == 0 {
		g.state = empty
		return
	}
	if g.members[g.leader] == nil {
		g.leader = ids[0]
	}
	g.protocol = g.members[g.leader].protocols[0].name
}

func (g *group) drop(m *member) { delete(g.members, m.id) }

func (g *group) remove(m *member) {
	if g.members[m.id] != m {
		return
	}
	g.drop(m)
	if len(g.members) == 0 {
		g.state = empty
		return
	}
	g.prepare()
}

// Stable says if the group has that many members, and all partitions of the topic are being fetched since that is so.
func (c *Cluster) Stable(name, topicName string, members int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	g, t := c.groups[name], c.topics[topicName]
	if g == nil || t == nil || g.state != stable || len(g.members) != members {
		return false
	}
	for p := range t.partitions {
		if !g.fetches[place{topicName, int32(p)}] {
			return false
		}
	}
	return true
}

// Generation returns the number of the current generation of a group.
func (c *Cluster) Generation(name string) int32 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.group(name).generation
}

// Offset returns the committed offset of a partition, -1 if there is none.
func (c *Cluster) Offset(name, topicName string, part int32) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	if o, ok := c.group(name).offsets[place{topicName, part}]; ok {
		return o
	}
	return -1
}

// Groups returns the numbers of members of the groups that anybody has asked for.
func (c *Cluster) Groups() map[string]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := map[string]int{}
	for name, g := range c.groups {
		res[name] = len(g.members)
		if g.state != stable {
			res[name] = 0
		}
	}
	return res
}
