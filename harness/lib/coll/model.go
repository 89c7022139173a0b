package coll

import (
	"fmt"
	"maps"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

const Y2020 = proxy.Timestamp(1577836800_000_000_000)

// Candidates returns the root candidates among the spans, which must have distinct ids.
func Candidates(spans map[proxy.Id]proxy.Span) (res []proxy.Span) {
	for _, s := range spans {
		if _, ok := spans[s.Parent]; s.Parent == s.Id || !ok {
			res = append(res, s)
		}
	}
	return res
}

type Kind int

const (
	NoRoot Kind = iota
	UniqueRoot
	SharedParent
)

func (k Kind) String() string {
	return [...]string{"no root", "unique root", "shared missing parent"}[k]
}

// Classify says if and why the trace is to be emitted.
func Classify(spans map[proxy.Id]proxy.Span) (Kind, []proxy.Span) {
	c := Candidates(spans)
	if len(c) == 1 {
		return UniqueRoot, c
	}
	if len(c) == 0 {
		return NoRoot, c
	}
	for _, s := range c[1:] {
		if s.Parent != c[0].Parent {
			return NoRoot, c
		}
	}
	return SharedParent, c
}

// Times2 has times in half nanoseconds, so that midpoints are exact.
type Times2 struct {
	Start2 int64
	Dur    time.Duration
	Depth  int
	// takes the start of this span
	FromParent bool
	Parent     proxy.Id
	// start before it was taken from the parent, and if roundings could make a difference to it
	Own2    int64
	Rounded bool
}

// Correct is the reference of the clock skew correction. Spans that are not reachable from the root keep their times.
func Correct(spans map[proxy.Id]proxy.Span, root proxy.Id) map[proxy.Id]Times2 {
	children := map[proxy.Id][]proxy.Id{}
	res := map[proxy.Id]Times2{}
	for _, s := range spans {
		res[s.Id] = Times2{Start2: 2 * int64(s.Timestamp), Dur: s.Duration, Depth: -1}
		if s.Id != s.Parent && s.Id != root {
			children[s.Parent] = append(children[s.Parent], s.Id)
		}
	}
	type item struct {
		id      proxy.Id
		offset2 int64
		depth   int
		rounded bool
	}
	for todo := []item{{root, 0, 0, false}}; len(todo) > 0; {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		s := spans[it.id]
		t := Times2{Start2: 2*int64(s.Timestamp) + it.offset2, Dur: s.Duration, Depth: it.depth, Rounded: it.rounded}
		offset2, rounded := it.offset2, it.rounded
		if c := s.Timings; c.CS != 0 && c.CR != 0 && c.SS != 0 && c.SR != 0 {
			t.Start2 = 2*int64(c.CS) + it.offset2
			t.Dur = time.Duration(c.CR - c.CS)
			offset2 += int64(c.CS+c.CR) - int64(c.SS+c.SR)
			rounded = rounded || (c.CS+c.CR)%2 != 0 || (c.SS+c.SR)%2 != 0
		}
		t.Own2 = t.Start2
		if it.depth > 0 && t.Start2 < 2*int64(Y2020) {
			t.FromParent, t.Parent = true, s.Parent
			t.Start2 = res[s.Parent].Start2
		}
		res[it.id] = t
		for _, c := range children[it.id] {
			todo = append(todo, item{c, offset2, it.depth + 1, rounded})
		}
	}
	return res
}

// NearBoundary says if rounding could decide about the year of some span.
func NearBoundary(times map[proxy.Id]Times2) bool {
	for _, t := range times {
		slack := 2 * int64(t.Depth+3)
		if d := t.Own2 - 2*int64(Y2020); t.Rounded && d > -slack && d < slack {
			return true
		}
	}
	return false
}

// Index maps the spans by id, and reports ids that occur more than once.
func Index(trace proxy.Trace) (map[proxy.Id]proxy.Span, string) {
	res := map[proxy.Id]proxy.Span{}
	for _, s := range trace {
		if _, ok := res[s.Id]; ok {
			return res, fmt.Sprintf("span %s is in the trace twice", s.Id)
		}
		res[s.Id] = s
	}
	return res, ""
}

// SameFields compares everything but the times.
func SameFields(got, want proxy.Span) string {
	switch {
	case got.Id != want.Id:
		return fmt.Sprintf("id %s instead of %s", got.Id, want.Id)
	case got.Trace != want.Trace:
		return fmt.Sprintf("trace %s instead of %s", got.Trace, want.Trace)
	case got.Parent != want.Parent:
		return fmt.Sprintf("parent %s instead of %s", got.Parent, want.Parent)
	case got.Name != want.Name:
		return fmt.Sprintf("name %q instead of %q", got.Name, want.Name)
	case got.Service != want.Service:
		return fmt.Sprintf("service %q instead of %q", got.Service, want.Service)
	case got.Timings != want.Timings:
		return fmt.Sprintf("timings %v instead of %v", got.Timings, want.Timings)
	case !maps.Equal(got.Tags, want.Tags):
		return fmt.Sprintf("tags %v instead of %v", got.Tags, want.Tags)
	}
	return ""
}
