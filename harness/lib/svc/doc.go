package svc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/harness/lib/ref"
)

// Ids hands out ids that are never used twice.
type Ids struct {
	mu   sync.Mutex
	rng  *rand.Rand
	used map[proxy.Id]bool
}

func NewIds(rng *rand.Rand) *Ids { return &Ids{rng: rng, used: map[proxy.Id]bool{0: true}} }

func (i *Ids) Next() proxy.Id {
	i.mu.Lock()
	defer i.mu.Unlock()
	for {
		id := proxy.Id(i.rng.Uint64())
		switch i.rng.IntN(8) {
		case 0:
			id &= 0xffffff
		case 1:
			id = -(id & 0xffffff)
		}
		if !i.used[id] {
			i.used[id] = true
			return id
		}
	}
}

// S describes a span that is to be posted.
type S struct {
	Trace, Id, Parent proxy.Id
	Name, Service     string
	Start, Duration   int64 // microseconds
	Kind              string
	Tags              map[string]string
}

// Format is a way to post spans.
type Format struct {
	Name string
	Path string
	Type string
	Ref  func([]byte) []proxy.Span
	Item func(s S) any
}

// sortedKeys makes documents of the same span the same.
func sortedKeys(m map[string]string) []string { return slices.Sorted(maps.Keys(m)) }

func hex(id proxy.Id) string { return fmt.Sprintf("%016x", uint64(id)) }

var V1 = Format{"v1", "/api/v1/spans", "application/json", ref.V1, func(s S) any {
	ep := map[string]any{"serviceName": s.Service}
	m := map[string]any{"traceId": hex(s.Trace), "id": hex(s.Id), "name": s.Name, "timestamp": s.Start, "duration": s.Duration}
	if s.Parent != 0 {
		m["parentId"] = hex(s.Parent)
	}
	switch s.Kind {
	case "CLIENT":
		m["annotations"] = []any{
			map[string]any{"endpoint": ep, "timestamp": s.Start, "value": "cs"},
			map[string]any{"endpoint": ep, "timestamp": s.Start + s.Duration, "value": "cr"}}
	case "SERVER":
		m["annotations"] = []any{
			map[string]any{"endpoint": ep, "timestamp": s.Start, "value": "sr"},
			map[string]any{"endpoint": ep, "timestamp": s.Start + s.Duration, "value": "ss"}}
	}
	ba := []any{map[string]any{"endpoint": ep, "key": "lc", "value": "x"}}
	for _, k := range sortedKeys(s.Tags) {
		v := s.Tags[k]
		ba = append(ba, map[string]any{"endpoint": ep, "key": k, "value": v})
	}
	m["binaryAnnotations"] = ba
	return m
}}

var V2 = Format{"v2", "/api/v2/spans", "application/json", ref.V2, func(s S) any {
	m := map[string]any{"traceId": hex(s.Trace), "id": hex(s.Id), "name": s.Name, "timestamp": s.Start, "duration": s.Duration,
		"localEndpoint": map[string]any{"serviceName": s.Service}}
	if s.Parent != 0 {
		m["parentId"] = hex(s.Parent)
	}
	if s.Kind != "" {
		m["kind"] = s.Kind
	}
	if len(s.Tags) > 0 {
		m["tags"] = s.Tags
	}
	return m
}}

var Jaeger = Format{"jaeger", "/api/jaeger/spans", "application/json", ref.Jaeger, func(s S) any {
	m := map[string]any{"traceID": hex(s.Trace), "spanID": hex(s.Id), "operationName": s.Name, "startTime": s.Start, "duration": s.Duration}
	if s.Parent != 0 {
		m["references"] = []any{map[string]any{"refType": "CHILD_OF", "traceID": hex(s.Trace), "spanID": hex(s.Parent)}}
	}
	tags := []any{}
	for _, k := range sortedKeys(s.Tags) {
		v := s.Tags[k]
		tags = append(tags, map[string]any{"key": k, "type": "string", "value": v})
	}
	if s.Kind != "" {
		tags = append(tags, map[string]any{"key": "span.kind", "type": "string", "value": strings.ToLower(s.Kind)})
	}
	m["tags"] = tags
	m["processID"] = "p:" + s.Service
	return m
}}

var Formats = []Format{V1, V2, Jaeger}

// Doc encodes the spans.
func (f Format) Doc(spans []S) []byte {
	items := []any{}
	procs := map[string]any{}
	for _, s := range spans {
		items = append(items, f.Item(s))
		procs["p:"+s.Service] = map[string]any{"serviceName": s.Service, "tags": []any{}}
	}
	var v any = items
	if f.Name == "jaeger" {
		v = map[string]any{"data": []any{map[string]any{"processes": procs, "spans": items}}}
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}
