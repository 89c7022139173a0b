// Package ref holds reference models, written from the properties and independent of the code of the proxy.
package ref

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type object map[string]json.RawMessage

func (o object) str(key string) string {
	raw, ok := o[key]
	if !ok {
		return ""
	}
	var s string
	if err := json.Unmarshal(raw, &s); err != nil {
		panic(fmt.Sprintf("reference decoder: %s: %s", key, err))
	}
	return s
}

func (o object) obj(key string) object {
	res := object{}
	if raw, ok := o[key]; ok {
		if err := json.Unmarshal(raw, &res); err != nil {
			panic(err)
		}
	}
	return res
}

func (o object) list(key string) []object {
	var res []object
	if raw, ok := o[key]; ok {
		if err := json.Unmarshal(raw, &res); err != nil {
			panic(err)
		}
	}
	return res
}

func (o object) us(key string) int64 {
	raw, ok := o[key]
	if !ok {
		return 0
	}
	v, err := strconv.ParseInt(string(bytes.TrimSpace(raw)), 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func (o object) id(key string) proxy.Id {
	s := o.str(key)
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return proxy.Id(v)
}

// literal returns the text of a literal
func literal(raw json.RawMessage) string {
	raw = bytes.TrimSpace(raw)
	if len(raw) > 0 && raw[0] == '"' {
		var s string
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		return s
	}
	return string(raw)
}

const us = 1000

// V1 decodes a zipkin v1 document.
func V1(doc []byte) []proxy.Span {
	var list []object
	if err := json.Unmarshal(doc, &list); err != nil {
		panic(err)
	}
	spans := []proxy.Span{}
	for _, o := range list {
		span := proxy.Span{Id: o.id("id"), Trace: o.id("traceId"), Parent: o.id("parentId"), Name: o.str("name")}
		span.Tags = map[string]string{}
		for _, a := range o.list("annotations") {
			ts := a.us("timestamp")
			if ts == 0 {
				continue
			}
			t := proxy.Timestamp(ts * us)
			switch a.str("value") {
			case "cs":
				span.Timings.CS = t
			case "cr":
				span.Timings.CR = t
			case "sr":
				span.Timings.SR = t
			case "ss":
				span.Timings.SS = t
			}
			if span.Service == "" {
				span.Service = a.obj("endpoint").str("serviceName")
			}
		}
		for _, a := range o.list("binaryAnnotations") {
			span.Tags[a.str("key")] = literal(a["value"])
			if span.Service == "" {
				span.Service = a.obj("endpoint").str("serviceName")
			}
		}
		span.Tags["protocolVersion"] = "json v1"

		span.Timestamp = proxy.Timestamp(o.us("timestamp") * us)
		span.Duration = time.Duration(o.us("duration") * us)
		t := span.Timings
		if t.CS != 0 && t.CR != 0 {
			span.Timestamp, span.Duration = t.CS, time.Duration(t.CR-t.CS)
		} else if t.SR != 0 && t.SS != 0 {
			span.Timestamp, span.Duration = t.SR, time.Duration(t.SS-t.SR)
			if span.Duration == 0 {
				span.Duration = time.Millisecond
			}
		}
		if span.Duration == 0 {
			span.Duration = time.Millisecond
		}
		spans = append(spans, span)
	}
	return spans
}

func kind(span *proxy.Span, kind string) {
	end := span.Timestamp + proxy.Timestamp(span.Duration)
	switch strings.ToLower(kind) {
	case "client":
		span.Timings.CS, span.Timings.CR = span.Timestamp, end
	case "server":
		span.Timings.SR, span.Timings.SS = span.Timestamp, end
	}
}

// V2 decodes a zipkin v2 document.
func V2(doc []byte) []proxy.Span {
	var list []object
	if err := json.Unmarshal(doc, &list); err != nil {
		panic(err)
	}
	spans := []proxy.Span{}
	for _, o := range list {
		span := proxy.Span{Id: o.id("id"), Trace: o.id("traceId"), Parent: o.id("parentId"), Name: o.str("name")}
		span.Service = o.obj("localEndpoint").str("serviceName")
		span.Tags = map[string]string{}
		for key, value := range o.obj("tags") {
			span.Tags[key] = literal(value)
		}
		span.Tags["protocolVersion"] = "json v2"
		span.Timestamp = proxy.Timestamp(o.us("timestamp") * us)
		span.Duration = time.Duration(o.us("duration") * us)
		if span.Duration == 0 {
			span.Duration = time.Millisecond
		}
		kind(&span, o.str("kind"))
		spans = append(spans, span)
	}
	return spans
}

// Jaeger decodes a jaeger document.
func Jaeger(doc []byte) []proxy.Span {
	var root object
	if err := json.Unmarshal(doc, &root); err != nil {
		panic(err)
	}
	spans := []proxy.Span{}
	for _, data := range root.list("data") {
		procs := data.obj("processes")
		for _, o := range data.list("spans") {
			span := proxy.Span{Id: o.id("spanID"), Trace: o.id("traceID"), Name: o.str("operationName")}
			span.Parent = span.Id
			for _, r := range o.list("references") {
				if r.str("refType") == "CHILD_OF" {
					span.Parent = r.id("spanID")
				}
			}
			span.Service = procs.obj(o.str("processID")).str("serviceName")
			span.Timestamp = proxy.Timestamp(o.us("startTime") * us)
			span.Duration = time.Duration(o.us("duration") * us)
			if span.Duration == 0 {
				span.Duration = time.Millisecond
			}
			span.Tags = map[string]string{}
			for _, tag := range o.list("tags") {
				raw := bytes.TrimSpace(tag["value"])
				if len(raw) == 0 || raw[0] != '"' {
					continue
				}
				key, value := tag.str("key"), tag.str("value")
				switch key {
				case "component":
					span.Tags["lc"] = value
				case "internal.span.format":
				case "span.kind":
					kind(&span, value)
				default:
					span.Tags[key] = value
				}
			}
			span.Tags["protocolVersion"] = "jaeger"
			spans = append(spans, span)
		}
	}
	return spans
}

// Canon returns an unambiguous text form of a span.
func Canon(s proxy.Span) string {
	var b strings.Builder
	t := s.Timings
	fmt.Fprintf(&b, "id=%016x parent=%016x trace=%016x name=%q service=%q ts=%d dur=%d cs=%d cr=%d ss=%d sr=%d",
		uint64(s.Id), uint64(s.Parent), uint64(s.Trace), s.Name, s.Service, int64(s.Timestamp), int64(s.Duration), int64(t.CS), int64(t.CR), int64(t.SS), int64(t.SR))
	keys := make([]string, 0, len(s.Tags))
	for key := range s.Tags {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		fmt.Fprintf(&b, " %q=%q", key, s.Tags[key])
	}
	return b.String()
}

func CanonAll(spans []proxy.Span) []string {
	res := make([]string, len(spans))
	for i, s := range spans {
		res[i] = Canon(s)
	}
	return res
}

// Diff compares two lists of spans and describes the first difference.
func Diff(got, want []proxy.Span) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d spans, want %d", len(got), len(want))
	}
	for i := range got {
		if g, w := Canon(got[i]), Canon(want[i]); g != w {
			return fmt.Sprintf("span %d:\n got %s\nwant %s", i, clip(g, 4000), clip(w, 4000))
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Clone makes a deep copy that does not share any memory.
func Clone(s proxy.Span) proxy.Span {
	s.Name = strings.Clone(s.Name)
	s.Service = strings.Clone(s.Service)
	if s.Tags != nil {
		tags := map[string]string{}
		for key, value := range s.Tags {
			tags[strings.Clone(key)] = strings.Clone(value)
		}
		s.Tags = tags
	}
	return s
}

func CloneAll(spans []proxy.Span) []proxy.Span {
	res := make([]proxy.Span, len(spans))
	for i := range spans {
		res[i] = Clone(spans[i])
	}
	return res
}
