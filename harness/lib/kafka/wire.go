package kafka

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"

	snappy "github.com/eapache/go-xerial-snappy"
	"github.com/pierrec/lz4"
)

// reader decodes the primitive types of the protocol, it panics with errShort at the end of the data.
type reader struct{ b []byte }

type protocolError string

func (r *reader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		panic(protocolError("short data"))
	}
	p := r.b[:n:n]
	r.b = r.b[n:]
	return p
}

func (r *reader) i8() int8   { return int8(r.take(1)[0]) }
func (r *reader) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *reader) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *reader) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }

func (r *reader) str() string {
	n := r.i16()
	if n < 0 {
		return ""
	}
	return string(r.take(int(n)))
}

func (r *reader) bytes() []byte {
	n := r.i32()
	if n < 0 {
		return nil
	}
	return append([]byte{}, r.take(int(n))...)
}

// each calls f for the elements of an array.
func (r *reader) each(f func()) (n int32) {
	n = r.i32()
	for i := int32(0); i < n; i++ {
		f()
	}
	return n
}

func (r *reader) varint() int64 {
	v, n := binary.Varint(r.b)
	if n <= 0 {
		panic(protocolError("bad varint"))
	}
	r.b = r.b[n:]
	return v
}

func (r *reader) varbytes() []byte {
	n := r.varint()
	if n < 0 {
		return nil
	}
	return append([]byte{}, r.take(int(n))...)
}

type writer struct{ b []byte }

func (w *writer) i8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *writer) i16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *writer) i32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *writer) i64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *writer) str(s string) {
	w.i16(int16(len(s)))
	w.b = append(w.b, s...)
}
func (w *writer) null() { w.i16(-1) }
func (w *writer) bytes(p []byte) {
	w.i32(int32(len(p)))
	w.b = append(w.b, p...)
}
func (w *writer) varint(v int64) { w.b = binary.AppendVarint(w.b, v) }
func (w *writer) varbytes(p []byte) {
	if p == nil {
		w.varint(-1)
		return
	}
	w.varint(int64(len(p)))
	w.b = append(w.b, p...)
}

// KV is key and value of a record, nil is a null.
type KV struct{ Key, Value []byte }

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// decodeBatch reads one record batch of the current format and returns it with the rest of the data.
func decodeBatch(data []byte) (kvs []KV, raw, rest []byte, err error) {
	defer func() {
		if x := recover(); x != nil {
			p, ok := x.(protocolError)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("record batch: %s", string(p))
		}
	}()
	r := &reader{data}
	_ = r.i64() // offset
	n := r.i32()
	body := r.take(int(n))
	raw, rest = append([]byte{}, data[:12+int(n)]...), r.b

	r = &reader{body}
	_ = r.i32() // leader epoch
	if magic := r.i8(); magic != 2 {
		return nil, nil, nil, fmt.Errorf("record batch with magic %d", magic)
	}
	sum := uint32(r.i32())
	if sum != crc32.Checksum(r.b, castagnoli) {
		return nil, nil, nil, fmt.Errorf("record batch with a wrong checksum")
	}
	attributes := r.i16()
	_ = r.i32() // last offset delta
	r.i64()
	r.i64()
	r.i64()
	r.i16()
	r.i32()
	count := r.i32()
	switch attributes & 7 {
	case 0:
	case 1:
		z, err := gzip.NewReader(bytes.NewReader(r.b))
		if err != nil {
			return nil, nil, nil, err
		}
		if r.b, err = io.ReadAll(z); err != nil {
			return nil, nil, nil, err
		}
	case 2:
		if r.b, err = snappy.Decode(r.b); err != nil {
			return nil, nil, nil, err
		}
	case 3:
		if r.b, err = io.ReadAll(lz4.NewReader(bytes.NewReader(r.b))); err != nil {
			return nil, nil, nil, err
		}
	default:
		return nil, nil, nil, fmt.Errorf("unsupported compression %d", attributes&7)
	}
	for i := int32(0); i < count; i++ {
		rec := &reader{r.take(int(r.varint()))}
		rec.i8()
		rec.varint()
		rec.varint()
		kv := KV{Key: rec.varbytes(), Value: rec.varbytes()}
		kvs = append(kvs, kv)
	}
	return kvs, raw, rest, nil
}

// encodeBatch makes a record batch without compression.
func encodeBatch(kvs []KV) []byte {
	var records writer
	for i, kv := range kvs {
		var rec writer
		rec.i8(0)
		rec.varint(0)
		rec.varint(int64(i))
		rec.varbytes(kv.Key)
		rec.varbytes(kv.Value)
		rec.varint(0)
		records.varbytes(rec.b)
	}
	var tail writer
	tail.i16(0)
	tail.i32(int32(len(kvs) - 1))
	tail.i64(1_600_000_000_000)
	tail.i64(1_600_000_000_000)
	tail.i64(-1)
	tail.i16(-1)
	tail.i32(-1)
	tail.i32(int32(len(kvs)))
	tail.b = append(tail.b, records.b...)

	var w writer
	w.i64(0)
	w.i32(int32(4 + 1 + 4 + len(tail.b)))
	w.i32(0)
	w.i8(2)
	w.i32(int32(crc32.Checksum(tail.b, castagnoli)))
	w.b = append(w.b, tail.b...)
	return w.b
}

// parts collects what an answer says about partitions, it has to be grouped by topic.
type parts struct {
	topics []string
	n      map[string]int32
	data   map[string]*writer
}

// of starts the next partition of a topic.
func (p *parts) of(topic string, part int32) *writer {
	if p.n == nil {
		p.n, p.data = map[string]int32{}, map[string]*writer{}
	}
	if p.data[topic] == nil {
		p.topics = append(p.topics, topic)
		p.data[topic] = &writer{}
	}
	p.n[topic]++
	p.data[topic].i32(part)
	return p.data[topic]
}

func (p *parts) write(w *writer) {
	w.i32(int32(len(p.topics)))
	for _, t := range p.topics {
		w.str(t)
		w.i32(p.n[t])
		w.b = append(w.b, p.data[t].b...)
	}
}
