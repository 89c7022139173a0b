package agent

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// Unpack decodes one msgpack value. Integers become int64 or uint64, all strings and binaries become string.
func Unpack(b []byte) (v any, rest []byte, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("msgpack: %v", x)
		}
	}()
	u := &unpacker{b}
	v = u.value(0)
	return v, u.b, nil
}

type unpacker struct{ b []byte }

func (u *unpacker) take(n int) []byte {
	if n < 0 || n > len(u.b) {
		panic(errors.New("unexpected end"))
	}
	res := u.b[:n]
	u.b = u.b[n:]
	return res
}

func (u *unpacker) uint(n int) uint64 {
	var res uint64
	for _, c := range u.take(n) {
		res = res<<8 | uint64(c)
	}
	return res
}

func (u *unpacker) array(n uint64, depth int) any {
	res := []any{}
	for ; n > 0; n-- {
		res = append(res, u.value(depth))
	}
	return res
}

func (u *unpacker) object(n uint64, depth int) any {
	res := map[string]any{}
	for ; n > 0; n-- {
		key, ok := u.value(depth).(string)
		if !ok {
			panic(errors.New("map key is not a string"))
		}
		if _, ok := res[key]; ok {
			panic(errors.New("duplicate map key " + key))
		}
		res[key] = u.value(depth)
	}
	return res
}

func (u *unpacker) value(depth int) any {
	if depth > 32 {
		panic(errors.New("too deep"))
	}
	c := u.take(1)[0]
	switch {
	case c <= 0x7f:
		return int64(c)
	case c <= 0x8f:
		return u.object(uint64(c&0xf), depth+1)
	case c <= 0x9f:
		return u.array(uint64(c&0xf), depth+1)
	case c <= 0xbf:
		return string(u.take(int(c & 0x1f)))
	case c >= 0xe0:
		return int64(int8(c))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xc4, 0xd9:
		return string(u.take(int(u.uint(1))))
	case 0xc5, 0xda:
		return string(u.take(int(u.uint(2))))
	case 0xc6, 0xdb:
		return string(u.take(int(u.uint(4))))
	case 0xca:
		return float64(math.Float32frombits(uint32(u.uint(4))))
	case 0xcb:
		return math.Float64frombits(binary.BigEndian.Uint64(u.take(8)))
	case 0xcc:
		return u.uint(1)
	case 0xcd:
		return u.uint(2)
	case 0xce:
		return u.uint(4)
	case 0xcf:
		return u.uint(8)
	case 0xd0:
		return int64(int8(u.uint(1)))
	case 0xd1:
		return int64(int16(u.uint(2)))
	case 0xd2:
		return int64(int32(u.uint(4)))
	case 0xd3:
		return int64(u.uint(8))
	case 0xdc:
		return u.array(u.uint(2), depth+1)
	case 0xdd:
		return u.array(u.uint(4), depth+1)
	case 0xde:
		return u.object(u.uint(2), depth+1)
	case 0xdf:
		return u.object(u.uint(4), depth+1)
	}
	panic(fmt.Errorf("type %x", c))
}
