package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"unicode/utf16"
)

// foreign writes a value as another implementation might: any of the ways the format allows.
type foreign struct {
	ser string
	h   uint64
	n   int
	b   []byte
}

func foreignEncode(ser string, v any, h uint64) []byte {
	f := &foreign{ser: ser, h: h}
	f.value(v)
	f.space()
	return f.b
}

func (f *foreign) pick(k int) int {
	f.n++
	return int(hash(f.h, f.n) % uint64(k))
}

func (f *foreign) put(b ...byte) { f.b = append(f.b, b...) }

func (f *foreign) be(n uint64, size int) {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], n)
	f.put(x[8-size:]...)
}

// space is insignificant in JSON.
func (f *foreign) space() {
	if f.ser == "json" && f.pick(5) == 0 {
		f.put([]byte{' ', '\n', '\t', '\r'}[f.pick(4)])
	}
}

func (f *foreign) value(v any) {
	f.space()
	switch x := v.(type) {
	case nil:
		f.lit("null", 0xc0, 0xf6)
		return
	case bool:
		if x {
			f.lit("true", 0xc3, 0xf5)
		} else {
			f.lit("false", 0xc2, 0xf4)
		}
		return
	case string:
		f.str(x)
		return
	case []byte:
		f.bin(x)
		return
	case []any:
		f.seq(len(x), 4, func(i int) { f.value(x[i]) })
		return
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return hash(f.h, keys[i]) < hash(f.h, keys[j]) })
		f.seq(len(x), 5, func(i int) {
			f.space()
			f.str(keys[i])
			if f.ser == "json" {
				f.space()
				f.put(':')
			}
			f.value(x[keys[i]])
		})
		return
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Int() < 0 {
			f.negative(r.Int())
		} else {
			f.natural(uint64(r.Int()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f.natural(r.Uint())
	case reflect.Float32, reflect.Float64:
		f.float(r.Float())
	default:
		fatal(fmt.Errorf("foreign: %T", v))
	}
}

func (f *foreign) lit(js string, mp, cb byte) {
	switch f.ser {
	case "json":
		f.put([]byte(js)...)
	case "msgpack":
		f.put(mp)
	default:
		f.put(cb)
	}
}

// head of a CBOR item, not always the shortest.
func (f *foreign) head(major byte, n uint64) {
	sizes := []int{}
	if n < 24 {
		sizes = append(sizes, 0, 0, 0)
	}
	for _, s := range []int{1, 2, 4, 8} {
		if s == 8 || n < 1<<(8*s) {
			sizes = append(sizes, s)
		}
	}
	switch s := sizes[f.pick(len(sizes))]; s {
	case 0:
		f.put(major<<5 | byte(n))
	default:
		f.put(major<<5 | map[int]byte{1: 24, 2: 25, 4: 26, 8: 27}[s])
		f.be(n, s)
	}
}

func (f *foreign) natural(n uint64) {
	switch f.ser {
	case "json":
		s := strconv.FormatUint(n, 10)
		if n > 0 && n < 1<<53 { // any way to write the number
			switch f.pick(6) {
			case 0:
				s += ".0"
			case 1:
				s += "e0"
			case 2:
				s += "0E-1"
			}
		}
		f.put([]byte(s)...)
	case "msgpack":
		var ways []func()
		add := func(code byte, size int) { ways = append(ways, func() { f.put(code); f.be(n, size) }) }
		if n < 128 {
			ways = append(ways, func() { f.put(byte(n)) })
			add(0xd0, 1)
		}
		if n < 1<<8 {
			add(0xcc, 1)
		}
		if n < 1<<15 {
			add(0xd1, 2)
		}
		if n < 1<<16 {
			add(0xcd, 2)
		}
		if n < 1<<31 {
			add(0xd2, 4)
		}
		if n < 1<<32 {
			add(0xce, 4)
		}
		if n < 1<<63 {
			add(0xd3, 8)
		}
		add(0xcf, 8)
		ways[f.pick(len(ways))]()
	default:
		f.head(0, n)
	}
}

func (f *foreign) negative(n int64) {
	switch f.ser {
	case "json":
		f.put([]byte(strconv.FormatInt(n, 10))...)
	case "msgpack":
		var ways []func()
		add := func(code byte, size int) { ways = append(ways, func() { f.put(code); f.be(uint64(n), size) }) }
		if n >= -32 {
			ways = append(ways, func() { f.put(byte(n)) })
		}
		if n >= -1<<7 {
			add(0xd0, 1)
		}
		if n >= -1<<15 {
			add(0xd1, 2)
		}
		if n >= -1<<31 {
			add(0xd2, 4)
		}
		add(0xd3, 8)
		ways[f.pick(len(ways))]()
	default:
		f.head(1, uint64(-1-n))
	}
}

func (f *foreign) float(x float64) {
	single := float64(float32(x)) == x
	switch f.ser {
	case "json":
		b, err := json.Marshal(x)
		fatal(err)
		f.put(b...)
	case "msgpack":
		if single && f.pick(2) == 0 {
			f.put(0xca)
			f.be(uint64(math.Float32bits(float32(x))), 4)
			return
		}
		f.put(0xcb)
		f.be(math.Float64bits(x), 8)
	default:
		if half, ok := map[float64]uint64{0: 0, 1.5: 0x3e00, 0.5: 0x3800, -1.5: 0xbe00}[x]; ok && f.pick(3) == 0 && !math.Signbit(x) {
			f.put(0xf9)
			f.be(half, 2)
			return
		}
		if single && f.pick(2) == 0 {
			f.put(0xfa)
			f.be(uint64(math.Float32bits(float32(x))), 4)
			return
		}
		f.put(0xfb)
		f.be(math.Float64bits(x), 8)
	}
}

func (f *foreign) str(s string) {
	switch f.ser {
	case "json":
		f.put('"')
		for _, c := range s {
			if c == 0xfffd || c == '"' || c == '\\' || c < 0x20 || f.pick(6) == 0 {
				if c > 0xffff {
					a, b := utf16.EncodeRune(c)
					f.put([]byte(fmt.Sprintf(`\u%04x\u%04X`, a, b))...)
				} else {
					f.put([]byte(fmt.Sprintf(`\u%04x`, c))...)
				}
			} else {
				f.put([]byte(string(c))...)
			}
		}
		f.put('"')
	case "msgpack":
		f.sized(len(s), 0xa0, 32, 0xd9, 0xda, 0xdb)
		f.put([]byte(s)...)
	default:
		if f.pick(4) == 0 { // in chunks, which hold whole characters
			f.put(0x7f)
			rs := []rune(s)
			for len(rs) > 0 {
				k := 1 + f.pick(len(rs))
				c := string(rs[:k])
				f.head(3, uint64(len(c)))
				f.put([]byte(c)...)
				rs = rs[k:]
			}
			f.put(0xff)
			return
		}
		f.head(3, uint64(len(s)))
		f.put([]byte(s)...)
	}
}

func (f *foreign) bin(b []byte) {
	switch f.ser {
	case "json":
		f.str(string(b))
	case "msgpack":
		f.sized(len(b), 0, 0, 0xc4, 0xc5, 0xc6)
		f.put(b...)
	default:
		if f.pick(4) == 0 {
			f.put(0x5f)
			for len(b) > 0 {
				k := 1 + f.pick(len(b))
				f.head(2, uint64(k))
				f.put(b[:k]...)
				b = b[k:]
			}
			f.put(0xff)
			return
		}
		f.head(2, uint64(len(b)))
		f.put(b...)
	}
}

// sized writes the head of a MessagePack item with a length; code8 is 0 where there is none.
func (f *foreign) sized(n int, fix byte, fixmax int, code8, code16, code32 byte) {
	var ways []func()
	if n < fixmax {
		ways = append(ways, func() { f.put(fix | byte(n)) })
	}
	if code8 != 0 && n < 1<<8 {
		ways = append(ways, func() { f.put(code8); f.be(uint64(n), 1) })
	}
	if n < 1<<16 {
		ways = append(ways, func() { f.put(code16); f.be(uint64(n), 2) })
	}
	ways = append(ways, func() { f.put(code32); f.be(uint64(n), 4) })
	ways[f.pick(len(ways))]()
}

func (f *foreign) seq(n int, major byte, item func(int)) {
	list := major == 4
	switch f.ser {
	case "json":
		open, end := byte('{'), byte('}')
		if list {
			open, end = '[', ']'
		}
		f.put(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				f.put(',')
			}
			item(i)
			f.space()
		}
		f.put(end)
		return
	case "msgpack":
		if list {
			f.sized(n, 0x90, 16, 0, 0xdc, 0xdd)
		} else {
			f.sized(n, 0x80, 16, 0, 0xde, 0xdf)
		}
	default:
		if f.pick(4) == 0 {
			f.put(major<<5 | 31)
			for i := 0; i < n; i++ {
				item(i)
			}
			f.put(0xff)
			return
		}
		f.head(major, uint64(n))
	}
	for i := 0; i < n; i++ {
		item(i)
	}
}
