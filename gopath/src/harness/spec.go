package harness

import (
	"math"
	"sym"
	"thrift"
)

// Reference encoders, written from the Thrift protocol specifications.

func be(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// specBin appends the binary-protocol encoding of v.
func specBin(b []byte, v *val) []byte {
	switch v.t {
	case thrift.BOOL:
		if v.b {
			return append(b, 1)
		}
		return append(b, 0)
	case thrift.BYTE:
		return append(b, v.y)
	case thrift.I16:
		return be(b, uint64(uint16(v.h)), 2)
	case thrift.I32:
		return be(b, uint64(uint32(v.i)), 4)
	case thrift.I64:
		return be(b, uint64(v.l), 8)
	case thrift.DOUBLE:
		return be(b, math.Float64bits(v.d), 8)
	case thrift.STRING:
		b = be(b, uint64(len(v.s)), 4)
		return append(b, v.s...)
	case thrift.BINARY:
		b = be(b, uint64(len(v.x)), 4)
		return append(b, v.x...)
	case thrift.STRUCT:
		for j, c := range v.kids {
			b = append(b, byte(wt(c.t)))
			b = be(b, uint64(uint16(v.ids[j])), 2)
			b = specBin(b, c)
		}
		return append(b, 0)
	case thrift.LIST, thrift.SET:
		b = append(b, byte(wt(v.et)))
		b = be(b, uint64(len(v.kids)), 4)
	case thrift.MAP:
		b = append(b, byte(wt(v.kt)), byte(wt(v.et)))
		b = be(b, uint64(len(v.kids)/2), 4)
	}
	for _, c := range v.kids {
		b = specBin(b, c)
	}
	return b
}

func uvarint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func zz(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

// ctype is the compact type of t.
func ctype(t thrift.TType) byte {
	switch t {
	case thrift.BOOL:
		return 1
	case thrift.BYTE:
		return 3
	case thrift.I16:
		return 4
	case thrift.I32:
		return 5
	case thrift.I64:
		return 6
	case thrift.DOUBLE:
		return 7
	case thrift.STRING, thrift.BINARY:
		return 8
	case thrift.LIST:
		return 9
	case thrift.SET:
		return 10
	case thrift.MAP:
		return 11
	case thrift.STRUCT:
		return 12
	}
	return 0
}

func specCompact(b []byte, v *val) []byte {
	switch v.t {
	case thrift.BOOL:
		if v.b {
			return append(b, 1)
		}
		return append(b, 2)
	case thrift.BYTE:
		return append(b, v.y)
	case thrift.I16:
		return uvarint(b, zz(int64(v.h)))
	case thrift.I32:
		return uvarint(b, zz(int64(v.i)))
	case thrift.I64:
		return uvarint(b, zz(v.l))
	case thrift.DOUBLE:
		u := math.Float64bits(v.d)
		for i := 0; i < 8; i++ {
			b = append(b, byte(u>>(8*uint(i))))
		}
		return b
	case thrift.STRING:
		b = uvarint(b, uint64(len(v.s)))
		return append(b, v.s...)
	case thrift.BINARY:
		b = uvarint(b, uint64(len(v.x)))
		return append(b, v.x...)
	case thrift.STRUCT:
		last := 0
		for j, c := range v.kids {
			ct := ctype(c.t)
			if c.t == thrift.BOOL && !c.b {
				ct = 2
			}
			id := int(v.ids[j])
			if id > last && id-last <= 15 {
				b = append(b, byte(id-last)<<4|ct)
			} else {
				b = append(b, ct)
				b = uvarint(b, zz(int64(id)))
			}
			last = id
			if c.t != thrift.BOOL {
				b = specCompact(b, c)
			}
		}
		return append(b, 0)
	case thrift.LIST, thrift.SET:
		if n := len(v.kids); n <= 14 {
			b = append(b, byte(n)<<4|ctype(v.et))
		} else {
			b = append(b, 0xf0|ctype(v.et))
			b = uvarint(b, uint64(n))
		}
	case thrift.MAP:
		n := len(v.kids) / 2
		if n == 0 {
			return append(b, 0)
		}
		b = uvarint(b, uint64(n))
		b = append(b, ctype(v.kt)<<4|ctype(v.et))
	}
	for _, c := range v.kids {
		b = specCompact(b, c)
	}
	return b
}

// eqBytes asserts that got is want.
func eqBytes(got, want []byte, what string) {
	sym.Assert(len(got) == len(want), what+": wrong number of bytes")
	for i := range want {
		sym.Assert(got[i] == want[i], what+": wrong byte")
	}
}

func specOf(k int, v *val) []byte {
	if k == kBin {
		return specBin(nil, v)
	}
	return specCompact(nil, v)
}

// conform checks the writer's bytes against the reference, and that the reader accepts the reference's bytes.
func conform(k int, mkp func(thrift.TTransport) thrift.TProtocol, v *val) {
	want := specOf(k, v)
	buf := thrift.NewTMemoryBuffer()
	p := mkp(buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	eqBytes(buf.Bytes(), want, "written")
	in := thrift.NewTMemoryBuffer()
	in.Write(want)
	in.Write([]byte{0x77})
	check(k, mkp(in), v)
	sym.Assert(in.Len() == 1, "the reader does not consume exactly the value")
	sym.Reach("end")
}

// What a reference parser makes of bytes: not a value, a value, or something the formats leave open.
const (
	bad = iota
	good
	open
)

// extent tells how many bytes the value of type t at the start of b has.
func extent(k int, t thrift.TType, b []byte, depth int) (int, int) {
	if depth <= 0 {
		return 0, bad
	}
	if k == kBin {
		return extentBin(t, b, depth)
	}
	return extentCompact(t, b, depth)
}

func fixed(b []byte, n int) (int, int) {
	if len(b) < n {
		return 0, bad
	}
	return n, good
}

// rbe reads a big-endian 32-bit integer.
func rbe(b []byte) (int, bool) {
	if len(b) < 4 {
		return 0, false
	}
	return int(int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))), true
}

// body is the extent of n alternating values after the first at bytes.
func body(k int, ts []thrift.TType, n int, b []byte, at, depth int) (int, int) {
	for i := 0; i < n; i++ {
		for _, t := range ts {
			// elements of type STOP have no bytes: nothing bounds their number
			sym.Assume(t != thrift.STOP)
			m, st := extent(k, t, b[at:], depth-1)
			if st != good {
				return at + m, st
			}
			at += m
		}
	}
	return at, good
}

func extentBin(t thrift.TType, b []byte, depth int) (int, int) {
	switch t {
	case thrift.BOOL, thrift.BYTE:
		return fixed(b, 1)
	case thrift.I16:
		return fixed(b, 2)
	case thrift.I32:
		return fixed(b, 4)
	case thrift.I64, thrift.DOUBLE:
		return fixed(b, 8)
	case thrift.STRING, thrift.BINARY:
		n, have := rbe(b)
		if !have || n < 0 || len(b)-4 < n {
			return 0, bad
		}
		return 4 + n, good
	case thrift.STRUCT:
		for at := 0; at < len(b); {
			if b[at] == 0 {
				return at + 1, good
			}
			if len(b) < at+3 {
				return 0, bad
			}
			n, st := extent(kBin, thrift.TType(b[at]), b[at+3:], depth-1)
			if st != good {
				return at, st
			}
			at += 3 + n
		}
		return 0, bad
	case thrift.LIST, thrift.SET:
		if len(b) < 5 {
			return 0, bad
		}
		n, _ := rbe(b[1:])
		if n < 0 {
			return 0, bad
		}
		return body(kBin, []thrift.TType{thrift.TType(b[0])}, n, b, 5, depth)
	case thrift.MAP:
		if len(b) < 6 {
			return 0, bad
		}
		n, _ := rbe(b[2:])
		if n < 0 {
			return 0, bad
		}
		return body(kBin, []thrift.TType{thrift.TType(b[0]), thrift.TType(b[1])}, n, b, 6, depth)
	}
	return 0, bad
}

// varint is the value and extent of a varint for values of the given number of bits.
func varint(b []byte, bits int) (uint64, int, int) {
	max := (bits + 6) / 7
	v := uint64(0)
	for n := 0; n < len(b) && n < 10; n++ {
		c := b[n]
		v |= uint64(c&0x7f) << uint(7*n)
		if c < 0x80 {
			if n+1 > max || n+1 == max && c>>uint(bits-7*n) != 0 {
				return v, n + 1, open // more bits than the type has
			}
			return v, n + 1, good
		}
	}
	return 0, 0, bad
}

func extentCompact(t thrift.TType, b []byte, depth int) (int, int) {
	switch t {
	case thrift.BOOL, thrift.BYTE:
		return fixed(b, 1)
	case thrift.I16, thrift.I32, thrift.I64:
		bits := 64
		if t == thrift.I16 {
			bits = 16
		} else if t == thrift.I32 {
			bits = 32
		}
		_, n, st := varint(b, bits)
		return n, st
	case thrift.DOUBLE:
		return fixed(b, 8)
	case thrift.STRING, thrift.BINARY:
		v, n, st := varint(b, 32)
		if st != good {
			return n, st
		}
		if v >= 1<<31 || uint64(len(b)-n) < v {
			return 0, bad
		}
		return n + int(v), good
	case thrift.STRUCT:
		for at := 0; at < len(b); {
			h := b[at]
			if h == 0 {
				return at + 1, good
			}
			if h&15 == 0 {
				return at + 1, open
			}
			if h&15 > 12 {
				return at, bad
			}
			at++
			if h>>4 == 0 {
				_, n, st := varint(b[at:], 16)
				if st != good {
					return at, st
				}
				at += n
			}
			if h&15 > 2 {
				n, st := extent(kCompact, cts[h&15], b[at:], depth-1)
				if st != good {
					return at, st
				}
				at += n
			} else if depth == 1 {
				return at, bad
			}
		}
		return 0, bad
	case thrift.LIST, thrift.SET:
		if len(b) < 1 || b[0]&15 > 12 {
			return 0, bad
		}
		n, at := uint64(b[0]>>4), 1
		if n == 15 {
			u, m, st := varint(b[1:], 32)
			if st != good {
				return 0, st
			}
			if u >= 1<<31 {
				return 0, bad
			}
			n, at = u, 1+m
		}
		return body(kCompact, []thrift.TType{cts[b[0]&15]}, int(n), b, at, depth)
	case thrift.MAP:
		u, at, st := varint(b, 32)
		if st != good {
			return 0, st
		}
		if u == 0 {
			return at, good
		}
		if u >= 1<<31 || len(b) <= at || b[at]>>4 > 12 || b[at]&15 > 12 {
			return 0, bad
		}
		return body(kCompact, []thrift.TType{cts[b[at]>>4], cts[b[at]&15]}, int(u), b, at+1, depth)
	}
	return 0, bad
}
