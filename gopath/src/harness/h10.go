package harness

import (
	"sym"
	"thrift"
)

func binOrCompact() int { return sym.Choose("protocol", 2) }

func anyInput(n int) ([]byte, *thrift.TMemoryBuffer) {
	b := sym.Bytes("in", n)
	in := thrift.NewTMemoryBuffer()
	in.Write(b)
	return b, in
}

// C10_Scalar: any bytes read as any base type: a value that is there is read, anything else is an error.
func C10_Scalar() {
	k := binOrCompact()
	n := sym.Range("len", 0, sym.Bound(9, 12))
	b, in := anyInput(n)
	sym.MaxAlloc(64)
	p := mk(k, in)
	t := pick("type", allLeaves)
	w, st := extent(k, t, b, 1)
	var e thrift.TProtocolException
	switch t {
	case thrift.BOOL:
		_, e = p.ReadBool()
	case thrift.BYTE:
		_, e = p.ReadByte()
	case thrift.I16:
		_, e = p.ReadI16()
	case thrift.I32:
		_, e = p.ReadI32()
	case thrift.I64:
		_, e = p.ReadI64()
	case thrift.DOUBLE:
		_, e = p.ReadDouble()
	case thrift.STRING:
		var s string
		s, e = p.ReadString()
		if e == nil && st != open {
			sym.Assert(len(s) <= w, "a string longer than the input")
		}
	case thrift.BINARY:
		var s []byte
		s, e = p.ReadBinary()
		if e == nil && st != open {
			sym.Assert(len(s) <= w, "a binary longer than the input")
		}
	}
	switch st {
	case good:
		ok(e, "a well-formed value is refused")
		sym.Assert(in.Len() == n-w, "wrong number of bytes consumed")
	case bad:
		sym.Assert(e != nil, "an incomplete or malformed value is read as a value")
	}
	sym.Reach("end")
}

// headerExtent is the extent of a container's header.
func headerExtent(k int, t thrift.TType, b []byte) (int, int, int) {
	if k == kBin {
		at := 1
		if t == thrift.MAP {
			at = 2
		}
		if len(b) < at+4 {
			return 0, 0, bad
		}
		n, _ := rbe(b[at:])
		if n < 0 {
			return 0, 0, bad
		}
		return n, at + 4, good
	}
	if t == thrift.MAP {
		u, at, st := varint(b, 32)
		if st != good {
			return 0, 0, st
		}
		if u == 0 {
			return 0, at, good
		}
		if u >= 1<<31 || len(b) <= at || b[at]>>4 > 12 || b[at]&15 > 12 {
			return 0, 0, bad
		}
		return int(u), at + 1, good
	}
	if len(b) < 1 || b[0]&15 > 12 {
		return 0, 0, bad
	}
	if b[0]>>4 != 15 {
		return int(b[0] >> 4), 1, good
	}
	u, m, st := varint(b[1:], 32)
	if st == good && u >= 1<<31 {
		st = bad
	}
	return int(u), 1 + m, st
}

// C10_Headers: any bytes read as the header of a container.
func C10_Headers() {
	k := binOrCompact()
	n := sym.Range("len", 0, sym.Bound(7, 12))
	b, in := anyInput(n)
	p := mk(k, in)
	t := pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP})
	m, w, st := headerExtent(k, t, b)
	var e thrift.TProtocolException
	size := 0
	switch t {
	case thrift.LIST:
		_, size, e = p.ReadListBegin()
	case thrift.SET:
		_, size, e = p.ReadSetBegin()
	case thrift.MAP:
		_, _, size, e = p.ReadMapBegin()
	}
	switch st {
	case good:
		ok(e, "a well-formed container header is refused")
		sym.Assert(size == m, "the size of a container differs")
		sym.Assert(in.Len() == n-w, "wrong number of bytes consumed")
	case bad:
		sym.Assert(e != nil, "an incomplete or malformed container header is accepted")
	}
	sym.Assert(e != nil || size >= 0, "a negative size is passed on")
	sym.Reach("end")
}

// C10_Fields: any bytes read as field headers.
func C10_Fields() {
	k := binOrCompact()
	n := sym.Range("len", 0, sym.Bound(6, 8))
	b, in := anyInput(n)
	p := mk(k, in)
	_, e := p.ReadStructBegin()
	ok(e, "ReadStructBegin fails")
	at := 0
	for i := 0; i < 3; i++ {
		st, w := bad, 0
		stop := false
		if at < n {
			h := b[at]
			if k == kBin {
				if h == 0 {
					st, w, stop = good, 1, true
				} else if n-at >= 3 {
					st, w = good, 3
				}
			} else if h&15 == 0 {
				st, w, stop = good, 1, true
			} else if h>>4 != 0 {
				st, w = good, 1
			} else {
				_, w, st = varint(b[at+1:], 16)
				w++
			}
			if k == kCompact && h&15 > 12 {
				st = bad
			}
		}
		_, t, _, e := p.ReadFieldBegin()
		if st == bad {
			sym.Assert(e != nil, "an incomplete or malformed field header is accepted")
		}
		if st != good {
			break
		}
		ok(e, "a well-formed field header is refused")
		at += w
		sym.Assert(in.Len() == n-at, "wrong number of bytes consumed")
		sym.Assert((t == thrift.STOP) == stop, "a stop is taken for a field, or a field for a stop")
		if stop {
			ok(p.ReadStructEnd(), "ReadStructEnd fails")
			break
		}
		if t == thrift.BOOL {
			_, e := p.ReadBool()
			if k == kCompact {
				ok(e, "ReadBool fails")
			} else {
				sym.Assert((e == nil) == (at < n), "ReadBool")
				if e != nil {
					break
				}
				at++
			}
		}
		ok(p.ReadFieldEnd(), "ReadFieldEnd fails")
	}
	sym.Reach("end")
}

// C10_Message: any bytes read as a message header by strict and other readers.
func C10_Message() {
	k := binOrCompact()
	n := sym.Range("len", 0, sym.Bound(14, 16))
	b, in := anyInput(n)
	sym.MaxAlloc(64)
	strict := sym.Choose("strict", 2) == 1
	st, w := bad, 0
	if k == kBin {
		if v, have := rbe(b); have && v >= 0 {
			if !strict && n-4 >= v && n-4-v >= 5 {
				st, w = good, 9+v
			}
		} else if have && b[0] == 0x80 && b[1] == 1 {
			if m, have := rbe(b[4:]); have && m >= 0 && n-8 >= m && n-8-m >= 4 {
				st, w = good, 12+m
			}
		}
	} else if n >= 2 && b[0] == 0x82 && b[1]&31 == 1 {
		_, w, st = varint(b[2:], 32)
		if st == good {
			v, m, st2 := varint(b[2+w:], 32)
			w += 2 + m
			st = st2
			if st == good {
				if v >= 1<<31 || uint64(n-w) < v {
					st = bad
				} else {
					w += int(v)
				}
			}
		}
	}
	p := mk(k, in)
	if k == kBin {
		p = thrift.NewTBinaryProtocol(in, strict, true)
	}
	_, _, _, e := p.ReadMessageBegin()
	switch st {
	case good:
		ok(e, "a well-formed message header is refused")
		sym.Assert(in.Len() == n-w, "wrong number of bytes consumed")
	case bad:
		sym.Assert(e != nil, "an incomplete or malformed message header is accepted")
	}
	sym.Reach("end")
}

// C10_Negative: negative lengths and sizes are refused, whatever follows them.
func C10_Negative() {
	k := binOrCompact()
	v := sym.Int32("size")
	sym.Assume(v < 0)
	in := thrift.NewTMemoryBuffer()
	what := sym.Choose("what", 6)
	t, t2 := byte(pick("type", allTypes)), byte(pick("type2", allTypes))
	if k == kBin {
		switch what {
		case 2, 3:
			in.Write([]byte{t})
		case 4:
			in.Write([]byte{t, t2})
		}
		in.Write(be(nil, uint64(uint32(v)), 4))
	} else {
		switch what {
		case 2, 3:
			in.Write([]byte{0xf0 | ctype(thrift.TType(t))})
		case 5:
			in.Write([]byte{0x82, 0x21, 0})
		}
		in.Write(uvarint(nil, uint64(uint32(v))))
		if what == 4 {
			in.Write([]byte{ctype(thrift.TType(t))<<4 | ctype(thrift.TType(t2))})
		}
	}
	in.Write(sym.Bytes("rest", 5))
	p := mk(k, in)
	var e thrift.TProtocolException
	switch what {
	case 0:
		_, e = p.ReadString()
	case 1:
		_, e = p.ReadBinary()
	case 2:
		_, _, e = p.ReadListBegin()
	case 3:
		_, _, e = p.ReadSetBegin()
	case 4:
		_, _, _, e = p.ReadMapBegin()
	case 5: // the name in a message header
		if k == kBin {
			in.Reset()
			in.Write([]byte{0x80, 1, 0, 1})
			in.Write(be(nil, uint64(uint32(v)), 4))
			in.Write(sym.Bytes("rest", 5))
		}
		_, _, _, e = p.ReadMessageBegin()
	}
	sym.Assert(e != nil, "a negative size is accepted")
	sym.Reach("end")
}

// C10_Calls: any sequence of reader calls that nests structs properly returns normally for any bytes.
func C10_Calls() {
	k := binOrCompact()
	n := sym.Range("len", 0, sym.Bound(4, 6))
	_, in := anyInput(n)
	sym.MaxAlloc(64)
	p := mk(k, in)
	depth := 0
	for i := 0; i < sym.Bound(3, 4); i++ {
		switch sym.Choose("call", 12) {
		case 0:
			if _, _, _, e := p.ReadMessageBegin(); e == nil {
				p.ReadMessageEnd()
			}
		case 1:
			p.ReadStructBegin()
			depth++
		case 2:
			if depth > 0 {
				p.ReadStructEnd()
				depth--
			}
		case 3:
			p.ReadFieldBegin()
		case 4:
			if _, n, e := p.ReadListBegin(); e == nil {
				sym.Assert(n >= 0, "a negative size is passed on")
				p.ReadListEnd()
			}
		case 5:
			if _, n, e := p.ReadSetBegin(); e == nil {
				sym.Assert(n >= 0, "a negative size is passed on")
				p.ReadSetEnd()
			}
		case 6:
			if _, _, n, e := p.ReadMapBegin(); e == nil {
				sym.Assert(n >= 0, "a negative size is passed on")
				p.ReadMapEnd()
			}
		case 7:
			p.ReadBool()
		case 8:
			p.ReadI64()
		case 9:
			p.ReadString()
		case 10:
			p.ReadBinary()
		case 11:
			p.ReadDouble()
		}
	}
	sym.Assert(in.Len() <= n, "the input grows")
	sym.Reach("end")
}
