package harness

import (
	"math"
	"sym"
	"thrift"
)

// C04_Scalar: the bytes of every base type for every value.
func C04_Scalar() {
	g := &gen{k: kCompact, leaves: allLeaves, lens: []int{0, 1, 2, 127, 128}}
	conform(kCompact, mkr(kCompact), g.of(g.typ(0), 0))
}

// C04_Fields: field headers: deltas and full ids, booleans inside the header.
func C04_Fields() {
	g := &gen{k: kCompact, leaves: allLeaves, nested: []thrift.TType{thrift.LIST, thrift.MAP, thrift.SET, thrift.STRUCT}}
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 1, 3)
	for j := 0; j < n; j++ {
		v.ids = append(v.ids, sym.Int16("id"))
		v.names = append(v.names, "f")
		t := thrift.TType(thrift.BOOL)
		if j == n-1 {
			t = g.typ(1)
		}
		v.kids = append(v.kids, g.of(t, 0))
	}
	conform(kCompact, mkr(kCompact), v)
}

// C04_Nested: the field ids of an outer struct go on after an inner one.
func C04_Nested() {
	g := &gen{k: kCompact, leaves: []thrift.TType{thrift.BOOL, thrift.BYTE}, nested: []thrift.TType{thrift.STRUCT}, width: 1, anyIds: true}
	v := &val{t: thrift.STRUCT}
	for j := 0; j < 2; j++ {
		v.ids = append(v.ids, sym.Int16("id"))
		v.names = append(v.names, "f")
		if j == 0 {
			v.kids = append(v.kids, g.of(thrift.STRUCT, 2))
		} else {
			v.kids = append(v.kids, g.of(g.typ(0), 0))
		}
	}
	conform(kCompact, mkr(kCompact), v)
}

// C04_Containers: the bytes of containers.
func C04_Containers() {
	g := &gen{k: kCompact, leaves: allLeaves, nested: []thrift.TType{thrift.LIST, thrift.MAP, thrift.STRUCT}, lens: []int{1}, width: 1}
	conform(kCompact, mkr(kCompact), g.of(pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), 2))
}

// C04_Headers: the bytes of list, set and map headers of any size.
func C04_Headers() {
	n := sym.Int32("size")
	sym.Assume(n >= 0)
	kt, et := pick("ktype", allTypes), pick("etype", allTypes)
	buf := thrift.NewTMemoryBuffer()
	p := mk(kCompact, buf)
	var want []byte
	switch sym.Choose("kind", 3) {
	case 0, 1:
		if n <= 14 {
			want = []byte{byte(n)<<4 | ctype(et)}
		} else {
			want = uvarint([]byte{0xf0 | ctype(et)}, uint64(n))
		}
		if sym.Choose("set", 2) == 1 {
			ok(p.WriteSetBegin(et, int(n)), "WriteSetBegin fails")
			ok(p.WriteSetEnd(), "WriteSetEnd fails")
		} else {
			ok(p.WriteListBegin(et, int(n)), "WriteListBegin fails")
			ok(p.WriteListEnd(), "WriteListEnd fails")
		}
	case 2:
		if n == 0 {
			want = []byte{0}
		} else {
			want = append(uvarint(nil, uint64(n)), ctype(kt)<<4|ctype(et))
		}
		ok(p.WriteMapBegin(kt, et, int(n)), "WriteMapBegin fails")
		ok(p.WriteMapEnd(), "WriteMapEnd fails")
	}
	eqBytes(buf.Bytes(), want, "header")
	sym.Reach("end")
}

// C04_Message: the bytes of message headers.
func C04_Message() {
	lens := []int{0, 1, 4, 130}
	name := sym.String("name", lens[sym.Choose("len", len(lens))])
	typ := sym.Byte("msgtype")
	sym.Assume(typ < 8)
	seq := sym.Int32("seq")
	want := []byte{0x82, typ<<5 | 1}
	want = uvarint(want, uint64(uint32(seq)))
	want = append(uvarint(want, uint64(len(name))), name...)
	buf := thrift.NewTMemoryBuffer()
	p := thrift.NewTCompactProtocolFactory().GetProtocol(buf)
	sym.Assert(p.Transport() == thrift.TTransport(buf), "the protocol has another transport")
	ok(p.WriteMessageBegin(name, thrift.TMessageType(typ), seq), "WriteMessageBegin fails")
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	eqBytes(buf.Bytes(), want, "message header")
	in := thrift.NewTMemoryBuffer()
	in.Write(want)
	n, t, s, e := mk(kCompact, in).ReadMessageBegin()
	ok(e, "ReadMessageBegin fails")
	sym.Assert(n == name && byte(t) == typ && s == seq, "message header is read differently")
	sym.Assert(in.Len() == 0, "bytes are left over")
	sym.Reach("end")
}

var cts = []thrift.TType{thrift.STOP, thrift.BOOL, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}

// refVarint reads a varint of at most max bytes.
func refVarint(b []byte, max int) (v uint64, n int) {
	for n < len(b) && n < max {
		c := b[n]
		v |= uint64(c&0x7f) << uint(7*n)
		n++
		if c < 0x80 {
			return v, n
		}
	}
	sym.Assume(false)
	return
}

func unzz(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// C04_Decode: what every reader call makes of any bytes that encode a value, whether or not in the shortest form.
func C04_Decode() {
	n := 12
	b := sym.Bytes("in", n)
	buf := thrift.NewTMemoryBuffer()
	buf.Write(b)
	p := mk(kCompact, buf)
	used := 0
	switch sym.Choose("call", 9) {
	case 0:
		v, e := p.ReadBool()
		ok(e, "ReadBool fails")
		sym.Assert(v == (b[0] == 1), "ReadBool")
		used = 1
	case 1:
		v, e := p.ReadByte()
		ok(e, "ReadByte fails")
		sym.Assert(v == b[0], "ReadByte")
		used = 1
	case 2:
		u, k := refVarint(b, 5)
		x := unzz(u & 0xffffffff)
		sym.Assume(u < 1<<16 && x >= -32768 && x <= 32767)
		v, e := p.ReadI16()
		ok(e, "ReadI16 fails")
		sym.Assert(int64(v) == x, "ReadI16")
		used = k
	case 3:
		u, k := refVarint(b, 5)
		sym.Assume(u < 1<<32)
		v, e := p.ReadI32()
		ok(e, "ReadI32 fails")
		sym.Assert(int64(v) == unzz(u), "ReadI32")
		used = k
	case 4:
		u, k := refVarint(b, 10)
		sym.Assume(k < 10 || b[9] < 2)
		v, e := p.ReadI64()
		ok(e, "ReadI64 fails")
		sym.Assert(v == unzz(u), "ReadI64")
		used = k
	case 5:
		v, e := p.ReadDouble()
		ok(e, "ReadDouble fails")
		u := uint64(0)
		for i := 7; i >= 0; i-- {
			u = u<<8 | uint64(b[i])
		}
		sym.Assert(sameDouble(v, math.Float64frombits(u)), "ReadDouble")
		used = 8
	case 6:
		ct := b[0] & 15
		sz := int(b[0] >> 4)
		sym.Assume(ct >= 1 && ct <= 12)
		used = 1
		if sz == 15 {
			u, k := refVarint(b[1:], 5)
			sym.Assume(u < 1<<31)
			sz = int(u)
			used += k
		}
		var t thrift.TType
		var m int
		var e thrift.TProtocolException
		if sym.Choose("set", 2) == 1 {
			t, m, e = p.ReadSetBegin()
		} else {
			t, m, e = p.ReadListBegin()
		}
		ok(e, "ReadListBegin fails")
		sym.Assert(t == cts[sym.Concrete(int(ct))] && m == sz, "list header")
	case 7:
		u, k := refVarint(b, 5)
		sym.Assume(u < 1<<31)
		used = k
		k1, k2 := b[k]>>4, b[k]&15
		if u != 0 {
			sym.Assume(k1 >= 1 && k1 <= 12 && k2 >= 1 && k2 <= 12)
			used++
		}
		t, t2, m, e := p.ReadMapBegin()
		ok(e, "ReadMapBegin fails")
		sym.Assert(m == int(u), "map size")
		if u != 0 {
			sym.Assert(t == cts[sym.Concrete(int(k1))] && t2 == cts[sym.Concrete(int(k2))], "map types")
		}
	case 8:
		u, k := refVarint(b, 5)
		l := sym.Choose("len", 6)
		sym.Assume(u == uint64(l))
		if sym.Choose("kind", 2) == 0 {
			s, e := p.ReadString()
			ok(e, "ReadString fails")
			sym.Assert(s == string(b[k:k+l]), "ReadString")
		} else {
			s, e := p.ReadBinary()
			ok(e, "ReadBinary fails")
			sym.Assert(string(s) == string(b[k:k+l]), "ReadBinary")
		}
		used = k + l
	}
	sym.Assert(buf.Len() == n-used, "wrong number of bytes consumed")
	sym.Reach("end")
}

// C04_DecodeFields: field headers of any bytes, three in a row, booleans with their value in the header.
func C04_DecodeFields() {
	b := sym.Bytes("in", 12)
	buf := thrift.NewTMemoryBuffer()
	buf.Write(b)
	p := mk(kCompact, buf)
	_, e := p.ReadStructBegin()
	ok(e, "ReadStructBegin fails")
	pos, last := 0, int16(0)
	for i := 0; i < 3; i++ {
		h := b[pos]
		pos++
		ct := h & 15
		sym.Assume(ct <= 12 && (ct != 0 || h == 0))
		if d := h >> 4; d != 0 {
			last += int16(d)
		} else if ct != 0 {
			u, k := refVarint(b[pos:], 3)
			sym.Assume(u < 1<<16)
			last = int16(unzz(u))
			pos += k
		}
		_, t, id, e := p.ReadFieldBegin()
		ok(e, "ReadFieldBegin fails")
		if ct == 0 {
			sym.Assert(t == thrift.STOP, "stop")
			break
		}
		sym.Assert(id == last, "field id")
		sym.Assert(t == cts[sym.Concrete(int(ct))], "field type")
		if ct == 1 || ct == 2 {
			v, e := p.ReadBool()
			ok(e, "ReadBool fails")
			sym.Assert(v == (ct == 1), "boolean field")
		}
		ok(p.ReadFieldEnd(), "ReadFieldEnd fails")
	}
	sym.Assert(buf.Len() == 12-pos, "wrong number of bytes consumed")
	sym.Reach("end")
}
