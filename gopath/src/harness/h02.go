package harness

import (
	"sym"
	"thrift"
)

// C02_Scalar: the bytes of every base type for every value.
func C02_Scalar() {
	g := &gen{k: kBin, leaves: allLeaves, lens: []int{0, 1, 2, 5, 127, 128, 255, 256}}
	conform(kBin, binW, g.of(g.typ(0), 0))
}

// C02_Struct: the bytes of structs, fields with any ids, nested.
func C02_Struct() {
	g := &gen{k: kBin, leaves: allLeaves, nested: []thrift.TType{thrift.STRUCT}, lens: []int{1}, width: 2, anyIds: true}
	conform(kBin, binW, g.of(thrift.STRUCT, 2))
}

// C02_Containers: the bytes of containers.
func C02_Containers() {
	g := &gen{k: kBin, leaves: allLeaves, nested: []thrift.TType{thrift.LIST, thrift.MAP, thrift.STRUCT}, lens: []int{1}, width: sym.Bound(1, 2)}
	conform(kBin, binW, g.of(pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), 2))
}

// C02_Headers: the bytes of list, set and map headers of any size.
func C02_Headers() {
	n := sym.Int32("size")
	sym.Assume(n >= 0)
	kt, et := pick("ktype", allTypes), pick("etype", allTypes)
	buf := thrift.NewTMemoryBuffer()
	p := binW(buf)
	ok(p.WriteListBegin(et, int(n)), "WriteListBegin fails")
	ok(p.WriteListEnd(), "WriteListEnd fails")
	want := be([]byte{byte(wt(et))}, uint64(n), 4)
	ok(p.WriteSetBegin(kt, int(n)), "WriteSetBegin fails")
	ok(p.WriteSetEnd(), "WriteSetEnd fails")
	want = be(append(want, byte(wt(kt))), uint64(n), 4)
	ok(p.WriteMapBegin(kt, et, int(n)), "WriteMapBegin fails")
	ok(p.WriteMapEnd(), "WriteMapEnd fails")
	want = be(append(want, byte(wt(kt)), byte(wt(et))), uint64(n), 4)
	eqBytes(buf.Bytes(), want, "header")
	sym.Reach("end")
}

// C02_Message: the bytes of message headers.
func C02_Message() {
	lens := []int{0, 1, 4, 130}
	name := sym.String("name", lens[sym.Choose("len", len(lens))])
	typ := sym.Byte("msgtype")
	seq := sym.Int32("seq")
	strict := sym.Choose("strict", 2) == 1
	var want []byte
	if strict {
		want = be(want, 0x80010000|uint64(typ), 4)
		want = append(be(want, uint64(len(name)), 4), name...)
		want = be(want, uint64(uint32(seq)), 4)
	} else {
		want = append(be(want, uint64(len(name)), 4), name...)
		want = append(want, typ)
		want = be(want, uint64(uint32(seq)), 4)
	}
	buf := thrift.NewTMemoryBuffer()
	p := thrift.NewTBinaryProtocol(buf, sym.Bool("sr"), strict)
	ok(p.WriteMessageBegin(name, thrift.TMessageType(typ), seq), "WriteMessageBegin fails")
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	eqBytes(buf.Bytes(), want, "message header")
	in := thrift.NewTMemoryBuffer()
	in.Write(want)
	n, t, s, e := thrift.NewTBinaryProtocol(in, strict && sym.Bool("sr2"), true).ReadMessageBegin()
	ok(e, "ReadMessageBegin fails")
	sym.Assert(n == name && byte(t) == typ && s == seq, "message header is read differently")
	sym.Assert(in.Len() == 0, "bytes are left over")
	sym.Reach("end")
}

// C02_Factory: the factories build protocols of the strictness they say.
func C02_Factory() {
	var f thrift.TProtocolFactory
	strict := true
	sread := false
	buf := thrift.NewTMemoryBuffer()
	var p thrift.TProtocol
	switch sym.Choose("how", 3) {
	case 0:
		f = thrift.NewTBinaryProtocolFactoryDefault()
		p = f.GetProtocol(buf)
	case 1:
		strict = sym.Choose("sw", 2) == 1
		sread = sym.Choose("sr", 2) == 1
		f = thrift.NewTBinaryProtocolFactory(sread, strict)
		p = f.GetProtocol(buf)
	default:
		p = thrift.NewTBinaryProtocolTransport(buf)
	}
	sym.Assert(p.Transport() == thrift.TTransport(buf), "the protocol has another transport")
	ok(p.WriteMessageBegin("ab", thrift.CALL, 7), "WriteMessageBegin fails")
	if strict {
		eqBytes(buf.Bytes(), []byte{0x80, 1, 0, 1, 0, 0, 0, 2, 'a', 'b', 0, 0, 0, 7}, "strict header")
	} else {
		eqBytes(buf.Bytes(), []byte{0, 0, 0, 2, 'a', 'b', 1, 0, 0, 0, 7}, "old header")
	}
	_, _, _, e := p.ReadMessageBegin()
	sym.Assert((e == nil) == (strict || !sread), "strictness of the reader")
	sym.Reach("end")
}

// C02_Decode: what every reader call makes of any bytes.
func C02_Decode() {
	n := 12
	b := sym.Bytes("in", n)
	buf := thrift.NewTMemoryBuffer()
	buf.Write(b)
	p := binW(buf)
	u := func(i, n int) uint64 {
		var r uint64
		for j := 0; j < n; j++ {
			r = r<<8 | uint64(b[i+j])
		}
		return r
	}
	used := 0
	switch sym.Choose("call", 10) {
	case 0:
		v, e := p.ReadBool()
		ok(e, "ReadBool fails")
		sym.Assert(b[0] > 1 || v == (b[0] == 1), "ReadBool")
		used = 1
	case 1:
		v, e := p.ReadByte()
		ok(e, "ReadByte fails")
		sym.Assert(v == b[0], "ReadByte")
		used = 1
	case 2:
		v, e := p.ReadI16()
		ok(e, "ReadI16 fails")
		sym.Assert(v == int16(u(0, 2)), "ReadI16")
		used = 2
	case 3:
		v, e := p.ReadI32()
		ok(e, "ReadI32 fails")
		sym.Assert(v == int32(u(0, 4)), "ReadI32")
		used = 4
	case 4:
		v, e := p.ReadI64()
		ok(e, "ReadI64 fails")
		sym.Assert(v == int64(u(0, 8)), "ReadI64")
		used = 8
	case 5:
		_, t, id, e := p.ReadFieldBegin()
		ok(e, "ReadFieldBegin fails")
		sym.Assert(byte(t) == b[0], "field type")
		if b[0] == 0 {
			used = 1
		} else {
			sym.Assert(id == int16(u(1, 2)), "field id")
			used = 3
		}
	case 6:
		sym.Assume(u(1, 4) < 1<<31)
		t, m, e := p.ReadListBegin()
		ok(e, "ReadListBegin fails")
		sym.Assert(byte(t) == b[0] && m == int(u(1, 4)), "list header")
		used = 5
	case 7:
		sym.Assume(u(1, 4) < 1<<31)
		t, m, e := p.ReadSetBegin()
		ok(e, "ReadSetBegin fails")
		sym.Assert(byte(t) == b[0] && m == int(u(1, 4)), "set header")
		used = 5
	case 8:
		sym.Assume(u(2, 4) < 1<<31)
		t, t2, m, e := p.ReadMapBegin()
		ok(e, "ReadMapBegin fails")
		sym.Assert(byte(t) == b[0] && byte(t2) == b[1] && m == int(u(2, 4)), "map header")
		used = 6
	case 9:
		l := sym.Choose("len", 9)
		sym.Assume(u(0, 4) == uint64(l))
		if sym.Choose("kind", 2) == 0 {
			s, e := p.ReadString()
			ok(e, "ReadString fails")
			sym.Assert(s == string(b[4:4+l]), "ReadString")
		} else {
			s, e := p.ReadBinary()
			ok(e, "ReadBinary fails")
			sym.Assert(string(s) == string(b[4:4+l]), "ReadBinary")
		}
		used = 4 + l
	}
	sym.Assert(buf.Len() == n-used, "wrong number of bytes consumed")
	sym.Reach("end")
}
