package harness

import (
	"sym"
	"thrift"
)

// binary protocols of any strictness
func binW(t thrift.TTransport) thrift.TProtocol {
	return thrift.NewTBinaryProtocol(t, sym.Bool("strictRead"), sym.Bool("strictWrite"))
}

var scalarLens = []int{0, 1, 2, 3, 5, 9}

func sentinel() *val { return &val{t: thrift.BYTE, y: 0x5a} }

func bigLens() []int {
	if sym.Thorough() {
		return []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 130, 200, 255, 256, 257, 512}
	}
	return []int{0, 1, 2, 5, 16, 127, 128, 130}
}

// C01_Scalar: every base type, every value; strings up to the bound; two in a row and a sentinel.
func C01_Scalar() {
	g := &gen{k: kBin, leaves: allLeaves, lens: []int{0, 1, 2, 5}}
	a := g.of(g.typ(0), 0)
	b := g.of(g.typ(0), 0)
	roundTrip(kBin, binW, binW, a, b, sentinel())
}

// C01_Strings: longer strings and binaries.
func C01_Strings() {
	g := &gen{k: kBin, lens: bigLens()}
	t := thrift.TType(thrift.STRING)
	if sym.Choose("kind", 2) == 1 {
		t = thrift.BINARY
	}
	roundTrip(kBin, binW, binW, g.of(t, 0), sentinel())
}

// longString is a string of n bytes whose contents are fixed but for three arbitrary bytes at the ends and the middle.
func longString(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	b[0], b[n/2], b[n-1] = sym.Byte("s"), sym.Byte("s"), sym.Byte("s")
	return string(b)
}

// C01_Long: strings and binaries across the sizes of internal buffers.
func C01_Long() {
	ls := []int{4095, 4096, 4097}
	if sym.Thorough() {
		ls = []int{511, 512, 513, 1024, 4095, 4096, 4097, 8193, 32767, 32768, 32769, 65536}
	}
	s := longString(ls[sym.Choose("len", len(ls))])
	v := &val{t: thrift.STRING, s: s}
	if sym.Choose("kind", 2) == 1 {
		v = &val{t: thrift.BINARY, x: []byte(s)}
	}
	roundTrip(kBin, binW, binW, v, sentinel())
}

func msgRoundTrip(k int, strict bool, w, r thrift.TProtocol, name string, typ byte, seq int32, body *val) {
	ok(w.WriteMessageBegin(name, thrift.TMessageType(typ), seq), "WriteMessageBegin fails")
	if body != nil {
		write(w, body)
	}
	ok(w.WriteMessageEnd(), "WriteMessageEnd fails")
	ok(w.Flush(), "Flush fails")
	n, t, s, e := r.ReadMessageBegin()
	ok(e, "ReadMessageBegin fails")
	sym.Assert(n == name, "message name differs")
	sym.Assert(byte(t) == typ, "message type differs")
	sym.Assert(s == seq, "message sequence id differs")
	if body != nil {
		check(k, r, body)
	}
	ok(r.ReadMessageEnd(), "ReadMessageEnd fails")
}

// C01_Message: message headers with any name, type and sequence id, strict and not, followed by a value.
func C01_Message() {
	buf := thrift.NewTMemoryBuffer()
	sw := sym.Choose("strictWrite", 2) == 1
	sr := sym.Choose("strictRead", 2) == 1
	if !sw && sr {
		sr = false
	}
	lens := []int{0, 1, 2, 8, 130}
	name := sym.String("name", lens[sym.Choose("len", len(lens))])
	typ := sym.Byte("msgtype")
	seq := sym.Int32("seq")
	w := thrift.NewTBinaryProtocol(buf, false, sw)
	r := thrift.NewTBinaryProtocol(buf, sr, false)
	for i := 0; i < 2; i++ {
		msgRoundTrip(kBin, sw, w, r, name, typ, seq, &val{t: thrift.I32, i: sym.Int32("body")})
		sym.Assert(buf.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C01_StrictMissing: a strict reader refuses a header without a version; any reader refuses another version.
func C01_StrictMissing() {
	buf := thrift.NewTMemoryBuffer()
	w := thrift.NewTBinaryProtocol(buf, false, false)
	if sym.Bool("old") {
		ok(w.WriteMessageBegin(sym.String("name", 3), thrift.TMessageType(sym.Byte("t")), sym.Int32("seq")), "WriteMessageBegin fails")
		_, _, _, e := thrift.NewTBinaryProtocol(buf, true, true).ReadMessageBegin()
		sym.Assert(e != nil && e.TypeId() == thrift.BAD_VERSION, "a strict reader accepts a header without a version")
	} else {
		v := sym.Int32("version")
		sym.Assume(v < 0 && uint32(v)&0xffff0000 != 0x80010000)
		ok(w.WriteI32(v), "WriteI32 fails")
		ok(w.WriteString("ab"), "WriteString fails")
		ok(w.WriteI32(1), "WriteI32 fails")
		_, _, _, e := thrift.NewTBinaryProtocol(buf, sym.Bool("strict"), true).ReadMessageBegin()
		sym.Assert(e != nil && e.TypeId() == thrift.BAD_VERSION, "a reader accepts a wrong version")
	}
	sym.Reach("end")
}

// C01_Struct: fields with any ids.
func C01_Struct() {
	g := &gen{k: kBin, leaves: []thrift.TType{thrift.BOOL, thrift.I16, thrift.STRING, thrift.DOUBLE}, nested: []thrift.TType{thrift.STRUCT}, lens: []int{0, 2}, width: 2, anyIds: true}
	roundTrip(kBin, binW, binW, g.of(thrift.STRUCT, sym.Bound(2, 3)), sentinel())
}

// C01_Headers: container headers with any types and any size.
func C01_Headers() {
	headers(kBin, binW)
}

func headers(k int, mkp func(thrift.TTransport) thrift.TProtocol) {
	n := int(sym.Int32("size"))
	sym.Assume(n >= 0)
	kt, et := pick("ktype", allTypes), pick("etype", allTypes)
	buf := thrift.NewTMemoryBuffer()
	p := mkp(buf)
	q := mkp(buf)
	ok(p.WriteListBegin(et, n), "WriteListBegin fails")
	ok(p.WriteSetBegin(kt, n), "WriteSetBegin fails")
	ok(p.WriteMapBegin(kt, et, n), "WriteMapBegin fails")
	t, m, e := q.ReadListBegin()
	ok(e, "ReadListBegin fails")
	sym.Assert(t == wt(et) && m == n, "list header differs")
	t, m, e = q.ReadSetBegin()
	ok(e, "ReadSetBegin fails")
	sym.Assert(t == wt(kt) && m == n, "set header differs")
	t, t2, m, e := q.ReadMapBegin()
	ok(e, "ReadMapBegin fails")
	sym.Assert(m == n, "map size differs")
	sym.Assert(n == 0 && k == kCompact || t == wt(kt) && t2 == wt(et), "map types differ")
	sym.Assert(buf.Len() == 0, "bytes are left over")
	sym.Observe(m, byte(t), byte(t2))
	sym.Reach("end")
}

// C01_Elements: containers of every base type.
func C01_Elements() {
	g := &gen{k: kBin, leaves: allLeaves, lens: []int{0, 2}, width: sym.Bound(2, 3)}
	roundTrip(kBin, binW, binW, g.of(pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), 1), sentinel())
}

// C01_Tree: nested values.
func C01_Tree() {
	g := &gen{k: kBin, leaves: []thrift.TType{thrift.BOOL, thrift.I64, thrift.STRING}, nested: allNested, lens: []int{1}, width: 2}
	roundTrip(kBin, binW, binW, g.of(pick("root", allNested), sym.Bound(2, 3)), sentinel())
}
