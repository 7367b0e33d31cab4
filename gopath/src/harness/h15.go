package harness

import (
	"io"
	"sym"
	"thrift"
)

// scripted is an input transport that delivers at most the given numbers of bytes, then the rest as asked.
type scripted struct {
	thrift.TTransport
	b    []byte
	cuts []int // positions no read goes across
	each int   // largest read (0: any)
	pos  int
	with int
}

func (s *scripted) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos == len(s.b) {
		return 0, io.EOF
	}
	n := len(s.b) - s.pos
	if n > len(b) {
		n = len(b)
	}
	if s.each > 0 && n > s.each {
		n = s.each
	}
	for _, c := range s.cuts {
		if s.pos < c && c < s.pos+n {
			n = c - s.pos
		}
	}
	copy(b, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.b) && s.with == 1 {
		return n, io.EOF
	}
	return n, nil
}

func (s *scripted) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(s, b) }

// arrives makes a transport that delivers b somehow.
func arrives(b []byte) *scripted {
	s := &scripted{TTransport: thrift.NewTMemoryBuffer(), b: b}
	switch sym.Choose("arrival", 4) {
	case 0:
		s.each = 1
	case 1:
		s.each = sym.Range("each", 2, 3)
	case 2:
		s.with = 1
	case 3:
		s.cuts = []int{1 + sym.Choose("cut", len(b))}
	}
	return s
}

func twoMessages(k int, v *val, around func(thrift.TTransport) thrift.TTransport) []byte {
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	for i := 0; i < 2; i++ {
		written(p, true, v, ok)
		ok(p.Flush(), "Flush fails")
	}
	return append([]byte(nil), buf.Bytes()...)
}

func readTwo(k int, in thrift.TTransport, v *val) {
	q := mk(k, in)
	for i := 0; i < 2; i++ {
		name, t, id, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails")
		sym.Assert(name == "ab" && t == thrift.CALL && id == 7, "the message header differs")
		check(k, q, v)
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	}
	sym.Reach("end")
}

// C15_Leaf: messages with a base value of any content.
func C15_Leaf() {
	k := sym.Choose("protocol", 4)
	g := &gen{k: k, leaves: allLeaves, lens: []int{0, 2}, digits: k >= kJSON, ascii: k >= kJSON}
	v := g.of(g.typ(0), 0)
	s := &val{t: thrift.STRUCT, ids: []int16{3}, names: []string{"f"}, kids: []*val{v}}
	readTwo(k, arrives(twoMessages(k, s, nil)), s)
}

// C15_Nested: messages with containers and structs.
func C15_Nested() {
	k := sym.Choose("protocol", 4)
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.I16, thrift.STRING}, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: true}
	v := g.of(pick("root", allNested), sym.Bound(1, 2))
	readTwo(k, arrives(twoMessages(k, v, nil)), v)
}

// C15_Sample: a message cut at any two places.
func C15_Sample() {
	k := sym.Choose("protocol", 4)
	v, b := sampleMessage(k)
	i := sym.Choose("first", len(b))
	j := i
	if !sym.Thorough() {
		j = i + 1 + sym.Choose("second", 4)
	} else {
		j = sym.Range("second", i, len(b)-1)
	}
	s := &scripted{TTransport: thrift.NewTMemoryBuffer(), b: b, cuts: []int{i, j}, with: sym.Choose("with", 2)}
	q := mk(k, s)
	name, t, id, e := q.ReadMessageBegin()
	ok(e, "ReadMessageBegin fails")
	sym.Assert(name == "m" && t == 1 && id == 2, "the message header differs")
	check(k, q, v)
	ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	sym.Reach("end")
}

// C15_Any: every way of delivering a short value.
func C15_Any() {
	k := sym.Choose("protocol", 2)
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.I32, thrift.STRING}, nested: []thrift.TType{thrift.LIST, thrift.STRUCT}, lens: []int{2}, width: 1}
	v := g.of(g.typ(1), 1)
	if k == kCompact && v.t == thrift.I32 {
		sym.Assume(v.i > -1000 && v.i < 1000)
	}
	p := newPieces(bytesOf(k, v))
	p.with = sym.Choose("with", 2)
	p.most = sym.Bound(3, 0)
	check(k, mk(k, p), v)
	sym.Assert(len(p.b) == 0, "bytes are left over")
	sym.Reach("end")
}

// outcome reads a value of type t and describes it.
func outcome(k int, in thrift.TTransport, t thrift.TType) (v val, e thrift.TProtocolException) {
	p := mk(k, in)
	switch t {
	case thrift.BOOL:
		v.b, e = p.ReadBool()
	case thrift.I16:
		v.h, e = p.ReadI16()
	case thrift.I64:
		v.l, e = p.ReadI64()
	case thrift.DOUBLE:
		v.d, e = p.ReadDouble()
	case thrift.STRING:
		v.s, e = p.ReadString()
	case thrift.BINARY:
		v.x, e = p.ReadBinary()
	case thrift.LIST:
		var n int
		v.et, n, e = p.ReadListBegin()
		v.l = int64(n)
	case thrift.MAP:
		var n int
		v.kt, v.et, n, e = p.ReadMapBegin()
		v.l = int64(n)
	case thrift.STRUCT:
		if _, e = p.ReadStructBegin(); e == nil {
			v.s, v.t, v.h, e = p.ReadFieldBegin()
		}
	}
	return
}

// C15_Bytes: any bytes, well-formed or not, give the same whether they come at once or in pieces.
func C15_Bytes() {
	k := sym.Choose("protocol", 4)
	n := sym.Bound(5, 6)
	if k <= kCompact {
		n = sym.Bound(7, 10)
	}
	n = sym.Range("len", 1, n)
	b, whole := anyInput(n)
	sym.MaxAlloc(64)
	if k >= kJSON {
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
	}
	t := pick("type", []thrift.TType{thrift.BOOL, thrift.I16, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY, thrift.LIST, thrift.MAP, thrift.STRUCT})
	v, e := outcome(k, whole, t)
	in := arrives(append([]byte(nil), b...))
	w, f := outcome(k, in, t)
	sym.Assert((e == nil) == (f == nil), "the same bytes are refused or accepted depending on how they arrive")
	if e == nil && f == nil {
		sym.Assert(v.b == w.b && v.h == w.h && v.l == w.l && sameDouble(v.d, w.d) && v.s == w.s && string(v.x) == string(w.x) && v.t == w.t && v.kt == w.kt && v.et == w.et, "the same bytes are read as something else when they arrive differently")
	}
	sym.Reach("end")
}
