package harness

import (
	"errors"
	"sym"
	"thrift"
)

// bytesOf is what writing v produces.
func bytesOf(k int, v *val) []byte {
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	return append([]byte(nil), buf.Bytes()...)
}

// C09_Truncated: whatever is missing at the end of a value, Skip fails.
func C09_Truncated() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.I16, thrift.BINARY}, nested: allNested, lens: []int{2}, width: 1, digits: true, ascii: true}
	v := g.of(g.typ(2), sym.Bound(2, 3))
	if k == kJSON { // (the text of a number has no end of its own)
		sym.Assume(v.t != thrift.I16)
	}
	b := bytesOf(k, v)
	cut(k, v, b)
}

func cut(k int, v *val, b []byte) {
	n := sym.Choose("cut", len(b))
	buf := thrift.NewTMemoryBuffer()
	buf.Write(b[:n])
	e := skip(mk(k, buf), v.t, v.depth())
	sym.Assert(e != nil, "Skip of a truncated value succeeds")
	sym.Reach("end")
}

// C09_TruncatedScalar: every base type.
func C09_TruncatedScalar() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: allLeaves, lens: []int{1, 3}, digits: k == kJSON, ascii: k == kJSON}
	v := g.of(g.typ(0), 0)
	if k == kJSON {
		v = &val{t: thrift.LIST, et: v.t, kids: []*val{v}}
		if sym.Choose("in", 2) == 1 {
			v = &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{v}}
		}
	}
	cut(k, v, bytesOf(k, v))
}

// failAt is a transport that delivers data and then fails for good, with any error.
type failAt struct {
	*thrift.TMemoryBuffer
	left  int
	err   error
	calls int
}

func (f *failAt) Read(b []byte) (int, error) {
	f.calls++
	if len(b) > f.left {
		b = b[:f.left]
	}
	if len(b) == 0 {
		return 0, f.err
	}
	n, e := f.TMemoryBuffer.Read(b)
	f.left -= n
	return n, e
}

func (f *failAt) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(f, b) }

var errBroken = errors.New("broken")

// C09_Failing: a transport that fails inside the value.
func C09_Failing() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: true}
	v := g.of(pick("root", allNested), sym.Bound(2, 3))
	b := bytesOf(k, v)
	f := &failAt{TMemoryBuffer: thrift.NewTMemoryBuffer(), left: sym.Choose("fail", len(b)), err: errBroken}
	if sym.Choose("err", 2) == 1 {
		f.err = thrift.NewTTransportException(thrift.TIMED_OUT, "slow")
	}
	f.Write(b)
	e := skip(mk(k, f), v.t, v.depth())
	sym.Assert(e != nil, "Skip succeeds although the transport failed inside the value")
	sym.Assert(f.calls <= len(b)+2, "Skip goes on reading after a failure")
	sym.Reach("end")
}

// C09_Depth: a value nested deeper than the limit is refused, one within it is not.
func C09_Depth() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL}, nested: allNested, width: 1}
	v := g.of(g.typ(2), 2)
	if sym.Choose("deeper", 2) == 1 {
		switch sym.Choose("wrap", 5) {
		case 0:
			v = &val{t: thrift.LIST, et: v.t, kids: []*val{v}}
		case 1:
			v = &val{t: thrift.SET, et: v.t, kids: []*val{v}}
		case 2:
			v = &val{t: thrift.MAP, kt: v.t, et: thrift.BOOL, kids: []*val{v, {t: thrift.BOOL}}}
		case 3:
			v = &val{t: thrift.MAP, kt: thrift.BOOL, et: v.t, kids: []*val{{t: thrift.BOOL}, v}}
		case 4:
			v = &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{v}}
		}
	}
	if k == kJSON {
		v = &val{t: thrift.LIST, et: v.t, kids: []*val{v}}
	}
	limit := sym.Int("limit")
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	var e thrift.TProtocolException
	if sym.Choose("how", 2) == 0 {
		e = thrift.Skip(mk(k, buf), v.t, limit)
	} else {
		old := thrift.MaxSkipDepth
		thrift.SetMaxSkipDepth(limit)
		sym.Assert(thrift.MaxSkipDepth == limit, "SetMaxSkipDepth sets another limit")
		e = mk(k, buf).Skip(v.t)
		thrift.SetMaxSkipDepth(old)
	}
	if limit >= v.depth() {
		ok(e, "a value within the depth limit is refused")
	} else {
		sym.Assert(e != nil, "a value deeper than the limit is skipped")
	}
	sym.Reach("end")
}

// C09_Bytes: for any bytes, a Skip that succeeds leaves what reading the value would leave.
func C09_Bytes() {
	k := sym.Choose("protocol", 2)
	n := sym.Range("len", 0, sym.Bound(4, 6))
	b := sym.Bytes("in", n)
	in := thrift.NewTMemoryBuffer()
	in.Write(b)
	t := pick("type", []thrift.TType{thrift.BOOL, thrift.I16, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.LIST, thrift.MAP, thrift.STRUCT})
	sym.MaxAlloc(64)
	w, st := extent(k, t, b, 3)
	e := thrift.Skip(mk(k, in), t, 3)
	switch st {
	case good:
		ok(e, "Skip of a well-formed value fails")
		sym.Assert(in.Len() == n-w, "Skip consumes another number of bytes than the value has")
	case bad:
		sym.Assert(e != nil, "Skip of a malformed value succeeds")
	}
	sym.Reach("end")
}

// C09_Unknown: a type that cannot be on the wire is refused.
func C09_Unknown() {
	k := typed[sym.Choose("protocol", 3)]
	t := sym.Byte("type")
	for _, x := range allTypes {
		sym.Assume(t != byte(x))
	}
	sym.Assume(t != thrift.STOP)
	buf := thrift.NewTMemoryBuffer()
	buf.Write([]byte{1, 2, 3, 4})
	sym.Assert(mk(k, buf).Skip(thrift.TType(t)) != nil, "Skip of a value of an unknown type succeeds")
	sym.Assert(buf.Len() == 4, "Skip of a value of an unknown type consumes bytes")
	sym.Reach("end")
}
