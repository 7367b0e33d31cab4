package harness

import (
	"errors"
	"sym"
	"thrift"
)

// failOp is an output transport whose op-th write or flush fails, after accepting part of the bytes.
type failOp struct {
	thrift.TTransport // (no other methods of the buffer)
	buf               *thrift.TMemoryBuffer
	op, n             int // the operation that fails, operations so far
	part              int // how much of the failing write is accepted (0: nothing, 1: one byte, 2: all but one)
	failed            int
	flushes           int
}

func newFailOp(op int) *failOp {
	b := thrift.NewTMemoryBuffer()
	return &failOp{TTransport: b, buf: b, op: op}
}

func (f *failOp) fails() bool {
	f.n++
	if f.n == f.op {
		f.failed++
		return true
	}
	return false
}

func (f *failOp) Write(b []byte) (int, error) {
	if f.fails() {
		n := 0
		if f.part == 1 && len(b) > 1 {
			n = 1
		} else if f.part == 2 && len(b) > 1 {
			n = len(b) - 1
		}
		f.buf.Write(b[:n])
		return n, errBroken
	}
	return f.buf.Write(b)
}

func (f *failOp) Flush() error {
	f.flushes++
	if f.fails() {
		return errBroken
	}
	return nil
}

// written makes the writer calls of a message around v, and the flush at its end.
func written(p thrift.TProtocol, msg bool, v *val, ok func(thrift.TProtocolException, string)) {
	if msg {
		ok(p.WriteMessageBegin("ab", thrift.CALL, 7), "WriteMessageBegin fails")
	}
	writeTo(p, v, ok)
	if msg {
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	}
}

func failing(k int, msg bool, v *val) {
	failingCalls(k, func(p thrift.TProtocol, ok func(thrift.TProtocolException, string)) { written(p, msg, v, ok) })
}

func failingCalls(k int, calls func(thrift.TProtocol, func(thrift.TProtocolException, string))) {
	all := newFailOp(-1)
	p := mk(k, all)
	calls(p, ok)
	ok(p.Flush(), "Flush fails")
	want := append([]byte(nil), all.buf.Bytes()...)

	f := newFailOp(1 + sym.Choose("op", all.n+1))
	f.part = sym.Choose("part", 3)
	p = mk(k, f)
	stopped := false
	each := func(e thrift.TProtocolException, what string) {
		if f.failed > 0 {
			sym.Assert(e != nil, "a writer call hides the failure of the transport")
			stopped = true
			sym.Reach("failed")
			panic(stop)
		}
		ok(e, what)
	}
	func() {
		defer func() {
			if r := recover(); r != nil && !stopped {
				panic(r)
			}
		}()
		calls(p, each)
		each(p.Flush(), "Flush fails")
	}()
	if !stopped {
		sym.Assert(string(f.buf.Bytes()) == string(want), "the transport gets other bytes")
	}
	sym.Reach("end")
}

var stop = errors.New("stop")

// C12_Write: any write or flush of any protocol fails, for containers and structs.
func C12_Write() {
	k := sym.Choose("protocol", 4)
	msg := sym.Choose("message", 2) == 1
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.I32, thrift.STRING}, nested: allNested, lens: []int{2}, width: 1, digits: true, ascii: true}
	failing(k, msg, g.of(pick("root", allNested), sym.Bound(1, 2)))
}

// C12_WriteLeaf: any write or flush of any protocol fails, for base values of any content.
func C12_WriteLeaf() {
	k := sym.Choose("protocol", 4)
	g := &gen{k: k, leaves: allLeaves, lens: []int{0, 1, 3}, digits: k >= kJSON, ascii: k >= kJSON}
	failing(k, false, g.of(g.typ(0), 0))
}

// anyHeader makes one writer call with arbitrary arguments: a message, a field or a container's begin.
func anyHeader(k int) func(thrift.TProtocol, func(thrift.TProtocolException, string)) {
	call := sym.Choose("call", 5)
	t, u := pick("type", allLeaves), pick("type", allNested)
	id, seq := sym.Int16("id"), sym.Int32("seq")
	n := sym.Int32("size")
	sym.Assume(n >= 0)
	if k >= kJSON {
		sym.Assume(id > -20 && id < 20)
		sym.Assume(seq > -20 && seq < 20)
		sym.Assume(n < 20)
	}
	b := sym.Bool("bool")
	return func(p thrift.TProtocol, ok func(thrift.TProtocolException, string)) {
		switch call {
		case 0:
			ok(p.WriteMessageBegin("ab", thrift.CALL, seq), "WriteMessageBegin fails")
		case 1:
			ok(p.WriteStructBegin("s"), "WriteStructBegin fails")
			ok(p.WriteFieldBegin("f", t, id), "WriteFieldBegin fails")
			if t == thrift.BOOL {
				ok(p.WriteBool(b), "WriteBool fails")
			}
		case 2:
			ok(p.WriteMapBegin(t, u, int(n)), "WriteMapBegin fails")
		case 3:
			ok(p.WriteListBegin(t, int(n)), "WriteListBegin fails")
		case 4:
			ok(p.WriteSetBegin(u, int(n)), "WriteSetBegin fails")
		}
	}
}

// C12_WriteHeader: any write fails of a message, field or container header with any id, sequence id and size.
func C12_WriteHeader() {
	k := sym.Choose("protocol", 4)
	failingCalls(k, anyHeader(k))
}

// C12_ReadHeader: any read fails of such a header, with the binary and compact protocols.
func C12_ReadHeader() {
	k := sym.Choose("protocol", 2)
	calls := anyHeader(k)
	f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	calls(mk(k, f), ok)
	f.left = sym.Choose("fail", f.Len())
	p := mk(k, f)
	var e thrift.TProtocolException
	switch sym.Choose("reader", 5) {
	case 0:
		_, _, _, e = p.ReadMessageBegin()
	case 1:
		p.ReadStructBegin()
		_, _, _, e = p.ReadFieldBegin()
	case 2:
		_, _, _, e = p.ReadMapBegin()
	case 3:
		_, _, e = p.ReadListBegin()
	case 4:
		_, _, e = p.ReadSetBegin()
	}
	sym.Assert(f.failed == 0 || e != nil, "a reader call hides the failure of the transport")
	sym.Reach("end")
}

// C12_WriteLong: output beyond the size of the writer's buffer.
func C12_WriteLong() {
	k := sym.Choose("protocol", 4)
	long := make([]byte, 5000)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	v := &val{t: thrift.LIST, et: thrift.STRING, kids: []*val{{t: thrift.STRING, s: string(long)}, {t: thrift.STRING, s: "b"}}}
	if sym.Choose("type", 2) == 1 {
		v = &val{t: thrift.LIST, et: thrift.BINARY, kids: []*val{{t: thrift.BINARY, x: long}, {t: thrift.BINARY, x: long[:4]}}}
	}
	failing(k, false, v)
}

// failOnce is an input transport that fails once, and then goes on.
type failOnce struct {
	*thrift.TMemoryBuffer
	left, failed, calls int
}

func (f *failOnce) Read(b []byte) (int, error) {
	f.calls++
	if f.left == 0 {
		f.left = 1 << 30
		f.failed++
		return 0, errBroken
	}
	if len(b) > f.left {
		b = b[:f.left]
	}
	n, e := f.TMemoryBuffer.Read(b)
	f.left -= n
	return n, e
}

func (f *failOnce) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(f, b) }

// C12_Read: a read fails once, wherever; with the binary and compact protocols the very call reports it.
func C12_Read() {
	k := sym.Choose("protocol", 2)
	g := &gen{k: k, leaves: allLeaves, nested: allNested, lens: []int{2}, width: 1}
	if !sym.Thorough() {
		g.leaves = []thrift.TType{thrift.BOOL, thrift.I16, thrift.DOUBLE, thrift.BINARY}
	}
	v := g.of(g.typ(1), sym.Bound(1, 2))
	msg := sym.Choose("message", 2) == 1
	f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	written(mk(k, f), msg, v, ok)
	f.left = sym.Choose("fail", f.Len())
	seen := 0
	p := &watched{TProtocol: mk(k, f), after: func(e thrift.TProtocolException) {
		if f.failed > seen {
			sym.Assert(e != nil, "a reader call hides the failure of the transport")
		} else {
			ok(e, "a reader call fails although the transport did not")
		}
		seen = f.failed
	}}
	var e thrift.TProtocolException
	if msg {
		e = message(p, v)
	} else {
		e = tree(p, v)
	}
	sym.Assert(e != nil, "the failure of the transport is not reported")
	sym.Reach("end")
}

// C12_ReadLeaf: base values of any content.
func C12_ReadLeaf() {
	k := sym.Choose("protocol", 2)
	g := &gen{k: k, leaves: allLeaves, lens: []int{1, 3}}
	v := g.of(g.typ(0), 0)
	f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	write(mk(k, f), v)
	f.left = sym.Choose("fail", f.Len())
	sym.Assert(tree(mk(k, f), v) != nil, "the failure of the transport is not reported")
	sym.Reach("end")
}

// C12_ReadJSON: a read fails for good before the end of a JSON text: reported. It fails once: reported, or
// the value is read as written.
func C12_ReadJSON() {
	k := jsonKind()
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: true}
	v := g.of(pick("root", allNested), sym.Bound(1, 2))
	b := bytesOf(k, v)
	if sym.Choose("once", 2) == 0 {
		f := &failAt{TMemoryBuffer: thrift.NewTMemoryBuffer(), left: sym.Choose("fail", len(b)), err: errBroken}
		f.Write(b)
		sym.Assert(tree(mk(k, f), v) != nil, "the failure of the transport is not reported")
		sym.Assert(f.calls <= len(b)+2, "reading goes on after a failure")
	} else {
		f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer(), left: sym.Choose("fail", len(b))}
		f.Write(b)
		if tree(mk(k, f), v) == nil {
			sym.Assert(f.Len() == 0, "a value is read from part of its text")
		}
	}
	sym.Reach("end")
}

// C12_Reader: a reader that WriteBinaryFromReader copies from ends early or fails.
func C12_Reader() {
	f := &failAt{TMemoryBuffer: thrift.NewTMemoryBuffer(), left: sym.Choose("left", 4), err: errBroken}
	b := sym.Bytes("b", 4)
	f.Write(b)
	want := f.left
	out := newFailOp(-1)
	n := sym.Choose("size", 5)
	p := thrift.NewTBinaryProtocol(out, true, true)
	e := p.WriteBinaryFromReader(f, n)
	sym.Assert((e == nil) == (n <= want), "WriteBinaryFromReader succeeds without its bytes, or fails with them")
	if e == nil {
		r, e := thrift.NewTBinaryProtocol(out.buf, true, true).ReadBinary()
		ok(e, "ReadBinary fails")
		sym.Assert(string(r) == string(b[:n]), "WriteBinaryFromReader writes other bytes")
	}
	sym.Reach("end")
}

// watched hands the outcome of every reader call to after.
type watched struct {
	thrift.TProtocol
	after func(thrift.TProtocolException)
}

func (w *watched) ReadMessageBegin() (name string, t thrift.TMessageType, id int32, e thrift.TProtocolException) {
	name, t, id, e = w.TProtocol.ReadMessageBegin()
	w.after(e)
	return
}

func (w *watched) ReadMessageEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadMessageEnd()
	w.after(e)
	return
}

func (w *watched) ReadStructBegin() (name string, e thrift.TProtocolException) {
	name, e = w.TProtocol.ReadStructBegin()
	w.after(e)
	return
}

func (w *watched) ReadStructEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadStructEnd()
	w.after(e)
	return
}

func (w *watched) ReadFieldBegin() (name string, t thrift.TType, id int16, e thrift.TProtocolException) {
	name, t, id, e = w.TProtocol.ReadFieldBegin()
	w.after(e)
	return
}

func (w *watched) ReadFieldEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadFieldEnd()
	w.after(e)
	return
}

func (w *watched) ReadMapBegin() (k, v thrift.TType, n int, e thrift.TProtocolException) {
	k, v, n, e = w.TProtocol.ReadMapBegin()
	w.after(e)
	return
}

func (w *watched) ReadMapEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadMapEnd()
	w.after(e)
	return
}

func (w *watched) ReadListBegin() (t thrift.TType, n int, e thrift.TProtocolException) {
	t, n, e = w.TProtocol.ReadListBegin()
	w.after(e)
	return
}

func (w *watched) ReadListEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadListEnd()
	w.after(e)
	return
}

func (w *watched) ReadSetBegin() (t thrift.TType, n int, e thrift.TProtocolException) {
	t, n, e = w.TProtocol.ReadSetBegin()
	w.after(e)
	return
}

func (w *watched) ReadSetEnd() (e thrift.TProtocolException) {
	e = w.TProtocol.ReadSetEnd()
	w.after(e)
	return
}

func (w *watched) ReadBool() (v bool, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadBool()
	w.after(e)
	return
}

func (w *watched) ReadByte() (v byte, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadByte()
	w.after(e)
	return
}

func (w *watched) ReadI16() (v int16, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadI16()
	w.after(e)
	return
}

func (w *watched) ReadI32() (v int32, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadI32()
	w.after(e)
	return
}

func (w *watched) ReadI64() (v int64, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadI64()
	w.after(e)
	return
}

func (w *watched) ReadDouble() (v float64, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadDouble()
	w.after(e)
	return
}

func (w *watched) ReadString() (v string, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadString()
	w.after(e)
	return
}

func (w *watched) ReadBinary() (v []byte, e thrift.TProtocolException) {
	v, e = w.TProtocol.ReadBinary()
	w.after(e)
	return
}
