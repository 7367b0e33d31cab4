package harness

import (
	"bytes"
	"io"
	"sym"
	"thrift"
)

// queue checks the operations of t against a queue of bytes. flushed: written bytes arrive only with the flush.
type queue struct {
	t       thrift.TTransport
	held    []byte // written, not yet flushed
	q       []byte // to be read
	flushed bool
}

func (q *queue) write() {
	b := sym.Bytes("b", sym.Size("size", 0, 3))
	n, e := q.t.Write(b)
	sym.Assert(e == nil && n == len(b), "Write fails or reports another count")
	if q.flushed {
		q.held = append(q.held, b...)
	} else {
		q.q = append(q.q, b...)
	}
	for i := range b { // the caller may reuse its buffer
		b[i] = 0
	}
}

func (q *queue) read() {
	b := make([]byte, sym.Size("read", 0, 3))
	n, e := q.t.Read(b)
	sym.Assert(n <= len(b) && n <= len(q.q), "Read reports more than there is")
	sym.Assert(string(b[:n]) == string(q.q[:n]), "Read delivers other bytes than were written")
	if len(q.q) > 0 && len(b) > 0 {
		sym.Assert(n > 0 && e == nil, "Read delivers nothing although there is something")
	}
	if len(q.q) == 0 && len(b) > 0 {
		sym.Assert(e != nil, "Read of nothing succeeds")
	}
	q.q = q.q[n:]
}

func (q *queue) readAll() {
	b := make([]byte, sym.Size("read", 0, 3))
	n, e := q.t.ReadAll(b)
	if len(b) <= len(q.q) {
		sym.Assert(n == len(b) && e == nil, "ReadAll fails although there is enough")
		sym.Assert(string(b) == string(q.q[:n]), "ReadAll delivers other bytes than were written")
		q.q = q.q[n:]
	} else {
		sym.Assert(e != nil, "ReadAll succeeds although there is too little")
		sym.Assume(false) // (what is left then is not stated)
	}
}

func (q *queue) flush() {
	sym.Assert(q.t.Flush() == nil, "Flush fails")
	q.q = append(q.q, q.held...)
	q.held = nil
}

// C16_Memory: any operations of a memory buffer.
func C16_Memory() {
	var m *thrift.TMemoryBuffer
	switch sym.Choose("new", 4) {
	case 0:
		m = thrift.NewTMemoryBuffer()
	case 1:
		m = thrift.NewTMemoryBufferLen(sym.Size("capacity", 0, 3))
	case 2:
		m = thrift.NewTMemoryBufferTransportFactory(2).GetTransport([]thrift.TTransport{nil, thrift.NewTIOStreamTransportDefault()}[sym.Choose("given", 2)]).(*thrift.TMemoryBuffer)
	case 3:
		old := thrift.NewTMemoryBufferLen(3)
		old.Write([]byte{1, 2})
		m = thrift.NewTMemoryBufferTransportFactory(2).GetTransport(old).(*thrift.TMemoryBuffer)
	}
	q := &queue{t: m}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 11) {
		case 0:
			q.write()
		case 1:
			q.read()
		case 2:
			q.readAll()
		case 3:
			q.flush()
		case 4:
			m.Reset()
			q.q = nil
		case 5:
			sym.Assert(m.Close() == nil, "Close fails")
			q.q = nil
		case 6:
			c, e := m.ReadByte()
			if len(q.q) > 0 {
				sym.Assert(e == nil && c == q.q[0], "ReadByte delivers another byte than was written")
				q.q = q.q[1:]
			} else {
				sym.Assert(e != nil, "ReadByte of nothing succeeds")
			}
		case 7:
			s := sym.String("s", sym.Size("size", 0, 2))
			k, e := m.WriteString(s)
			sym.Assert(k == len(s) && e == nil, "WriteString fails or reports another count")
			q.q = append(q.q, s...)
		case 8:
			d := sym.Bytes("d", sym.Size("size", 0, 2))
			k, e := m.ReadFrom(bytes.NewReader(d))
			sym.Assert(k == int64(len(d)) && e == nil, "ReadFrom fails or reports another count")
			q.q = append(q.q, d...)
		case 9:
			var w bytes.Buffer
			k, e := m.WriteTo(&w)
			sym.Assert(k == int64(len(q.q)) && e == nil, "WriteTo fails or reports another count")
			sym.Assert(w.String() == string(q.q), "WriteTo writes other bytes than were written")
			q.q = nil
		case 10:
			sym.Assert(m.Open() == nil && m.IsOpen() && m.Peek(), "a memory buffer is not open")
		}
		sym.Assert(m.Len() == len(q.q), "Len differs")
		sym.Assert(string(m.Bytes()) == string(q.q) && m.String() == string(q.q), "the content differs")
	}
	sym.Reach("end")
}

// rw is a reader and writer over a buffer.
type rw struct {
	bytes.Buffer
	flushes, closes int
	err             error
}

// C16_Stream: any operations of a stream transport over a buffer.
func C16_Stream() {
	under := &rw{}
	q := &queue{}
	kind := sym.Choose("kind", 6)
	switch kind {
	case 0:
		q.t = thrift.NewTIOStreamTransportRW(under)
	case 1:
		q.t = thrift.NewTIOStreamTransportRAndW(under, under)
		q.flushed = true
	case 2:
		q.t = thrift.NewTIOStreamTransportFactory(under, under, true).GetTransport(another(under))
	case 3:
		q.t = thrift.NewTIOStreamTransportFactory(under, under, false).GetTransport(another(under))
		q.flushed = true
	case 4:
		q.t = thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(thrift.NewTIOStreamTransportRW(under))
	case 5:
		q.t = thrift.NewTIOStreamTransportFactory(nil, nil, true).GetTransport(thrift.NewTIOStreamTransportRAndW(under, under))
		q.flushed = true
	}
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			q.write()
		case 1:
			q.read()
		case 2:
			q.readAll()
		case 3:
			q.flush()
		}
	}
	sym.Assert(q.t.Open() == nil && q.t.IsOpen() && q.t.Peek(), "a stream is not open")
	sym.Reach("end")
}

// C16_OneWay: streams that only read, only write, or do neither.
func C16_OneWay() {
	under := &rw{}
	var t thrift.TTransport
	var r, w bool
	switch sym.Choose("kind", 9) {
	case 0:
		t, r = thrift.NewTIOStreamTransportR(under), true
	case 1:
		t, w = thrift.NewTIOStreamTransportW(under), true
	case 2:
		t = thrift.NewTIOStreamTransportDefault()
	case 3:
		t, r = thrift.NewTIOStreamTransportFactory(under, nil, false).GetTransport(nil), true
	case 4:
		t, w = thrift.NewTIOStreamTransportFactory(nil, under, false).GetTransport(nil), true
	case 5:
		t = thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(nil)
	case 6:
		s := thrift.NewTIOStreamTransportRAndW(under, under)
		sym.Assert(s.Close() == nil, "Close fails")
		t = s
	case 7:
		t, r = thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(thrift.NewTIOStreamTransportR(under)), true
	case 8:
		t, w = thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(thrift.NewTIOStreamTransportW(under)), true
	}
	d := sym.Bytes("b", 3)
	if r {
		under.Write(d)
	}
	for i := 0; i < 2; i++ {
		b := append([]byte(nil), d[:sym.Size("size", 0, 2)]...)
		switch sym.Choose("op", 3) {
		case 0:
			n, e := t.Write(b)
			if w {
				sym.Assert(n == len(b) && e == nil, "Write fails")
			} else {
				sym.Assert(n == 0, "a stream without a writer writes")
				notOpen(e, "Write without a writer is not a NOT_OPEN error")
			}
		case 1:
			n, e := t.Read(b)
			if r {
				sym.Assert(n <= len(b) && (e == nil || n == 0), "Read fails")
			} else {
				sym.Assert(n == 0, "a stream without a reader reads")
				notOpen(e, "Read without a reader is not a NOT_OPEN error")
			}
		case 2:
			e := t.Flush()
			if w {
				sym.Assert(e == nil, "Flush fails")
			} else {
				notOpen(e, "Flush without a writer is not a NOT_OPEN error")
			}
		}
	}
	sym.Reach("end")
}

// flushing is a writer that can be flushed and closed.
type flushing struct {
	rw
}

func (f *flushing) Flush() error { f.flushes++; return f.err }
func (f *flushing) Close() error { f.closes++; return f.err }

// C16_Below: flushes and closes reach what is below and their errors come back.
func C16_Below() {
	f := &flushing{}
	if sym.Choose("fails", 2) == 1 {
		f.err = errBroken
	}
	t := thrift.NewTIOStreamTransportRW(f)
	sym.Assert((t.Flush() == nil) == (f.err == nil) && f.flushes == 1, "Flush does not reach the writer, or hides its error")
	t.Write([]byte{1})
	sym.Assert(t.Close() == nil && f.closes == 1, "Close does not close the stream once")
	_, e := t.Read(make([]byte, 1))
	notOpen(e, "Read of a closed stream is not a NOT_OPEN error")
	sym.Reach("end")
}

// broken fails on the n-th write.
type broken struct {
	bytes.Buffer
	n int
}

func (b *broken) Write(d []byte) (int, error) {
	b.n--
	if b.n == 0 {
		return 0, errBroken
	}
	return b.Buffer.Write(d)
}

// C16_Errors: a stream whose reader or writer fails says so, at the latest when flushed.
func C16_Errors() {
	if sym.Choose("side", 2) == 0 {
		w := &broken{n: 1 + sym.Choose("fail", 2)}
		var t thrift.TTransport = thrift.NewTIOStreamTransportW(w)
		if sym.Choose("kind", 2) == 1 {
			t = thrift.NewTIOStreamTransportRW(struct {
				io.Reader
				io.Writer
			}{nil, w})
		}
		var want []byte
		for i := 0; i < 3; i++ {
			b := sym.Bytes("b", sym.Size("size", 1, 2))
			n, e := t.Write(b)
			if e == nil {
				sym.Assert(n == len(b), "Write succeeds in part")
				want = append(want, b...)
				e = t.Flush()
			}
			sym.Assert((e != nil) == (w.n == 0), "a failed write is not reported, or a good one is")
			if e != nil {
				break
			}
			sym.Assert(w.String() == string(want), "other bytes than were written arrive")
		}
	} else {
		d := sym.Bytes("b", sym.Choose("stream", 3))
		p := newPieces(append([]byte(nil), d...))
		p.with = sym.Choose("with", 2)
		if sym.Choose("err", 2) == 1 {
			p.err = errBroken
		}
		var t thrift.TTransport = thrift.NewTIOStreamTransportR(p)
		if sym.Choose("kind", 2) == 1 {
			t = thrift.NewTIOStreamTransportRW(struct {
				io.Reader
				io.Writer
			}{p, nil})
		}
		var got []byte
		for i := 0; i < 4; i++ {
			b := make([]byte, sym.Size("read", 1, 3))
			n, e := t.Read(b)
			got = append(got, b[:n]...)
			sym.Assert(string(got) == string(d[:len(got)]), "other bytes are read than the stream holds")
			if e != nil {
				sym.Assert(len(got) == len(d), "Read fails although there is more")
				te, is := e.(thrift.TTransportException)
				sym.Assert(is && (te.TypeId() == thrift.END_OF_FILE) == (p.err == io.EOF), "the end of the stream is reported as another kind of error")
				break
			}
			sym.Assert(i < 3, "the end of the stream is not reported")
		}
	}
	sym.Reach("end")
}

// C16_Long: thousands of bytes in writes of different sizes.
func C16_Long() {
	n := []int{511, 512, 513, 4095, 4096, 4097, 9000}[sym.Choose("size", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7 * i)
	}
	b[n-1] = sym.Byte("last")
	under := &rw{}
	var t thrift.TTransport
	switch sym.Choose("kind", 4) {
	case 0:
		t = thrift.NewTMemoryBuffer()
	case 1:
		t = thrift.NewTMemoryBufferLen(600)
	case 2:
		t = thrift.NewTIOStreamTransportRW(under)
	case 3:
		t = thrift.NewTIOStreamTransportRAndW(under, under)
	}
	cut := []int{0, 1, 500, n}[sym.Choose("cut", 4)]
	t.Write(b[:cut])
	t.Write(b[cut:])
	sym.Assert(t.Flush() == nil, "Flush fails")
	got := make([]byte, n)
	at := []int{0, 1, 510, n}[sym.Choose("at", 4)]
	_, e := t.ReadAll(got[:at])
	sym.Assert(e == nil, "ReadAll fails")
	_, e = t.ReadAll(got[at:])
	sym.Assert(e == nil, "ReadAll fails")
	sym.Assert(string(got) == string(b), "other bytes are read than were written")
	_, e = t.Read(got[:1])
	sym.Assert(e != nil, "there is more to read than was written")
	sym.Reach("end")
}

// another is nothing, or a transport that a factory of streams is not for.
func another(under *rw) thrift.TTransport {
	switch sym.Choose("given", 3) {
	case 1:
		return thrift.NewTMemoryBuffer()
	case 2:
		return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportR(under))
	}
	return nil
}
