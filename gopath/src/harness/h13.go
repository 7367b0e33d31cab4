package harness

import (
	"errors"
	"io"
	"sym"
	"thrift"
)

// pieces is an input transport (and io.Reader) that delivers data in pieces of any size.
type pieces struct {
	thrift.TTransport
	b     []byte
	most  int   // largest piece
	err   error // what the end of the data returns
	with  int   // 1: the last piece comes together with the error
	idle  int   // reads that may deliver nothing, without an error
	reads int
}

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	if len(b) == 0 {
		return 0, nil
	}
	if p.idle > 0 && sym.Choose("idle", 2) == 1 {
		p.idle--
		return 0, nil
	}
	if len(p.b) == 0 {
		return 0, p.err
	}
	n := len(p.b)
	if n > len(b) {
		n = len(b)
	}
	if p.most > 0 && n > p.most {
		n = p.most
	}
	n = sym.Size("piece", 1, n)
	copy(b, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.with == 1 {
		return n, p.err
	}
	return n, nil
}

func (p *pieces) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(p, b) }

func newPieces(b []byte) *pieces {
	return &pieces{TTransport: thrift.NewTMemoryBuffer(), b: b, err: io.EOF}
}

// C13_Write: any writes and flushes: every flush yields one frame of what was written since the last.
func C13_Write() {
	out := newFailOp(-1)
	f := thrift.NewTFramedTransport(out)
	var want, frame []byte
	n := sym.Bound(4, 6)
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 2) {
		case 0:
			b := sym.Bytes("b", sym.Size("size", 0, 3))
			m, e := f.Write(b)
			sym.Assert(e == nil && m == len(b), "Write to a frame fails or reports another count")
			frame = append(frame, b...)
			sym.Assert(string(out.buf.Bytes()) == string(want), "bytes are sent before the flush")
		case 1:
			before := out.n
			sym.Assert(f.Flush() == nil, "Flush fails")
			want = append(append(want, be(nil, uint64(len(frame)), 4)...), frame...)
			frame = nil
			sym.Assert(string(out.buf.Bytes()) == string(want), "Flush sends something else than one frame")
			sym.Assert(out.flushes > 0 && out.n > before, "Flush does not flush the transport")
			out.flushes = 0
		}
	}
	sym.Reach("end")
}

// C13_Long: a frame whose length takes several bytes, in several writes.
func C13_Long() {
	n := []int{255, 256, 1023, 1024, 1025, 65535, 65536, 70000}[sym.Choose("size", sym.Bound(6, 8))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	b[n-1] = sym.Byte("last")
	cut := []int{0, 1, 200, n}[sym.Choose("cut", 4)]
	out := newFailOp(-1)
	f := thrift.NewTFramedTransport(out)
	f.Write(b[:cut])
	f.Write(b[cut:])
	sym.Assert(f.Flush() == nil, "Flush fails")
	sym.Assert(string(out.buf.Bytes()) == string(append(be(nil, uint64(n), 4), b...)), "Flush sends something else than one frame")
	in := thrift.NewTFramedTransport(out.buf)
	got := make([]byte, n)
	m, e := in.ReadAll(got)
	sym.Assert(e == nil && m == n, "ReadAll of a frame fails")
	sym.Assert(string(got) == string(b), "a frame is read back differently")
	sym.Reach("end")
}

// C13_FlushFails: a failing write or flush of the transport below is reported.
func C13_FlushFails() {
	out := newFailOp(1 + sym.Choose("op", 4))
	out.part = sym.Choose("part", 3)
	f := thrift.NewTFramedTransport(out)
	b := sym.Bytes("b", sym.Size("size", 0, 3))
	f.Write(b)
	e := f.Flush()
	sym.Assert((e != nil) == (out.failed > 0), "a failed flush is not reported, or a good one is")
	sym.Reach("end")
}

// framesOf are frames of arbitrary content, and their payload.
func framesOf(n, most int) (frames, data []byte) {
	for i := 0; i < n; i++ {
		b := sym.Bytes("b", sym.Choose("size", most+1))
		frames = append(append(frames, be(nil, uint64(len(b)), 4)...), b...)
		data = append(data, b...)
	}
	return
}

// C13_Read: frames of any sizes read with reads of any sizes.
func C13_Read() {
	frames, data := framesOf(sym.Range("frames", 1, sym.Bound(2, 3)), 3)
	in := thrift.NewTMemoryBuffer()
	in.Write(frames)
	f := thrift.NewTFramedTransport(in)
	var got []byte
	empty := 0
	for i := 0; i < len(data)+2; i++ {
		b := make([]byte, sym.Size("read", 0, 3))
		if len(b) == 0 {
			empty++
			sym.Assume(empty < 2)
		}
		n, e := f.Read(b)
		sym.Assert(n <= len(b), "Read reports more than it was asked for")
		got = append(got, b[:n]...)
		if e != nil {
			sym.Assert(len(got) == len(data), "Read fails before the end of the frames")
			sym.Assert(n == 0 && len(b) > 0, "Read fails together with data, or when asked for nothing")
			te, is := e.(thrift.TTransportException)
			sym.Assert(is && te.TypeId() != thrift.NOT_OPEN, "the error is not a transport exception")
			break
		}
		sym.Assert(n > 0 || len(b) == 0, "Read delivers nothing and no error")
	}
	sym.Assert(string(got) == string(data[:len(got)]), "Read delivers other bytes than the frames hold")
	sym.Reach("end")
}

// C13_ReadAll: reads of a given size, across frames.
func C13_ReadAll() {
	frames, data := framesOf(sym.Range("frames", 1, 3), sym.Bound(2, 3))
	p := newPieces(frames)
	p.most = 2
	f := thrift.NewTFramedTransport(p)
	for {
		b := make([]byte, sym.Size("read", 1, 3))
		n, e := f.ReadAll(b)
		if len(b) > len(data) {
			sym.Assert(e != nil, "ReadAll succeeds although the frames are at their end")
			break
		}
		sym.Assert(e == nil && n == len(b), "ReadAll fails although the frames hold enough")
		sym.Assert(string(b) == string(data[:n]), "ReadAll delivers other bytes than the frames hold")
		data = data[n:]
	}
	sym.Reach("end")
}

// C13_Broken: frames cut short anywhere, or a transport that fails anywhere: the whole frames are delivered,
// then an error.
func C13_Broken() {
	n := sym.Range("frames", 1, 2)
	var frames, whole []byte
	starts := []int{0}
	var upto []int
	for i := 0; i < n; i++ {
		b := sym.Bytes("b", sym.Size("size", 0, 3))
		frames = append(append(frames, be(nil, uint64(len(b)), 4)...), b...)
		whole = append(whole, b...)
		starts = append(starts, len(frames))
		upto = append(upto, len(whole))
	}
	cut := sym.Choose("cut", len(frames))
	have := 0
	for i := range upto {
		if starts[i+1] <= cut {
			have = upto[i]
		}
	}
	p := newPieces(frames[:cut])
	if sym.Choose("err", 2) == 1 {
		p.err = errors.New("broken")
	}
	p.with = sym.Choose("with", 2)
	f := thrift.NewTFramedTransport(p)
	var got []byte
	failed := false
	for i := 0; i < have+3; i++ {
		b := make([]byte, 3)
		n, e := f.Read(b)
		got = append(got, b[:n]...)
		if e != nil {
			failed = true
			sym.Assert(n == 0, "data and an error at once")
		} else {
			sym.Assert(n > 0, "Read delivers nothing and no error")
			sym.Assert(!failed, "Read goes on after a broken frame")
		}
	}
	sym.Assert(failed, "a broken frame is not reported")
	sym.Assert(string(got) == string(whole[:have]), "other data than that of the whole frames is delivered")
	sym.Reach("end")
}

// C13_Fails: one read of the transport fails, and the transport goes on: what is delivered after the error is
// the rest of the data or nothing, and no frame goes missing without an error.
func C13_Fails() {
	in := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	a, b := sym.Bytes("a", sym.Size("size", 0, 3)), sym.Bytes("b", sym.Size("size", 1, 2))
	in.Write(append(append(be(nil, uint64(len(a)), 4), a...), append(be(nil, uint64(len(b)), 4), b...)...))
	in.left = sym.Choose("fail", in.Len())
	f := thrift.NewTFramedTransport(in)
	want := string(a) + string(b)
	var got []byte
	for i := 0; i < len(want)+1; i++ {
		r := make([]byte, sym.Size("read", 1, 3))
		n, e := f.Read(r)
		got = append(got, r[:n]...)
		if e != nil {
			sym.Assert(in.failed == 1, "Read fails although the transport did not")
			sym.Assert(n == 0, "data and an error at once")
			break
		}
		sym.Assert(n > 0, "Read delivers nothing and no error")
		sym.Assert(len(got) <= len(want), "more is delivered than there is")
		sym.Assert(string(got) == want[:len(got)], "other data than that of the frames is delivered")
	}
	sym.Assert(in.failed == 1, "the error of the transport is not reported")
	sym.Assert(string(got) == string(a)[:min(len(got), len(a))]+string(b)[:max(0, len(got)-len(a))], "other data than that of the frames is delivered")
	sym.Reach("end")
}

// lines is a transport that starts a new connection each time it is opened.
type lines struct {
	thrift.TTransport
	in   [][]byte // what the connections deliver
	out  [][]byte // what they were sent
	open bool
}

func (l *lines) Open() error {
	l.out = append(l.out, nil)
	l.open = true
	return nil
}
func (l *lines) IsOpen() bool { return l.open }
func (l *lines) Peek() bool   { return l.open }
func (l *lines) Close() error { l.open = false; return nil }
func (l *lines) Flush() error { return nil }
func (l *lines) Write(b []byte) (int, error) {
	if !l.open {
		return 0, errBroken
	}
	i := len(l.out) - 1
	l.out[i] = append(l.out[i], b...)
	return len(b), nil
}
func (l *lines) Read(b []byte) (int, error) {
	i := len(l.out) - 1
	if !l.open || len(l.in[i]) == 0 {
		return 0, io.EOF
	}
	n := copy(b, l.in[i])
	l.in[i] = l.in[i][n:]
	return n, nil
}
func (l *lines) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(l, b) }

// C13_Reopened: a framed transport is closed and opened again, with frames not read and data not flushed: the
// new connection is sent nothing of it, and what it delivers is read.
func C13_Reopened() {
	n := sym.Range("connections", 2, sym.Bound(2, 3))
	l := &lines{TTransport: thrift.NewTMemoryBuffer()}
	var data [][]byte
	for i := 0; i < n; i++ {
		b := sym.Bytes("b", sym.Size("size", 1, 3))
		data = append(data, b)
		frame := append(be(nil, uint64(len(b)), 4), b...)
		l.in = append(l.in, frame)
	}
	f := thrift.NewTFramedTransport(l)
	for i := 0; i < n; i++ {
		sym.Assert(f.Open() == nil && f.IsOpen(), "Open fails")
		w := sym.Bytes("w", sym.Size("written", 0, 2))
		m, e := f.Write(w)
		sym.Assert(e == nil && m == len(w), "Write fails")
		sent := ""
		if sym.Choose("flush", 2) == 1 {
			sym.Assert(f.Flush() == nil, "Flush fails")
			sent = string(append(be(nil, uint64(len(w)), 4), w...))
		}
		sym.Assert(string(l.out[i]) == sent, "a connection is sent something else than what was written to it")
		r := make([]byte, sym.Size("read", 0, len(data[i])))
		if len(r) > 0 {
			m, e = f.ReadAll(r)
			sym.Assert(e == nil && m == len(r), "ReadAll fails")
			sym.Assert(string(r) == string(data[i][:m]), "a connection delivers something else than its frames hold")
		}
		sym.Assert(f.Close() == nil && !f.IsOpen(), "Close fails")
		sym.Assert(string(l.out[i]) == sent, "Close sends what was not flushed")
	}
	sym.Reach("end")
}

// C13_Through: a message through framed transports, written and read with any protocol.
func C13_Through() {
	k := sym.Choose("protocol", 4)
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{2}, width: 1, ascii: true}
	v := g.of(pick("root", allNested), 1)
	buf := thrift.NewTMemoryBuffer()
	w := thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(buf)
	p := mk(k, w)
	for i := 0; i < 2; i++ {
		ok(p.WriteMessageBegin("m", thrift.REPLY, 5), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		ok(p.Flush(), "Flush fails")
	}
	q := mk(k, thrift.NewTFramedTransport(buf))
	for i := 0; i < 2; i++ {
		_, t, id, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails")
		sym.Assert(t == thrift.REPLY && id == 5, "the message header differs")
		check(k, q, v)
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	}
	sym.Reach("end")
}

// C13_State: opening, closing and asking are passed on.
func C13_State() {
	s := &state{TTransport: thrift.NewTMemoryBuffer(), open: sym.Bool("open"), peek: sym.Bool("peek")}
	if sym.Choose("fails", 2) == 1 {
		s.err = errBroken
	}
	f := thrift.NewTFramedTransport(s)
	sym.Assert(f.IsOpen() == s.open, "IsOpen differs from the transport below")
	sym.Assert(f.Peek() == s.peek, "Peek differs from the transport below")
	sym.Assert((f.Open() == nil) == (s.err == nil) && s.opened == 1, "Open is not passed on")
	sym.Assert((f.Close() == nil) == (s.err == nil) && s.closed == 1, "Close is not passed on")
	sym.Reach("end")
}

type state struct {
	thrift.TTransport
	open, peek     bool
	err            error
	opened, closed int
}

func (s *state) IsOpen() bool { return s.open }
func (s *state) Peek() bool   { return s.peek }
func (s *state) Open() error  { s.opened++; return s.err }
func (s *state) Close() error { s.closed++; return s.err }
