package harness

import (
	"io"
	"net"
	"sym"
	"thrift"
	"time"
)

// conn is a connection whose other end is here: it reads from r, and records what is written.
type conn struct {
	r        io.Reader
	got      []byte
	writes   int
	failAt   int // the write that fails
	part     int // how much of it is accepted
	closed   int
	closeErr error
	read     time.Time // deadlines
	write    time.Time
	readSet  int
	reads    int
	bare     int // reads without a deadline set just before
}

func (c *conn) Read(b []byte) (int, error) {
	c.reads++
	return c.r.Read(b)
}

func (c *conn) Write(b []byte) (int, error) {
	c.writes++
	if c.writes == c.failAt {
		n := c.part
		if n >= len(b) {
			n = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		c.got = append(c.got, b[:n]...)
		return n, errBroken
	}
	c.got = append(c.got, b...)
	return len(b), nil
}

func (c *conn) Close() error {
	c.closed++
	return c.closeErr
}

type address struct{ network, name string }

func (a address) Network() string { return a.network }
func (a address) String() string  { return a.name }

func (c *conn) LocalAddr() net.Addr  { return address{"fake", "here"} }
func (c *conn) RemoteAddr() net.Addr { return address{"fake", "there"} }
func (c *conn) SetDeadline(t time.Time) error {
	c.read, c.write, c.readSet = t, t, c.readSet+1
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error  { c.read, c.readSet = t, c.readSet+1; return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.write = t; return nil }

type socket interface {
	thrift.TTransport
	SetTimeout(int64) error
	Interrupt() error
}

func connected(c net.Conn) socket {
	if sym.Choose("socket", 2) == 0 {
		s, e := thrift.NewTSocketConn(c)
		sym.Assert(e == nil, "NewTSocketConn fails")
		return s
	}
	s, e := thrift.NewTNonblockingSocketConn(c)
	sym.Assert(e == nil, "NewTNonblockingSocketConn fails")
	return s
}

func unconnected(a net.Addr) socket {
	switch sym.Choose("socket", 7) {
	case 4:
		return thrift.NewTNonblockingSocketTransportFactory(a).GetTransport(nil).(socket)
	case 5:
		return thrift.NewTNonblockingSocketTransportFactory(a).GetTransport(thrift.NewTSocketAddr(address{"fake", "there"})).(socket)
	case 6:
		old, _ := thrift.NewTNonblockingSocketAddrTimeout(a, 1e9)
		return thrift.NewTNonblockingSocketTransportFactory(address{"fake", "elsewhere"}).GetTransport(old).(socket)
	case 0:
		return thrift.NewTSocketAddr(a)
	case 1:
		return thrift.NewTSocket(a, 1e9)
	case 2:
		s, _ := thrift.NewTNonblockingSocketAddr(a)
		return s
	}
	s, _ := thrift.NewTNonblockingSocketAddrTimeout(a, 1e9)
	return s
}

func notOpen(e error, what string) {
	te, is := e.(thrift.TTransportException)
	sym.Assert(e != nil && is && te.TypeId() == thrift.NOT_OPEN, what)
}

// C17_Closed: whatever is done with a socket that was never connected, or is closed.
func C17_Closed() {
	c := &conn{r: newPieces([]byte{1, 2, 3})}
	var s socket
	if sym.Choose("how", 2) == 0 {
		s = unconnected(address{"fake", "there"})
	} else {
		s = connected(c)
		sym.Assert(s.Close() == nil, "Close fails")
		sym.Assert(c.closed == 1, "Close does not close the connection")
	}
	if sym.Choose("timeout", 2) == 1 {
		s.SetTimeout(sym.Int64("timeout"))
	}
	for i := 0; i < 2; i++ {
		b := make([]byte, sym.Size("size", 0, 2))
		switch sym.Choose("op", 6) {
		case 0:
			n, e := s.Read(b)
			sym.Assert(n == 0, "a closed socket reads something")
			notOpen(e, "Read of a closed socket is not a NOT_OPEN error")
		case 1:
			n, e := s.Write(b)
			sym.Assert(n == 0, "a closed socket writes something")
			notOpen(e, "Write to a closed socket is not a NOT_OPEN error")
		case 2:
			notOpen(s.Flush(), "Flush of a closed socket is not a NOT_OPEN error")
		case 3:
			n, e := s.ReadAll(b)
			sym.Assert(n == 0 && (e != nil || len(b) == 0), "ReadAll of a closed socket succeeds")
		case 4:
			sym.Assert(!s.IsOpen() && !s.Peek(), "a closed socket says it is open")
		case 5:
			sym.Assert(s.Close() == nil && s.Interrupt() == nil, "closing a closed socket fails")
		}
	}
	sym.Assert(c.closed <= 1 && c.reads == 0 && c.writes == 0, "a closed connection is used")
	sym.Reach("end")
}

// C17_Open: opening without a usable address, and opening an open socket.
func C17_Open() {
	if sym.Choose("open", 2) == 1 {
		c := &conn{r: newPieces([]byte{7})}
		s := connected(c)
		sym.Assert(s.IsOpen() && s.Peek(), "a connected socket says it is closed")
		te, is := s.Open().(thrift.TTransportException)
		sym.Assert(is && te.TypeId() == thrift.ALREADY_OPEN, "opening an open socket is not an ALREADY_OPEN error")
		sym.Assert(s.IsOpen(), "opening an open socket closes it")
		b := make([]byte, 1)
		n, e := s.Read(b)
		sym.Assert(n == 1 && e == nil && b[0] == 7, "opening an open socket replaces its connection")
	} else {
		var a net.Addr
		switch sym.Choose("address", 4) {
		case 1:
			a = address{"", "there"}
		case 2:
			a = address{"fake", ""}
		case 3:
			a = address{"no such network", "there"}
		}
		s := unconnected(a)
		notOpen(s.Open(), "opening a socket without a usable address is not a NOT_OPEN error")
		sym.Assert(!s.IsOpen(), "a socket that could not be opened says it is open")
		_, e := s.Read(make([]byte, 1))
		notOpen(e, "Read of a closed socket is not a NOT_OPEN error")
		notOpen(s.Open(), "a second attempt is not a NOT_OPEN error")
	}
	sym.Reach("end")
}

// C17_Write: any writes and flushes; the peer has everything once flush succeeds.
func C17_Write() {
	c := &conn{r: newPieces(nil)}
	s := connected(c)
	var want []byte
	n := sym.Bound(4, 6)
	for i := 0; i < n; i++ {
		if sym.Choose("op", 2) == 0 {
			b := sym.Bytes("b", sym.Size("size", 0, 2))
			m, e := s.Write(b)
			sym.Assert(e == nil && m == len(b), "Write fails or reports another count")
			want = append(want, b...)
			for j := range b { // the caller may reuse its buffer
				b[j] = 0
			}
		} else {
			sym.Assert(s.Flush() == nil, "Flush fails")
			sym.Assert(string(c.got) == string(want), "after Flush the peer has other bytes than were written")
		}
		sym.Assert(len(c.got) <= len(want), "the peer has more than was written")
	}
	sym.Assert(s.Flush() == nil, "Flush fails")
	sym.Assert(string(c.got) == string(want), "after Flush the peer has other bytes than were written")
	sym.Reach("end")
}

// C17_WriteFails: one write to the connection fails in part or altogether: it is reported, and what the peer
// has is a prefix of what was written.
func C17_WriteFails() {
	c := &conn{r: newPieces(nil), failAt: sym.Range("fail", 1, 3), part: sym.Choose("part", 3)}
	s := connected(c)
	var want []byte
	for i := 0; i < 3; i++ {
		b := sym.Bytes("b", sym.Size("size", 1, 3))
		m, e := s.Write(b)
		want = append(want, b[:m]...)
		if e == nil {
			sym.Assert(m == len(b), "Write succeeds in part")
			e = s.Flush()
		}
		sym.Assert((e != nil) == (c.writes == c.failAt), "a failed write of the connection is not reported, or a good one is")
		sym.Assert(string(c.got) == string(want[:len(c.got)]), "the peer has other bytes than were written")
		if e != nil {
			break
		}
		sym.Assert(string(c.got) == string(want), "after Flush the peer has other bytes than were written")
	}
	sym.Reach("end")
}

// C17_Long: more than the buffer holds.
func C17_Long() {
	n := []int{4095, 4096, 4097, 9000}[sym.Choose("size", 4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(5 * i)
	}
	b[n-1] = sym.Byte("last")
	c := &conn{r: newPieces(nil)}
	s := connected(c)
	cut := []int{0, 1, 4000, n}[sym.Choose("cut", 4)]
	s.Write(b[:cut])
	s.Write(b[cut:])
	sym.Assert(s.Flush() == nil, "Flush fails")
	sym.Assert(string(c.got) == string(b), "after Flush the peer has other bytes than were written")
	sym.Reach("end")
}

// C17_Read: what is read is what the peer sent, errors are passed on, and the deadline is that of the timeout.
func C17_Read() {
	data := sym.Bytes("b", sym.Choose("stream", 4))
	p := newPieces(append([]byte(nil), data...))
	p.with = sym.Choose("with", 2)
	if sym.Choose("err", 2) == 1 {
		p.err = errBroken
	}
	c := &conn{r: p}
	s := connected(c)
	timeout := int64(0)
	if sym.Choose("set", 2) == 1 {
		timeout = sym.Int64("timeout")
		sym.Assume(timeout < 1<<50)
		sym.Assert(s.SetTimeout(timeout) == nil, "SetTimeout fails")
	}
	var got []byte
	for i := 0; i < 3; i++ {
		b := make([]byte, sym.Size("read", 1, 3))
		set := c.readSet
		t0 := time.Now()
		n, e := s.Read(b)
		t1 := time.Now()
		if timeout > 0 {
			sym.Assert(c.readSet > set, "Read does not set the deadline")
			d := time.Duration(timeout)
			sym.Assert(!c.read.Before(t0.Add(d)) && !c.read.After(t1.Add(d)), "the deadline is not that of the timeout")
		} else {
			sym.Assert(c.read.IsZero(), "a deadline is set without a timeout")
		}
		got = append(got, b[:n]...)
		sym.Assert(string(got) == string(data[:len(got)]), "other bytes are read than the peer sent")
		if e != nil {
			sym.Assert(len(got) == len(data), "Read fails although there is more")
			te, is := e.(thrift.TTransportException)
			sym.Assert(is && (te.TypeId() == thrift.END_OF_FILE) == (p.err == io.EOF), "the end of the stream is reported as another kind of error")
			break
		}
	}
	sym.Reach("end")
}

// C17_CloseFails: a failing close is reported.
func C17_CloseFails() {
	c := &conn{r: newPieces(nil), closeErr: errBroken}
	s := connected(c)
	sym.Assert(s.Close() != nil, "a failed close is not reported")
	d := &conn{r: newPieces(nil)}
	t := connected(d)
	sym.Assert(t.Interrupt() == nil && d.closed == 1, "Interrupt does not close the connection")
	sym.Reach("end")
}

// C17_SetAndClear: a timeout that is removed again.
func C17_SetAndClear() {
	c := &conn{r: newPieces([]byte{1, 2, 3})}
	s := connected(c)
	b := make([]byte, 1)
	s.SetTimeout(sym.Int64("first"))
	s.Read(b)
	second := sym.Int64("second")
	sym.Assume(second < 1<<50)
	s.SetTimeout(second)
	s.Read(b)
	sym.Assert(c.read.IsZero() == (second <= 0), "the deadline of a read is not that of the timeout at that time")
	sym.Reach("end")
}

// listener hands out connections.
type listener struct {
	conns  []net.Conn
	closed int
	err    error
}

func (l *listener) Accept() (net.Conn, error) {
	if len(l.conns) == 0 || l.closed > 0 {
		return nil, errBroken
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}

func (l *listener) Close() error   { l.closed++; return l.err }
func (l *listener) Addr() net.Addr { return address{"fake", "here"} }

// C17_Server: server sockets hand out connected sockets with their timeout, and none when closed.
func C17_Server() {
	c := &conn{r: newPieces([]byte{9})}
	l := &listener{conns: []net.Conn{c}}
	s, e := thrift.NewTNonblockingServerSocketListener(l)
	sym.Assert(e == nil, "NewTNonblockingServerSocketListener fails")
	timeout := sym.Int64("timeout")
	sym.Assume(timeout < 1<<50)
	s.SetTimeout(timeout)
	sym.Assert(s.IsOpen() && s.Peek(), "a listening socket says it is closed")
	te, is := s.Open().(thrift.TTransportException)
	sym.Assert(is && te.TypeId() == thrift.ALREADY_OPEN, "opening an open server socket is not an ALREADY_OPEN error")
	sym.Assert(s.Addr().String() == "here", "the address differs")
	switch sym.Choose("op", 4) {
	case 0:
		t, e := s.Accept()
		sym.Assert(e == nil && t.IsOpen(), "Accept fails")
		b := make([]byte, 1)
		n, e := t.Read(b)
		sym.Assert(n == 1 && e == nil && b[0] == 9, "an accepted connection reads something else")
		sym.Assert(c.read.IsZero() == (timeout <= 0), "an accepted connection has another timeout")
		_, e = s.Accept()
		sym.Assert(e != nil, "a failing Accept is not reported")
	case 1:
		sym.Assert(s.Close() == nil && l.closed == 1, "Close does not close the listener")
		sym.Assert(!s.IsOpen() && !s.Peek(), "a closed server socket says it is open")
		_, e := s.Accept()
		notOpen(e, "Accept of a closed server socket is not a NOT_OPEN error")
		sym.Assert(s.Close() == nil && l.closed == 1, "closing a closed server socket closes something")
	case 2:
		l.err = errBroken
		sym.Assert(s.Close() != nil, "a failed close is not reported")
	case 3:
		sym.Assert(s.Interrupt() == nil && l.closed == 1, "Interrupt does not close the listener")
		_, e := s.Accept()
		sym.Assert(e != nil, "Accept goes on after Interrupt")
	}
	b := make([]byte, 1)
	_, e1 := s.Read(b)
	_, e2 := s.Write(b)
	sym.Assert(e1 != nil && e2 != nil && s.Flush() != nil, "a server socket reads or writes")
	sym.Reach("end")
}

// C17_Blocking: the blocking server socket.
func C17_Blocking() {
	if sym.Choose("how", 2) == 0 {
		c := &conn{r: newPieces(nil)}
		if sym.Choose("fails", 2) == 1 {
			c.closeErr = errBroken
		}
		s := thrift.NewTServerSocketConn(c)
		sym.Assert((s.Close() == nil) == (c.closeErr == nil) && c.closed == 1, "Close does not close the connection, or hides its error")
	} else {
		s, _ := thrift.NewTServerSocketAddrTimeout(address{"no such network", "no such place"}, sym.Int64("timeout"))
		sym.Assert(!s.IsOpen() && !s.Peek(), "a server socket that does not listen says it is open")
		sym.Assert(s.Listen() != nil, "listening at a bad address succeeds")
		t, e := s.Accept()
		sym.Assert(e != nil && t == nil, "accepting at a bad address succeeds")
		sym.Assert(s.Open() != nil && !s.IsOpen(), "opening a bad address succeeds")
		sym.Assert(s.Close() == nil && s.Interrupt() == nil, "closing a closed server socket fails")
		b := make([]byte, 1)
		_, e1 := s.Read(b)
		_, e2 := s.Write(b)
		sym.Assert(e1 != nil && e2 != nil && s.Flush() != nil, "a server socket reads or writes")
	}
	sym.Reach("end")
}

// C17_Dial: a socket made from an address is connected, used and closed, and connected again: each time the peer
// receives exactly what was written on that connection and flushed, and its reply is read.
func C17_Dial() {
	reply := sym.Bytes("reply", sym.Choose("replied", 3))
	p := sym.NewPeer(reply)
	defer p.Close()
	s := unconnected(p.Addr())
	if sym.Choose("timeout", 2) == 1 {
		s.SetTimeout(1e9)
	}
	for i := 0; i < 2; i++ {
		sym.Assert(!s.IsOpen(), "a socket is open before Open")
		sym.Assert(s.Open() == nil, "Open fails")
		sym.Assert(s.IsOpen(), "a socket is not open after Open")
		te, is := s.Open().(thrift.TTransportException)
		sym.Assert(is && te.TypeId() == thrift.ALREADY_OPEN, "a second Open is not refused as ALREADY_OPEN")
		a := sym.Bytes("b", sym.Choose("size", 3))
		n, e := s.Write(a)
		sym.Assert(e == nil && n == len(a), "Write fails")
		if i == 1 || sym.Choose("flush", 2) == 1 {
			sym.Assert(s.Flush() == nil, "Flush fails")
		} else {
			sym.Reach("unflushed")
			// (what was not flushed may be lost)
		}
		flushed := len(a)
		if sym.Choose("more", 2) == 1 {
			more := sym.Bytes("more", 1)
			s.Write(more)
			a = append(append([]byte(nil), a...), more...)
		}
		if sym.Choose("read", 2) == 1 && len(reply) > 0 {
			b := make([]byte, len(reply))
			n, e := s.ReadAll(b)
			sym.Assert(e == nil && n == len(b) && string(b) == string(reply), "another reply is read")
		}
		sym.Assert(s.Close() == nil, "Close fails")
		got := p.Received()
		sym.Assert(len(got) <= len(a) && string(got) == string(a[:len(got)]), "the peer receives what was not written on this connection")
		if i == 1 {
			sym.Assert(len(got) >= flushed, "the peer does not receive what was flushed")
		}
	}
	sym.Reach("end")
}

// serverSocket is a server socket that listens.
type serverSocket interface {
	thrift.TServerTransport
	thrift.TTransport
	Addr() net.Addr
}

// C17_Listens: a server socket made from an address listens, hands out the connections made to it with what is sent
// over them, stops, and listens again.
func C17_Listens() {
	place := sym.NewPlace()
	var s serverSocket
	kind := sym.Choose("kind", 6)
	var timeout int64
	switch sym.Choose("timeout", 3) {
	case 1:
		timeout = 1e9
	case 2:
		// (over before anything is read or written)
		timeout = 1
		sym.Assume(kind != 3)
	}
	switch kind {
	case 0:
		s, _ = thrift.NewTServerSocketAddrTimeout(place.Addr(), timeout)
	case 1:
		s, _ = thrift.NewTNonblockingServerSocketAddrTimeout(place.Addr(), timeout)
	case 2:
		s = thrift.NewTServerSocketTransportFactory(place.Addr(), timeout).GetTransport([]thrift.TTransport{nil, thrift.NewTMemoryBuffer()}[sym.Choose("given", 2)]).(*thrift.TServerSocket)
	case 3:
		s = thrift.NewTNonblockingServerSocketTransportFactory(place.Addr()).GetTransport([]thrift.TTransport{nil, thrift.NewTMemoryBuffer()}[sym.Choose("given", 2)]).(*thrift.TNonblockingServerSocket)
	case 4:
		old, _ := thrift.NewTServerSocketAddrTimeout(place.Addr(), timeout)
		s = thrift.NewTServerSocketTransportFactory(address{"fake", "there"}, 1).GetTransport(old).(*thrift.TServerSocket)
	case 5:
		old, _ := thrift.NewTNonblockingServerSocketAddrTimeout(place.Addr(), timeout)
		s = thrift.NewTNonblockingServerSocketTransportFactory(address{"fake", "there"}).GetTransport(old).(*thrift.TNonblockingServerSocket)
	}
	sym.Assert(s.Addr().String() == place.Addr().String(), "the address differs")
	sym.Assert(!s.IsOpen() && place.Connect(nil) == nil, "a server socket listens before it is told to")
	for i := 0; i < 2; i++ {
		if sym.Choose("open", 2) == 0 {
			sym.Assert(s.Open() == nil, "Open fails")
			te, is := s.Open().(thrift.TTransportException)
			sym.Assert(is && te.TypeId() == thrift.ALREADY_OPEN, "opening an open server socket is not an ALREADY_OPEN error")
		} else {
			sym.Assert(s.Listen() == nil && s.Listen() == nil, "Listen fails")
		}
		sym.Assert(s.IsOpen() && s.Peek(), "a listening socket says it is closed")
		for j := sym.Choose("calls", 3); j > 0; j-- {
			sent, back := sym.Bytes("sent", sym.Choose("size", 3)), sym.Bytes("back", 1)
			k := place.Connect(sent)
			sym.Assert(k != nil, "a listening socket cannot be reached")
			t, e := s.Accept()
			sym.Assert(e == nil && t != nil && t.IsOpen(), "a connection is not accepted")
			b := make([]byte, len(sent)+1)
			if timeout == 1 {
				n, e := t.Read(b)
				sym.Assert(n == 0 && e != nil, "a read ends later than the timeout of the server socket")
				t.Close()
				continue
			}
			n, e := t.ReadAll(b)
			sym.Assert(n == len(sent) && e != nil && string(b[:n]) == string(sent), "something else is read than was sent")
			n, e = t.Write(back)
			sym.Assert(n == 1 && e == nil && t.Flush() == nil && t.Close() == nil, "the reply is not sent")
			sym.Assert(string(k.Received()) == string(back), "another reply is received")
		}
		switch sym.Choose("stop", 2) {
		case 0:
			sym.Assert(s.Close() == nil, "Close fails")
			sym.Assert(s.Close() == nil, "closing a closed server socket fails")
		case 1:
			s.(interface{ Interrupt() error }).Interrupt()
			t, e := s.Accept()
			sym.Assert(t == nil && e != nil, "Accept goes on after Interrupt")
		}
		sym.Assert(!s.IsOpen() && !s.Peek() && place.Connect(nil) == nil, "a stopped server socket listens")
	}
	sym.Reach("end")
}
