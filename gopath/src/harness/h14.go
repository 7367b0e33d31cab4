package harness

import (
	"bufio"
	"io"
	"sym"
	"thrift"
)

// filled is what ReadAll must have done with what the stream below delivered: data is the whole stream.
func filled(b []byte, n int, e error, data []byte, p *pieces) {
	if e == nil {
		sym.Assert(n == len(b), "ReadAll succeeds with another count than it was asked for")
		sym.Assert(len(b) <= len(data), "ReadAll succeeds although the stream is shorter")
		sym.Assert(string(b) == string(data[:len(b)]), "ReadAll succeeds but fills the buffer with something else")
	} else {
		sym.Assert(n <= len(b), "ReadAll reports more than it was asked for")
	}
}

// C14_ReadAll: reads of any sizes, with short reads, errors with data, and reads without progress.
func C14_ReadAll() {
	n := sym.Range("stream", 0, sym.Bound(5, 7))
	data := sym.Bytes("b", n)
	p := newPieces(append([]byte(nil), data...))
	p.with = sym.Choose("with", 2)
	p.idle = sym.Choose("idle", 2)
	if sym.Choose("err", 2) == 1 {
		p.err = errBroken
	}
	left := n
	for i := 0; i < 3; i++ {
		b := make([]byte, sym.Size("read", 0, 4))
		idle := p.idle
		m, e := p.ReadAll(b)
		filled(b, m, e, data[n-left:], p)
		if e != nil {
			sym.Assert(len(b) > left || p.idle < idle, "ReadAll fails although everything was delivered")
			break
		}
		left -= m
	}
	sym.Reach("end")
}

// C14_Layers: ReadAll of the transports that stand on another stream.
func C14_Layers() {
	n := sym.Range("stream", 0, sym.Bound(4, 5))
	data := sym.Bytes("b", n)
	p := newPieces(append([]byte(nil), data...))
	p.with = sym.Choose("with", 2)
	if sym.Choose("err", 2) == 1 {
		p.err = errBroken
	}
	var t thrift.TTransport
	switch sym.Choose("transport", 7) {
	case 0:
		t = thrift.NewTIOStreamTransportR(p)
	case 1:
		t = thrift.NewTIOStreamTransportRW(p)
	case 2:
		t = thrift.NewTIOStreamTransportRAndW(p, p)
	case 3:
		s, _ := thrift.NewTSocketConn(&conn{r: p})
		t = s
	case 4:
		s, _ := thrift.NewTNonblockingSocketConn(&conn{r: p})
		t = s
	case 5:
		m := thrift.NewTMemoryBuffer()
		m.Write(data)
		p.b = nil
		t = m
	case 6:
		p.b = append(be(nil, uint64(n), 4), data...)
		p.most = 3
		t = thrift.NewTFramedTransport(p)
	}
	left := n
	for i := 0; i < 2; i++ {
		b := make([]byte, sym.Size("read", 0, 3))
		m, e := t.ReadAll(b)
		filled(b, m, e, data[n-left:], p)
		if e != nil {
			sym.Assert(len(b) > left, "ReadAll fails although everything was delivered")
			break
		}
		left -= m
	}
	sym.Reach("end")
}

// C14_Long: buffers of thousands of bytes, through buffered streams.
func C14_Long() {
	n := []int{4095, 4096, 4097, 10000}[sym.Choose("size", 4)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 3)
	}
	data[n-1] = sym.Byte("last")
	piece := []int{1000, 4096, 100000}[sym.Choose("piece", 3)]
	r := &steps{b: data, n: piece, with: sym.Choose("with", 2)}
	var t thrift.TTransport
	switch sym.Choose("transport", 4) {
	case 0:
		t = thrift.NewTIOStreamTransportR(r)
	case 1:
		t = thrift.NewTIOStreamTransportRW(bufio.NewReadWriter(bufio.NewReader(r), nil))
	case 2:
		s, _ := thrift.NewTSocketConn(&conn{r: r})
		t = s
	case 3:
		s, _ := thrift.NewTNonblockingSocketConn(&conn{r: r})
		t = s
	}
	cut := []int{1, 4000, n}[sym.Choose("first", 3)]
	b := make([]byte, n)
	m, e := t.ReadAll(b[:cut])
	sym.Assert(e == nil && m == cut, "ReadAll fails")
	m, e = t.ReadAll(b[cut:])
	sym.Assert(e == nil && m == n-cut, "ReadAll fails")
	sym.Assert(string(b) == string(data), "ReadAll fills the buffer with something else")
	_, e = t.ReadAll(b[:1])
	sym.Assert(e != nil, "ReadAll succeeds at the end of the stream")
	sym.Reach("end")
}

// steps delivers pieces of a given size.
type steps struct {
	b    []byte
	n    int
	with int
}

func (s *steps) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(b) > s.n {
		b = b[:s.n]
	}
	n := copy(b, s.b)
	s.b = s.b[n:]
	if len(s.b) == 0 && s.with == 1 {
		return n, io.EOF
	}
	return n, nil
}

// counts is a transport of which only the counts and errors matter: they are arbitrary.
type counts struct {
	thrift.TTransport
	total int
	broke bool
}

func (c *counts) Read(b []byte) (int, error) {
	n := sym.Int("n")
	sym.Assume(n >= 0 && n <= len(b))
	c.total += n
	if c.broke || sym.Bool("fails") {
		if c.broke {
			sym.Assume(n == 0)
		}
		c.broke = true
		return n, errBroken
	}
	return n, nil
}

// C14_Counts: a read reports any count, with or without an error.
func C14_Counts() {
	c := &counts{TTransport: thrift.NewTMemoryBuffer()}
	size := sym.Choose("size", sym.Bound(6, 9))
	n, e := thrift.ReadAllTransport(c, make([]byte, size))
	if e == nil {
		sym.Assert(n == size && c.total == size, "ReadAll succeeds without having got everything")
	} else {
		sym.Assert(c.total < size, "ReadAll fails although everything was delivered")
		sym.Assert(n >= 0 && n <= size, "ReadAll reports an impossible count")
	}
	sym.Reach("end")
}
