package harness

import (
	"errors"
	"io"
	"net"
	"simple"
	"sym"
	"thrift"
)

var errListen, errAccept, errHandler = errors.New("listen"), errors.New("accept"), errors.New("handler")

// visitor is a connection to a server: so many successful calls of its processor, then a last one with the given outcome.
type visitor struct {
	thrift.TTransport
	steps  int
	ok     bool
	err    error
	calls  int
	in     int // times its input transport has been closed
	out    int
	asked  int // times a processor was asked for
	begun  bool
	permit chan int      // a value for each call of the processor it may make
	paused chan struct{} // a value when it waits for the next one, or is finished
}

// end is one of the two transports that a server makes of a connection.
type end struct {
	thrift.TTransport
	v     *visitor
	input bool
}

func (e *end) Close() error {
	if e.input {
		e.v.in++
	} else {
		e.v.out++
	}
	if e.v.finished() {
		e.v.paused <- struct{}{}
	}
	return nil
}

func (v *visitor) finished() bool { return v.in > 0 && v.out > 0 }

type bothEnds struct{ input bool }

func (f bothEnds) GetTransport(t thrift.TTransport) thrift.TTransport {
	return &end{TTransport: t, v: t.(*visitor), input: f.input}
}

// world is what a server sees: its transport and its processor.
type world struct {
	server    thrift.TServer
	parallel  bool
	visitors  []*visitor
	script    []int // what Accept does: 0 a visitor, 1 nothing, 2 an error
	accepts   int
	listens   int
	listenErr error
	interrupt int
	events    int
	stopAt    int
	stopped   bool
	late      bool // Accept returns a visitor although Stop came meanwhile
	result    error
	active    []*visitor
}

// event is where Stop may come.
func (w *world) event() {
	w.events++
	if w.events == w.stopAt {
		w.stopped = true
		sym.Assert(w.server.Stop() == nil, "Stop fails")
		sym.Assert(w.interrupt > 0, "Stop does not interrupt the transport")
	}
}

func (w *world) Listen() error {
	w.listens++
	sym.Assert(w.accepts == 0, "the server listens again")
	w.event()
	return w.listenErr
}

func (w *world) Interrupt() error { w.interrupt++; return nil }
func (w *world) Close() error     { return nil }

func (w *world) Accept() (thrift.TTransport, error) {
	sym.Assert(w.listens > 0, "the server accepts before it listens")
	sym.Assert(!w.stopped, "a stopped server accepts another connection")
	if !w.parallel {
		for _, v := range w.active {
			sym.Assert(v.finished(), "the next connection is accepted before the last one is closed")
		}
	}
	w.accepts++
	w.event()
	if w.parallel && len(w.active) > 0 { // connections proceed meanwhile
		for sym.Choose("proceed", 2) == 1 && w.proceed(sym.Choose("which", len(w.active))) {
		}
	}
	if w.stopped && !w.late {
		w.result = errAccept
		return nil, errAccept
	}
	what := 2
	if w.accepts <= len(w.script) {
		what = w.script[w.accepts-1]
	}
	switch what {
	case 0:
		v := w.visitors[0]
		w.visitors = w.visitors[1:]
		w.active = append(w.active, v)
		return v, nil
	case 1:
		return nil, nil
	}
	w.result = errAccept
	return nil, errAccept
}

// proceed lets a connection make one more call.
func (w *world) proceed(i int) bool {
	v := w.active[i]
	if v.calls > v.steps {
		return false
	}
	if !v.begun {
		v.begun = true
		<-v.paused
	}
	v.permit <- 1
	<-v.paused
	return true
}

func (w *world) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	t.(*visitor).asked++
	return w
}

func (w *world) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	a, is := in.Transport().(*end)
	b, is2 := out.Transport().(*end)
	sym.Assert(is && is2 && a.v == b.v && a.input && !b.input, "the processor is given other transports")
	v := a.v
	sym.Assert(v.in == 0 && v.out == 0, "a connection is closed before it is done")
	if w.parallel {
		v.paused <- struct{}{}
		<-v.permit
	}
	w.event()
	v.calls++
	sym.Assert(v.calls <= v.steps+1, "the processor is called after its last call")
	if v.calls <= v.steps {
		return true, nil
	}
	return v.ok, v.err
}

func newVisitor() *visitor {
	v := &visitor{TTransport: thrift.NewTMemoryBuffer(), permit: make(chan int, 9), paused: make(chan struct{}, 9)}
	v.steps = sym.Choose("calls", sym.Bound(2, 3))
	switch sym.Choose("outcome", 3) {
	case 1:
		v.err = errHandler
	case 2:
		v.ok, v.err = true, errHandler
	}
	return v
}

func (w *world) serve() {
	if w.parallel {
		w.server = thrift.NewTNonblockingServerFactory6(w, w, bothEnds{true}, bothEnds{false}, factory(kBin), factory(kCompact))
	} else {
		w.server = thrift.NewTSimpleServerFactory6(w, w, bothEnds{true}, bothEnds{false}, factory(kBin), factory(kCompact))
	}
	e := w.server.Serve()
	if w.listenErr != nil {
		sym.Assert(e == w.listenErr, "the error of Listen is not returned")
		sym.Assert(w.accepts == 0, "a server that cannot listen accepts")
	} else {
		sym.Assert(e == w.result, "the error of Accept is not returned, or another one is")
	}
	for i, v := range w.active {
		if w.parallel {
			for w.proceed(i) {
			}
		}
		sym.Assert(v.asked == 1, "a connection has no processor of its own")
		sym.Assert(v.calls == v.steps+1, "a connection is not served to its end")
		sym.Assert(v.finished(), "a connection is not closed when it is done")
	}
}

// C26_Simple: any connections, errors, and a Stop anywhere.
func C26_Simple() {
	w := &world{late: sym.Choose("late", 2) == 1}
	if sym.Choose("listen fails", 2) == 1 {
		w.listenErr = errListen
	}
	n := sym.Choose("accepts", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		w.script = append(w.script, sym.Choose("accept", 3))
		w.visitors = append(w.visitors, newVisitor())
	}
	w.stopAt = sym.Choose("stop", sym.Bound(9, 14))
	w.serve()
	sym.Reach("end")
}

// C26_Nonblocking: the same, where connections proceed in any order.
func C26_Nonblocking() {
	w := &world{parallel: true, late: sym.Choose("late", 2) == 1}
	if sym.Choose("listen fails", 2) == 1 {
		w.listenErr = errListen
	}
	n := sym.Choose("accepts", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		w.script = append(w.script, sym.Choose("accept", 3))
		w.visitors = append(w.visitors, newVisitor())
	}
	w.stopAt = sym.Choose("stop", sym.Bound(9, 14))
	w.serve()
	sym.Reach("end")
}

func addressed(s string) net.Addr { return address{"tcp", s} }

// stopping stops the server just before, or during, its first Accept.
type stopping struct {
	thrift.TServerTransport
	server thrift.TServer
	during bool
}

func (s *stopping) Accept() (thrift.TTransport, error) {
	if s.during {
		go s.server.Stop()
	} else {
		s.server.Stop()
	}
	return s.TServerTransport.Accept()
}

// C26_Stop: Stop before or during an Accept of the server sockets ends it.
func C26_Stop() {
	t := &stopping{during: sym.Choose("during", 2) == 1}
	switch sym.Choose("socket", 2) {
	case 0:
		t.TServerTransport, _ = thrift.NewTServerSocketAddr(addressed("127.0.0.1:0"))
	case 1:
		t.TServerTransport, _ = thrift.NewTNonblockingServerSocketAddr(addressed("127.0.0.1:0"))
	}
	listening := sym.Choose("listening", 2) == 1
	if listening {
		sym.Assert(t.Listen() == nil, "Listen fails")
	}
	p := simple.NewContainerOfEnumsTestServiceProcessor(&echo{})
	if sym.Choose("server", 2) == 0 {
		t.server = thrift.NewTSimpleServer2(p, t)
	} else {
		t.server = thrift.NewTNonblockingServer2(p, t)
	}
	done := make(chan error)
	go func() { done <- t.server.Serve() }()
	<-done // (else Serve does not return)
	sym.Reach("end")
}

// C26_New: the constructors use what they are given.
func C26_New() {
	l := &listener{}
	s, _ := thrift.NewTNonblockingServerSocketListener(l)
	p := simple.NewContainerOfEnumsTestServiceProcessor(&echo{})
	pf := thrift.NewTProcessorFactory(p)
	t1, t2 := thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()), thrift.NewTTransportFactory()
	p1, p2 := factory(kCompact), factory(kJSON)
	var v thrift.TServer
	parallel := sym.Choose("parallel", 2) == 1
	given := sym.Choose("given", 3)
	own := sym.Choose("factory", 2) == 1
	switch {
	case given == 0 && !parallel && !own:
		v = thrift.NewTSimpleServer2(p, s)
	case given == 0 && !parallel:
		v = thrift.NewTSimpleServerFactory2(pf, s)
	case given == 0 && !own:
		v = thrift.NewTNonblockingServer2(p, s)
	case given == 0:
		v = thrift.NewTNonblockingServerFactory2(pf, s)
	case given == 1 && !parallel && !own:
		v = thrift.NewTSimpleServer4(p, s, t1, p1)
	case given == 1 && !parallel:
		v = thrift.NewTSimpleServerFactory4(pf, s, t1, p1)
	case given == 1 && !own:
		v = thrift.NewTNonblockingServer4(p, s, t1, p1)
	case given == 1:
		v = thrift.NewTNonblockingServerFactory4(pf, s, t1, p1)
	case !parallel && !own:
		v = thrift.NewTSimpleServer6(p, s, t1, t2, p1, p2)
	case !parallel:
		v = thrift.NewTSimpleServerFactory6(pf, s, t1, t2, p1, p2)
	case !own:
		v = thrift.NewTNonblockingServer6(p, s, t1, t2, p1, p2)
	default:
		v = thrift.NewTNonblockingServerFactory6(pf, s, t1, t2, p1, p2)
	}
	if own {
		sym.Assert(v.ProcessorFactory() == pf, "another processor factory is used")
	}
	sym.Assert(v.ProcessorFactory().GetProcessor(nil) == thrift.TProcessor(p), "another processor is used")
	sym.Assert(v.ServerTransport() == thrift.TServerTransport(s), "another transport is used")
	buf := thrift.NewTMemoryBuffer()
	_, framed := v.InputTransportFactory().GetTransport(buf).(*thrift.TFramedTransport)
	sym.Assert(framed == (given > 0), "another input transport factory is used")
	_, framed = v.OutputTransportFactory().GetTransport(buf).(*thrift.TFramedTransport)
	sym.Assert(framed == (given == 1), "another output transport factory is used")
	_, bin := v.InputProtocolFactory().GetProtocol(buf).(*thrift.TBinaryProtocol)
	_, compact := v.InputProtocolFactory().GetProtocol(buf).(*thrift.TCompactProtocol)
	sym.Assert(bin == (given == 0) && compact == (given > 0), "another input protocol factory is used")
	_, bin = v.OutputProtocolFactory().GetProtocol(buf).(*thrift.TBinaryProtocol)
	_, compact = v.OutputProtocolFactory().GetProtocol(buf).(*thrift.TCompactProtocol)
	sym.Assert(bin == (given == 0) && compact == (given == 1), "another output protocol factory is used")
	sym.Reach("end")
}

// chunks reads in pieces of a size.
type chunks struct {
	b    []byte
	size int
}

func (c *chunks) Read(b []byte) (int, error) {
	n := len(c.b)
	if n == 0 {
		return 0, io.EOF
	}
	if n > c.size {
		n = c.size
	}
	n = copy(b, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// C26_Calls: whole calls over connections that are accepted one after the other.
func C26_Calls() {
	k := sym.Choose("protocol", 2)
	framed := sym.Choose("framed", 2) == 1
	tf := thrift.NewTTransportFactory()
	if framed {
		tf = thrift.NewTFramedTransportFactory(tf)
	}
	n := sym.Range("connections", 1, 2)
	size := []int{1, 5, 1000}[sym.Choose("chunks", 3)]
	l := &listener{}
	h := &echo{fail: make([]error, 9)}
	var conns []*conn
	var args [][]*simple.ContainerOfEnums
	for i := 0; i < n; i++ {
		buf := thrift.NewTMemoryBuffer()
		c := simple.NewContainerOfEnumsTestServiceClientFactory(tf.GetTransport(buf), factory(k))
		calls := sym.Choose("calls", 3-i)
		var ms []*simple.ContainerOfEnums
		for j := 0; j < calls; j++ {
			m := simple.NewContainerOfEnums()
			m.Third = simple.HeterogeneousValues(sym.Int32("value"))
			sym.Assert(c.SendEcho(m) == nil, "the call cannot be sent")
			ms = append(ms, m)
		}
		args = append(args, ms)
		d := &conn{r: &chunks{append([]byte(nil), buf.Bytes()...), size}}
		conns = append(conns, d)
		l.conns = append(l.conns, d)
	}
	s, _ := thrift.NewTNonblockingServerSocketListener(l)
	p := simple.NewContainerOfEnumsTestServiceProcessor(h)
	v := thrift.NewTSimpleServer4(p, s, tf, factory(k))
	sym.Assert(v.Serve() != nil, "the error of Accept is not returned")
	for i, d := range conns {
		sym.Assert(d.closed == 1, "a connection is not closed when it is done")
		back := thrift.NewTMemoryBuffer()
		back.Write(d.got)
		c := simple.NewContainerOfEnumsTestServiceClientFactory(tf.GetTransport(back), factory(k))
		for _, m := range args[i] {
			c.SeqId++
			r, e := c.RecvEcho()
			sym.Assert(e == nil, "a call is not answered")
			sym.Assert(sameMessage(r, m), "a call is answered with something else")
		}
	}
	sym.Reach("end")
}
