//go:build generated

package harness

import (
	"errors"
	"every"
	"sym"
	"thrift"
)

// part is an argument or a declared exception of a function.
type part struct {
	id   int16
	name string
	s    *shape
}

// function is a function of the service Everything, which extends Derived, which extends Simple.
type function struct {
	name   string
	oneway bool
	args   []part
	ret    *shape // nil: void
	excs   []part
	send   func(c *every.EverythingClient, a []interface{}) error
	recv   func(c *every.EverythingClient) (interface{}, interface{}, error)
	call   func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error)
}

func failureOrNil(f *every.Failure) interface{} {
	if f == nil {
		return nil
	}
	return f
}

func failureOrOther(f *every.Failure, o *every.Other) interface{} {
	if f != nil && o != nil {
		return errors.New("both")
	}
	if o != nil {
		return o
	}
	return failureOrNil(f)
}

func listOrNil(l thrift.TList) interface{} {
	if l == nil {
		return nil
	}
	return l
}

func setOrNil(s thrift.TSet) interface{} {
	if s == nil {
		return nil
	}
	return s
}

func mapOrNil(m thrift.TMap) interface{} {
	if m == nil {
		return nil
	}
	return m
}

func asSet(x interface{}) thrift.TSet {
	s, _ := x.(thrift.TSet)
	return s
}

func asList(x interface{}) thrift.TList {
	l, _ := x.(thrift.TList)
	return l
}

func asMap(x interface{}) thrift.TMap {
	m, _ := x.(thrift.TMap)
	return m
}

func asStruct(x interface{}) *every.Base {
	b, _ := x.(*every.Base)
	return b
}

func asBytes(x interface{}) []byte {
	b, _ := x.([]byte)
	return b
}

// failureShape and otherShape stand for the exceptions, which are told apart by what they have.
var failureShape, otherShape = &shape{t: thrift.STRUCT, e: i32}, &shape{t: thrift.STRUCT, e: str}

var functions = append([]function{
	{"ping", false, nil, nil, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendPing() },
		func(c *every.EverythingClient) (interface{}, interface{}, error) { return nil, nil, c.RecvPing() },
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			return nil, nil, c.Ping()
		}},
	{"add", false, []part{{1, "a", i32}, {2, "b", i32}}, i32, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendAdd(a[0].(int32), a[1].(int32)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvAdd()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Add(a[0].(int32), a[1].(int32))
			return r, nil, e
		}},
	{"get", false, []part{{1, "b", base}}, base, []part{{1, "failed", failureShape}},
		func(c *every.EverythingClient, a []interface{}) error { return c.SendGet(asStruct(a[0])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, f, e := c.RecvGet()
			return structOrNil(r), failureOrNil(f), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, f, e := c.Get(asStruct(a[0]))
			return structOrNil(r), failureOrNil(f), e
		}},
	{"both", false, []part{{1, "s", str}}, str, []part{{1, "failed", failureShape}, {2, "other", otherShape}},
		func(c *every.EverythingClient, a []interface{}) error { return c.SendBoth(a[0].(string)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, f, o, e := c.RecvBoth()
			return r, failureOrOther(f, o), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, f, o, e := c.Both(a[0].(string))
			return r, failureOrOther(f, o), e
		}},
	{"check", false, []part{{1, "n", i32}}, nil, []part{{1, "failed", failureShape}},
		func(c *every.EverythingClient, a []interface{}) error { return c.SendCheck(a[0].(int32)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			f, e := c.RecvCheck()
			return nil, failureOrNil(f), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			f, e := c.Check(a[0].(int32))
			return nil, failureOrNil(f), e
		}},
	{"fire", true, []part{{1, "n", i32}}, nil, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendFire(a[0].(int32)) },
		nil,
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			return nil, nil, c.Fire(a[0].(int32))
		}},
	{"names", false, []part{{1, "p", i32}, {2, "err", i32}, {3, "oprot", i32}, {4, "type", i32}, {5, "value", i32}}, i32, []part{{1, "seqId", failureShape}},
		func(c *every.EverythingClient, a []interface{}) error {
			return c.SendNames(a[0].(int32), a[1].(int32), a[2].(int32), a[3].(int32), a[4].(int32))
		},
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, f, e := c.RecvNames()
			return r, failureOrNil(f), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, f, e := c.Names(a[0].(int32), a[1].(int32), a[2].(int32), a[3].(int32), a[4].(int32))
			return r, failureOrNil(f), e
		}},
	{"many", false, []part{{1, "l", listOf(i32)}, {2, "m", mapOf(str, i32)}}, listOf(i32), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendMany(asList(a[0]), asMap(a[1])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvMany()
			return listOrNil(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Many(asList(a[0]), asMap(a[1]))
			return listOrNil(r), nil, e
		}},
	{"paint", false, []part{{1, "c", i32}}, i32, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendPaint(every.Color(a[0].(int32))) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvPaint()
			return colored(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Paint(every.Color(a[0].(int32)))
			return colored(r), nil, e
		}},
	{"data", false, []part{{1, "b", bin}}, bin, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendData(asBytes(a[0])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvData()
			return bytesOrNil(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Data(asBytes(a[0]))
			return bytesOrNil(r), nil, e
		}},
	{"type", false, []part{{1, "type", i32}}, one(thrift.BOOL), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendType(a[0].(int32)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvType()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Type(a[0].(int32))
			return r, nil, e
		}},
	{"twice", false, []part{{1, "n", i64}}, i64, nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendTwice(a[0].(int64)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvTwice()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Twice(a[0].(int64))
			return r, nil, e
		}},
}, more...)

// worker is the handler: it records the calls, and answers as it is told.
type worker struct {
	name []string
	args [][]interface{}
	ret  interface{}
	exc  interface{}
	id   int16 // of exc
	err  error
}

func (w *worker) did(name string, a ...interface{}) error {
	w.name = append(w.name, name)
	w.args = append(w.args, a)
	return w.err
}

func (w *worker) failed() *every.Failure {
	f, _ := w.exc.(*every.Failure)
	return f
}

func (w *worker) number() int32 {
	n, _ := w.ret.(int32)
	return n
}

func (w *worker) Ping() error { return w.did("ping") }
func (w *worker) Add(a, b int32) (int32, error) {
	e := w.did("add", a, b)
	return w.number(), e
}
func (w *worker) Get(b *every.Base) (*every.Base, *every.Failure, error) {
	e := w.did("get", structOrNil(b))
	return asStruct(w.ret), w.failed(), e
}
func (w *worker) Both(s string) (string, *every.Failure, *every.Other, error) {
	e := w.did("both", s)
	r, _ := w.ret.(string)
	o, _ := w.exc.(*every.Other)
	return r, w.failed(), o, e
}
func (w *worker) Check(n int32) (*every.Failure, error) {
	e := w.did("check", n)
	return w.failed(), e
}
func (w *worker) Fire(n int32) error { return w.did("fire", n) }
func (w *worker) Names(a, b, c, d, f int32) (int32, *every.Failure, error) {
	e := w.did("names", a, b, c, d, f)
	return w.number(), w.failed(), e
}
func (w *worker) Many(l thrift.TList, m thrift.TMap) (thrift.TList, error) {
	e := w.did("many", listOrNil(l), mapOrNil(m))
	return asList(w.ret), e
}
func (w *worker) Paint(c every.Color) (every.Color, error) {
	e := w.did("paint", colored(c))
	return every.Color(w.number()), e
}
func (w *worker) Data(b []byte) ([]byte, error) {
	e := w.did("data", bytesOrNil(b))
	return asBytes(w.ret), e
}
func (w *worker) Type(n int32) (bool, error) {
	e := w.did("type", n)
	r, _ := w.ret.(bool)
	return r, e
}
func (w *worker) Twice(n int64) (int64, error) {
	e := w.did("twice", n)
	r, _ := w.ret.(int64)
	return r, e
}

// direct connects a client with a processor: what is flushed is processed.
type direct struct {
	thrift.TTransport
	requests, replies *thrift.TMemoryBuffer
	in, out           thrift.TProtocol
	proc              thrift.TProcessor
	good              bool
	err               error
}

func newDirect(k int, proc thrift.TProcessor) *direct {
	a, b := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
	return &direct{TTransport: b, requests: a, replies: b, in: mk(k, a), out: mk(k, b), proc: proc}
}

func (d *direct) Write(b []byte) (int, error) { return d.requests.Write(b) }

func (d *direct) Flush() error {
	d.good, d.err = d.proc.Process(d.in, d.out)
	return nil
}

// client is a client made either way.
func client(k int, t thrift.TTransport) *every.EverythingClient {
	if sym.Choose("client", 2) == 0 {
		return every.NewEverythingClientFactory(t, factory(k))
	}
	return every.NewEverythingClientProtocol(t, mk(k, t), mk(k, t))
}

// anyArgs are any arguments of f.
func anyArgs(g *gen, f *function) *val {
	v := &val{t: thrift.STRUCT}
	free := 0
	if len(f.args) > 1 {
		free = sym.Choose("argument", len(f.args))
	}
	for i, a := range f.args {
		if i == free {
			v.field(a.id, a.name, g.shaped(a.s, 1))
		} else {
			c := fixedShape(a.s)
			c.i += int32(i)
			v.field(a.id, a.name, c)
		}
	}
	return v
}

func natives(v *val) []interface{} {
	var a []interface{}
	for _, c := range v.kids {
		a = append(a, native(c))
	}
	return a
}

// thrown is any exception of the shape s.
func thrown(g *gen, s *shape) (*val, interface{}) {
	v := &val{t: thrift.STRUCT}
	if s == failureShape {
		v.field(1, "code", g.of(thrift.I32, 0))
		v.field(2, "reason", g.of(thrift.STRING, 0))
		f := every.NewFailure()
		f.Code, f.Reason = v.kids[0].i, v.kids[1].s
		return v, f
	}
	v.field(1, "what", g.of(thrift.STRING, 0))
	o := every.NewOther()
	o.What = v.kids[0].s
	return v, o
}

func sameException(x interface{}, v *val) bool {
	switch y := x.(type) {
	case *every.Failure:
		return len(v.kids) == 2 && y.Code == v.kids[0].i && y.Reason == v.kids[1].s
	case *every.Other:
		return len(v.kids) == 1 && y.What == v.kids[0].s
	}
	return false
}

// answered is how a call of f ends: with a value (or nothing, for void), a declared exception, or another error.
type answered struct {
	ret, exc *val
	id       int16 // of the exception
	name     string
	err      error
}

// anyOutcome makes the handler answer with any outcome.
func anyOutcome(g *gen, f *function, w *worker) *answered {
	o := &answered{}
	w.ret, w.exc, w.err = nil, nil, nil
	n := sym.Choose("outcome", 2+len(f.excs))
	switch {
	case n == 0:
		if f.ret != nil {
			o.ret = g.shaped(f.ret, 1)
			w.ret = native(o.ret)
		}
	case n == 1:
		o.err = errors.New("no")
		w.err = o.err
	default:
		x := f.excs[n-2]
		o.id, o.name = x.id, x.name
		o.exc, w.exc = thrown(g, x.s)
		w.id = x.id
	}
	return o
}

// rpcLeaves are the values in calls.
func rpcLeaves(k int) *gen {
	g := leaves(k)
	g.lens = []int{0, 1}
	return g
}

// received checks what the client returns.
func received(f *function, o *answered, ret, exc interface{}, err error) {
	switch {
	case f.oneway:
		sym.Assert(err == nil, "a oneway call fails")
	case o.err != nil:
		sym.Assert(err != nil, "the exception is lost")
		applicationException(err, thrift.INTERNAL_ERROR, "Internal error processing "+f.name+": "+o.err.Error(), "client")
	case o.exc != nil:
		sym.Assert(err == nil, "a call that throws a declared exception fails")
		if r, is := exc.(raised); is {
			sym.Assert(r.id == o.id, "a declared exception is received as another")
			exc = r.x
		}
		sym.Assert(exc != nil && sameException(exc, o.exc), "a declared exception is received as another")
	default:
		sym.Assert(err == nil, "the call fails")
		sym.Assert(exc == nil, "a declared exception is received that nobody threw")
		if o.ret == nil {
			sym.Assert(ret == nil, "a value is received from a void function")
		} else {
			sym.Assert(goIs(ret, o.ret), "another result is received")
		}
	}
}

// asked checks what the handler was asked for.
func asked(w *worker, n int, f *function, v *val) {
	sym.Assert(len(w.name) == n+1, "the handler is not called once for a call")
	sym.Assert(w.name[n] == f.name && len(w.args[n]) == len(v.kids), "another function is called")
	for i, c := range v.kids {
		sym.Assert(goIs(w.args[n][i], c), "the handler is called with other arguments")
	}
}

// C32_Calls: a call of any function with any arguments and any outcome, and another one after it.
func C32_Calls() {
	k := typed[sym.Choose("protocol", 3)]
	w := &worker{}
	d := newDirect(k, every.NewEverythingProcessor(w))
	c := client(k, d)
	f := &functions[sym.Choose("function", len(functions))]
	v := anyArgs(rpcLeaves(k), f)
	o := anyOutcome(rpcLeaves(k), f, w)
	ret, exc, err := f.call(c, natives(v))
	asked(w, 0, f, v)
	received(f, o, ret, exc, err)
	sym.Assert(d.good == (o.err == nil) && d.good == (d.err == nil), "Process reports another outcome")
	// and one more
	next := []int{1, 5, 12} // add, fire, flip
	if sym.Thorough() {
		next = nil
		for i := range functions {
			next = append(next, i)
		}
	}
	f = &functions[next[sym.Choose("next", len(next))]]
	a := &val{t: thrift.STRUCT}
	for _, p := range f.args {
		a.field(p.id, p.name, fixedShape(p.s))
	}
	o = &answered{}
	w.ret, w.exc, w.err = nil, nil, nil
	if f.ret != nil {
		o.ret = fixedShape(f.ret)
		w.ret = native(o.ret)
	}
	ret, exc, err = f.call(c, natives(a))
	asked(w, 1, f, a)
	received(f, o, ret, exc, err)
	if k != kJSON {
		sym.Assert(d.requests.Len() == 0 && d.replies.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C32_Request: what is on the wire for any call, and what the handler makes of any request.
func C32_Request() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[sym.Choose("function", len(functions))]
	v := anyArgs(rpcLeaves(k), f)
	typ := thrift.TMessageType(thrift.CALL)
	if f.oneway {
		typ = thrift.ONEWAY
	}
	wire := thrift.NewTMemoryBuffer()
	p, q := mk(k, wire), mk(k, wire)
	if sym.Choose("side", 2) == 0 {
		c := client(k, wire)
		c.SeqId = whole("seq", k)
		sym.Assume(c.SeqId != 1<<31-1)
		seq := c.SeqId + 1
		sym.Assert(f.send(c, natives(v)) == nil, "the call cannot be sent")
		name, t, s, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails")
		sym.Assert(name == f.name && t == typ && s == seq, "a call has another name, type or sequence number on the wire")
		sym.Assert(c.SeqId == seq, "the client forgets the sequence number")
		checkUnordered(k, q, v)
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	} else {
		w := &worker{}
		o := anyOutcome(&gen{k: k, lens: []int{1}, digits: k == kJSON, ascii: true}, f, w)
		seq := whole("seq", k)
		ok(p.WriteMessageBegin(f.name, typ, seq), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		out := thrift.NewTMemoryBuffer()
		every.NewEverythingProcessor(w).Process(q, mk(k, out))
		asked(w, 0, f, v)
		if f.oneway {
			sym.Assert(out.Len() == 0, "a oneway call is answered")
		} else {
			r := mk(k, out)
			name, t, s, e := r.ReadMessageBegin()
			ok(e, "ReadMessageBegin fails")
			sym.Assert(name == f.name && s == seq, "the answer is to another call")
			sym.Assert(t == thrift.REPLY && o.err == nil || t == thrift.EXCEPTION && o.err != nil, "the answer has another type")
			if o.err != nil {
				x, err := thrift.NewTApplicationExceptionDefault().Read(r)
				sym.Assert(err == nil, "Read of the exception fails")
				applicationException(x, thrift.INTERNAL_ERROR, "Internal error processing "+f.name+": no", "failed call")
			} else {
				checkUnordered(k, r, replied(o))
			}
			ok(r.ReadMessageEnd(), "ReadMessageEnd fails")
		}
		if k != kJSON {
			sym.Assert(out.Len() == 0, "bytes are left over")
		}
	}
	if k != kJSON {
		sym.Assert(wire.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// replied is the struct in the reply.
func replied(o *answered) *val {
	v := &val{t: thrift.STRUCT}
	if o.exc != nil {
		v.field(o.id, o.name, o.exc)
	} else if o.ret != nil {
		v.field(0, "success", o.ret)
	}
	return v
}

// C32_Reply: any reply or exception with any sequence number that is sent to a client.
func C32_Reply() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[sym.Choose("function", len(functions))]
	sym.Assume(!f.oneway)
	wire := thrift.NewTMemoryBuffer()
	p := mk(k, wire)
	c := client(k, wire)
	c.SeqId = whole("seq", k)
	seq := whole("seq", k)
	w := &worker{}
	g := rpcLeaves(k)
	if sym.Choose("exception", 2) == 1 {
		typ, msg := whole("type", k), words("message", k, 1)
		ok(p.WriteMessageBegin(f.name, thrift.EXCEPTION, seq), "WriteMessageBegin fails")
		sym.Assert(thrift.NewTApplicationException(typ, msg).Write(p) == nil, "Write fails")
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		_, _, err := f.recv(c)
		sym.Assert(err != nil, "the exception is lost")
		applicationException(err, typ, msg, "client")
	} else {
		o := anyOutcome(g, f, w)
		sym.Assume(o.err == nil)
		ok(p.WriteMessageBegin(f.name, thrift.REPLY, seq), "WriteMessageBegin fails")
		write(p, replied(o))
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		ret, exc, err := f.recv(c)
		if seq != c.SeqId {
			sym.Assert(err != nil, "the reply to another call is accepted")
			x, k := err.(thrift.TApplicationException)
			sym.Assert(k && x.TypeId() == thrift.BAD_SEQUENCE_ID, "the reply to another call is refused with another error")
			sym.Reach("end")
			return
		}
		received(f, o, ret, exc, err)
	}
	if k != kJSON {
		sym.Assert(wire.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C32_Foreign: arguments and results with unknown fields, or fields of other types, around those declared.
func C32_Foreign() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[[]int{1, 3, 4, 11}[sym.Choose("function", 4)]]
	wire := thrift.NewTMemoryBuffer()
	p, q := mk(k, wire), mk(k, wire)
	g := &gen{k: k, leaves: []thrift.TType{thrift.BYTE, thrift.BOOL}, nested: allNested, width: 1, lens: []int{1}, digits: k == kJSON, ascii: k == kJSON}
	foreign := g.of(pick("type", []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.DOUBLE, thrift.BINARY, thrift.MAP, thrift.LIST}), 1)
	if f.name == "both" {
		sym.Assume(foreign.t != thrift.BINARY)
	}
	id := []int16{0, 1, 2, 300, -1, 3}[sym.Choose("id", sym.Bound(4, 6))]
	w := &worker{ret: int32(7)}
	v := &val{t: thrift.STRUCT}
	if sym.Choose("side", 2) == 0 {
		args := &val{t: thrift.STRUCT}
		at := sym.Choose("at", len(f.args)+1)
		for i, a := range f.args {
			if i == at {
				v.field(id, "", foreign)
			}
			args.field(a.id, a.name, fixedShape(a.s))
			v.field(a.id, a.name, args.kids[i])
		}
		if at == len(f.args) {
			v.field(id, "", foreign)
		}
		ok(p.WriteMessageBegin(f.name, thrift.CALL, 1), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		every.NewEverythingProcessor(w).Process(q, mk(k, thrift.NewTMemoryBuffer()))
		asked(w, 0, f, args)
	} else {
		c := client(k, wire)
		o := anyOutcome(rpcLeaves(k), f, w)
		sym.Assume(o.err == nil)
		v = replied(o)
		if sym.Choose("at", 2) == 0 {
			r := &val{t: thrift.STRUCT}
			r.field(id, "", foreign)
			for i := range v.kids {
				r.field(v.ids[i], v.names[i], v.kids[i])
			}
			v = r
		} else {
			v.field(id, "", foreign)
		}
		ok(p.WriteMessageBegin(f.name, thrift.REPLY, 0), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		ret, exc, err := f.recv(c)
		received(f, o, ret, exc, err)
	}
	if k != kJSON {
		sym.Assert(wire.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C32_Unknown: calls of functions that the service does not have, and the next call; arguments that cannot be read.
func C32_Unknown() {
	k := sym.Choose("protocol", 2)
	wire, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
	p, q, r := mk(k, wire), mk(k, wire), mk(k, out)
	w := &worker{}
	var proc thrift.TProcessor = every.NewEverythingProcessor(w)
	seq := sym.Int32("seq")
	want := int32(thrift.UNKNOWN_METHOD)
	var name string
	if sym.Choose("kind", 2) == 0 {
		switch sym.Choose("service", 4) {
		case 1:
			// the extended service lacks the functions of the one that extends it
			proc = every.NewSimpleProcessor(w)
			name = "twice"
		case 2:
			proc = every.NewSimpleProcessor(w)
			name = "flip"
		case 3:
			proc = every.NewDerivedProcessor(w)
			name = "flip"
		default:
			name = sym.String("name", []int{0, 3, 4, 5}[sym.Choose("length", 4)])
			for i := range functions {
				sym.Assume(name != functions[i].name)
			}
		}
		ok(p.WriteMessageBegin(name, thrift.CALL, seq), "WriteMessageBegin fails")
		write(p, &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{an(thrift.I32)}})
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	} else {
		f := &functions[sym.Choose("function", len(functions))]
		sym.Assume(len(f.args) > 0 && !f.oneway)
		name = f.name
		want = thrift.PROTOCOL_ERROR
		ok(p.WriteMessageBegin(name, thrift.CALL, seq), "WriteMessageBegin fails")
		ok(p.WriteStructBegin("args"), "WriteStructBegin fails")
		ok(p.WriteFieldBegin(f.args[0].name, f.args[0].s.t, 1), "WriteFieldBegin fails")
		// (and nothing more)
	}
	good, e := proc.Process(q, mk(k, out))
	sym.Assert(!good && e != nil, "Process reports success")
	sym.Assert(len(w.name) == 0, "the handler is called")
	n, t, s, err := r.ReadMessageBegin()
	ok(err, "the call is not answered")
	sym.Assert(n == name && t == thrift.EXCEPTION && s == seq, "the answer is another one")
	x, e2 := thrift.NewTApplicationExceptionDefault().Read(r)
	sym.Assert(e2 == nil, "Read of the exception fails")
	sym.Assert(x.TypeId() == want, "the exception has another type")
	ok(r.ReadMessageEnd(), "ReadMessageEnd fails")
	sym.Assert(out.Len() == 0, "bytes are left over")
	if want == thrift.UNKNOWN_METHOD {
		// the next call on the connection
		sym.Assert(wire.Len() == 0, "arguments of an unknown function are left unread")
		f := &functions[1]
		v := &val{t: thrift.STRUCT}
		v.field(1, "a", &val{t: thrift.I32, i: sym.Int32("a")})
		v.field(2, "b", an(thrift.I32))
		ok(p.WriteMessageBegin(f.name, thrift.CALL, seq), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		good, e := proc.Process(q, mk(k, out))
		sym.Assert(good && e == nil, "the call after one of an unknown function fails")
		asked(w, 0, f, v)
	}
	sym.Reach("end")
}

// C32_SendFails: a write or flush fails while a call is sent, and the call fails.
func C32_SendFails() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[sym.Choose("function", len(functions))]
	t := newFailOp(1 + sym.Choose("op", 24))
	t.part = sym.Choose("part", 3)
	c := client(k, t)
	a := &val{t: thrift.STRUCT}
	for _, p := range f.args {
		a.field(p.id, p.name, fixedShape(p.s))
	}
	err := f.send(c, natives(a))
	sym.Assert((err != nil) == (t.failed > 0), "a failure is lost, or reported where there is none")
	if err == nil {
		sym.Assert(t.flushes > 0, "a call is not flushed")
	}
	sym.Reach("end")
}

// C32_ReceiveFails: a read fails once while a reply is received, or the reply ends early, and the call fails.
func C32_ReceiveFails() {
	k := sym.Choose("protocol", 2)
	f := &functions[sym.Choose("function", len(functions))]
	sym.Assume(!f.oneway)
	t := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	p := mk(k, t)
	w := &worker{}
	o := &answered{}
	n := sym.Choose("outcome", 2+len(f.excs))
	if n == 0 && f.ret != nil {
		o.ret = fixedShape(f.ret)
	} else if n > 1 {
		x := f.excs[n-2]
		o.id, o.name = x.id, x.name
		o.exc, w.exc = thrown(&gen{k: k, lens: []int{1}}, x.s)
	}
	if n == 1 {
		ok(p.WriteMessageBegin(f.name, thrift.EXCEPTION, 0), "WriteMessageBegin fails")
		sym.Assert(thrift.NewTApplicationException(3, "x").Write(p) == nil, "Write fails")
	} else {
		ok(p.WriteMessageBegin(f.name, thrift.REPLY, 0), "WriteMessageBegin fails")
		write(p, replied(o))
	}
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	var in thrift.TTransport = t
	cut := sym.Choose("cut", t.Len())
	if sym.Choose("kind", 2) == 0 {
		t.left = cut
	} else {
		b := thrift.NewTMemoryBuffer()
		b.Write(t.Bytes()[:cut])
		in = b
	}
	_, _, err := f.recv(every.NewEverythingClientProtocol(in, mk(k, in), mk(k, in)))
	sym.Assert(err != nil, "a call succeeds whose reply could not be read")
	if n == 1 {
		x, is := err.(thrift.TApplicationException)
		sym.Assert(!is || x.TypeId() != 3, "an exception is received that could not be read")
	}
	sym.Reach("end")
}

// C32_AnswerFails: a write or flush fails while a call is answered, and Process says so.
func C32_AnswerFails() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[sym.Choose("function", len(functions))]
	sym.Assume(!f.oneway)
	wire := thrift.NewTMemoryBuffer()
	p, q := mk(k, wire), mk(k, wire)
	a := &val{t: thrift.STRUCT}
	for _, p := range f.args {
		a.field(p.id, p.name, fixedShape(p.s))
	}
	ok(p.WriteMessageBegin(f.name, thrift.CALL, 1), "WriteMessageBegin fails")
	write(p, a)
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	w := &worker{}
	anyOutcome(&gen{k: k, lens: []int{1}, digits: k == kJSON, ascii: true}, f, w)
	t := newFailOp(1 + sym.Choose("op", 24))
	t.part = sym.Choose("part", 3)
	good, e := every.NewEverythingProcessor(w).Process(q, mk(k, t))
	sym.Assert(good == (t.failed == 0 && w.err == nil) && good == (e == nil), "Process reports another outcome")
	sym.Reach("end")
}

// second is the handler of the service Second, whose functions have the names of others.
type second struct {
	a, b string
	n    int32
	s    string
	o    *every.Other
}

func (h *second) Ping() (int32, error) { return h.n, nil }
func (h *second) Add(a, b string) (string, *every.Other, error) {
	h.a, h.b = a, b
	return h.s, h.o, nil
}

// C32_Second: another service of the program with functions of the same names.
func C32_Second() {
	k := typed[sym.Choose("protocol", 3)]
	h := &second{}
	d := newDirect(k, every.NewSecondProcessor(h))
	c := every.NewSecondClientFactory(d, factory(k))
	g := rpcLeaves(k)
	h.n = g.of(thrift.I32, 0).i
	r, e := c.Ping()
	sym.Assert(e == nil && r == h.n, "another result is received")
	a, b := g.of(thrift.STRING, 0).s, g.of(thrift.STRING, 0).s
	v := g.of(thrift.STRING, 0)
	if sym.Choose("throws", 2) == 0 {
		h.s = v.s
		s, o, e := c.Add(a, b)
		sym.Assert(e == nil && o == nil && s == v.s, "another result is received")
	} else {
		h.o = every.NewOther()
		h.o.What = v.s
		_, o, e := c.Add(a, b)
		sym.Assert(e == nil && o != nil && o.What == v.s, "another exception is received")
	}
	sym.Assert(h.a == a && h.b == b, "the handler is called with other arguments")
	sym.Reach("end")
}
