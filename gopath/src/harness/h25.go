package harness

import (
	"errors"
	"simple"
	"sym"
	"thrift"
)

func factory(k int) thrift.TProtocolFactory {
	switch k {
	case kBin:
		return thrift.NewTBinaryProtocolFactoryDefault()
	case kCompact:
		return thrift.NewTCompactProtocolFactory()
	}
	return thrift.NewTJSONProtocolFactory()
}

// words is any short text a protocol carries (in JSON: ASCII).
func words(name string, k, most int) string {
	n := sym.Range(name+" length", 0, most)
	if k == kJSON {
		return sym.ASCII(name, n)
	}
	return sym.String(name, n)
}

// whole is any 32-bit integer (in JSON, which has decimal text: one of a few).
func whole(name string, k int) int32 {
	if k == kJSON {
		return []int32{0, 7, -1, 1 << 30, -1 << 31}[sym.Choose(name, 5)]
	}
	return sym.Int32(name)
}

func applicationException(e error, typ int32, msg, what string) {
	a, is := e.(thrift.TApplicationException)
	sym.Assert(is, what+": not an application exception")
	sym.Assert(a.TypeId() == typ, what+": the type differs")
	sym.Assert(a.Error() == msg, what+": the message differs")
}

// C25_Exception: any type and message, several in a row.
func C25_Exception() {
	k := typed[sym.Choose("protocol", 3)]
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	n := sym.Range("exceptions", 1, sym.Bound(2, 3))
	var types []int32
	var msgs []string
	for i := 0; i < n; i++ {
		t, m := whole("type", k), words("message", k, sym.Bound(2, 4))
		if k == kJSON && i > 0 {
			t, m = 5, "x"
		}
		types, msgs = append(types, t), append(msgs, m)
		x := thrift.NewTApplicationException(t, m)
		sym.Assert(x.TypeId() == t && x.Error() == m, "a new exception has another type or message")
		ok(p.WriteMessageBegin("m", thrift.EXCEPTION, int32(i)), "WriteMessageBegin fails")
		sym.Assert(x.Write(p) == nil, "Write fails")
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	}
	ok(p.Flush(), "Flush fails")
	for i := 0; i < n; i++ {
		_, t, s, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails")
		sym.Assert(t == thrift.EXCEPTION && s == int32(i), "the message header differs")
		x, err := thrift.NewTApplicationExceptionDefault().Read(q)
		sym.Assert(err == nil, "Read fails")
		applicationException(x, types[i], msgs[i], "read back")
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	}
	sym.Reach("end")
}

// C25_Fields: the fields in any order, left out, repeated, of other types, among unknown fields.
func C25_Fields() {
	k := typed[sym.Choose("protocol", 3)]
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	g := &gen{k: k, leaves: allLeaves, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: k == kJSON}
	if sym.Choose("shape", 2) == 0 {
		g.nested = nil
	} else {
		g.leaves = []thrift.TType{thrift.BOOL, thrift.I32}
	}
	typ, msg := int32(thrift.UNKNOWN_APPLICATION_EXCEPTION), ""
	ok(p.WriteStructBegin("TApplicationException"), "WriteStructBegin fails")
	n := sym.Range("fields", 0, 3)
	foreign := false
	for i := 0; i < n; i++ {
		switch sym.Choose("field", 3) {
		case 0:
			msg = []string{"", "a\"b"}[sym.Choose("message", 2)]
			ok(p.WriteFieldBegin("message", thrift.STRING, 1), "WriteFieldBegin fails")
			ok(p.WriteString(msg), "WriteString fails")
		case 1:
			typ = 7
			if k != kJSON {
				typ = sym.Int32("type")
			}
			ok(p.WriteFieldBegin("type", thrift.I32, 2), "WriteFieldBegin fails")
			ok(p.WriteI32(typ), "WriteI32 fails")
		case 2: // another id, or the type of another field
			sym.Assume(!foreign)
			foreign = true
			t := pick("foreign", append(append([]thrift.TType(nil), g.leaves...), g.nested...))
			v := g.of(t, 0)
			id := []int16{0, 1, 2, 3, 300}[sym.Choose("id", 5)]
			sym.Assume(!(id == 1 && sameType(thrift.STRING, v.t)) && !(id == 2 && v.t == thrift.I32))
			ok(p.WriteFieldBegin("other", v.t, id), "WriteFieldBegin fails")
			write(p, v)
		}
		ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
	}
	ok(p.WriteFieldStop(), "WriteFieldStop fails")
	ok(p.WriteStructEnd(), "WriteStructEnd fails")
	if k != kJSON {
		ok(p.WriteI16(99), "WriteI16 fails")
	}
	ok(p.Flush(), "Flush fails")
	x, err := thrift.NewTApplicationExceptionDefault().Read(q)
	sym.Assert(err == nil, "Read fails")
	applicationException(x, typ, msg, "read")
	if k != kJSON {
		v, e := q.ReadI16()
		ok(e, "ReadI16 fails after the exception")
		sym.Assert(v == 99 && buf.Len() == 0, "the stream is not at what follows the exception")
	}
	sym.Reach("end")
}

// C25_Truncated: an exception cut short is an error, never another exception.
func C25_Truncated() {
	k := sym.Choose("protocol", 2)
	buf := thrift.NewTMemoryBuffer()
	sym.Assert(thrift.NewTApplicationException(sym.Int32("type"), "ab").Write(mk(k, buf)) == nil, "Write fails")
	b := buf.Bytes()
	in := thrift.NewTMemoryBuffer()
	in.Write(b[:sym.Choose("kept", len(b))])
	_, err := thrift.NewTApplicationExceptionDefault().Read(mk(k, in))
	sym.Assert(err != nil, "a truncated exception is read")
	sym.Reach("end")
}

// C25_ReadError: an exception with fields of any kind, in which one read of the transport fails: it is
// reported, although the transport goes on.
func C25_ReadError() {
	k := typed[sym.Choose("protocol", 3)]
	f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	p := mk(k, f)
	ok(p.WriteStructBegin("TApplicationException"), "WriteStructBegin fails")
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: true}
	n := sym.Range("fields", 1, 2)
	if n == 2 {
		g.nested = nil
	}
	for i := 0; i < n; i++ {
		v := g.of(g.typ(1), 1)
		ok(p.WriteFieldBegin("f", v.t, int16(sym.Range("id", 1, 3))), "WriteFieldBegin fails")
		write(p, v)
		ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
	}
	ok(p.WriteFieldStop(), "WriteFieldStop fails")
	ok(p.WriteStructEnd(), "WriteStructEnd fails")
	ok(p.Flush(), "Flush fails")
	f.left = sym.Choose("fail", f.Len())
	_, err := thrift.NewTApplicationExceptionDefault().Read(mk(k, f))
	sym.Assert(f.failed == 1, "the exception is read without reading all of it")
	sym.Assert(err != nil, "an exception is read although the transport failed")
	sym.Reach("end")
}

// C25_WriteError: an exception that could not be written completely is reported.
func C25_WriteError() {
	k := sym.Choose("protocol", 3)
	f := newFailOp(sym.Range("operation", 1, 12))
	f.part = sym.Choose("accepted", 3)
	p := mk(k, f)
	err := thrift.NewTApplicationException(sym.Int32("type"), words("message", kBin, 1)).Write(p)
	if k == kJSON && err == nil {
		err2 := p.Flush()
		sym.Assert(f.failed == 0 || err2 != nil, "a write error is lost")
	} else {
		sym.Assert((err != nil) == (f.failed > 0), "a write error is lost, or reported where there is none")
	}
	sym.Reach("end")
}

// failBegin is a protocol on which beginning a struct fails.
type failBegin struct{ thrift.TProtocol }

func (failBegin) WriteStructBegin(string) thrift.TProtocolException {
	return thrift.NewTProtocolException(thrift.INVALID_DATA, "begin")
}

// C25_BeginError: an exception whose struct cannot be begun is reported.
func C25_BeginError() {
	k := typed[sym.Choose("protocol", 3)]
	p := failBegin{mk(k, thrift.NewTMemoryBuffer())}
	err := thrift.NewTApplicationException(sym.Int32("type"), []string{"", "a"}[sym.Choose("message", 2)]).Write(p)
	sym.Assert(err != nil, "WriteStructBegin's error is lost")
	sym.Reach("end")
}

// C25_New: the constructors.
func C25_New() {
	t, m := sym.Int32("type"), words("message", kBin, 2)
	applicationException(thrift.NewTApplicationException(t, m), t, m, "NewTApplicationException")
	applicationException(thrift.NewTApplicationExceptionMessage(m), thrift.UNKNOWN_APPLICATION_EXCEPTION, m, "NewTApplicationExceptionMessage")
	sym.Assert(thrift.NewTApplicationExceptionType(t).TypeId() == t, "NewTApplicationExceptionType: the type differs")
	sym.Assert(thrift.NewTApplicationExceptionDefault().TypeId() == thrift.UNKNOWN_APPLICATION_EXCEPTION, "NewTApplicationExceptionDefault: the type differs")
	sym.Reach("end")
}

// echo answers calls.
type echo struct {
	calls []*simple.ContainerOfEnums
	fail  []error
}

func (h *echo) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	h.calls = append(h.calls, m)
	if e := h.fail[len(h.calls)-1]; e != nil {
		return nil, e
	}
	return m, nil
}

// argument is any argument of a call: some of its fields set.
func argument(k int, which string) *simple.ContainerOfEnums {
	m := simple.NewContainerOfEnums()
	if sym.Choose(which+" set", 2) == 1 {
		m.First = -1 << 31
		if k != kJSON {
			m.First = simple.UndefinedValues(sym.Int32(which))
		}
		m.OptionalSixth = simple.HeterogeneousValues(3)
		m.DefaultEighth = simple.DefinedValues(2)
	}
	return m
}

func sameMessage(a, b *simple.ContainerOfEnums) bool {
	return a != nil && b != nil && a.First == b.First && a.Second == b.Second && a.Third == b.Third &&
		a.OptionalFourth == b.OptionalFourth && a.OptionalFifth == b.OptionalFifth && a.OptionalSixth == b.OptionalSixth &&
		a.DefaultSeventh == b.DefaultSeventh && a.DefaultEighth == b.DefaultEighth && a.DefaultNineth == b.DefaultNineth
}

// C25_Calls: a sequence of calls, of the method there is and of others; each is answered.
func C25_Calls() {
	k := typed[sym.Choose("protocol", 3)]
	in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
	p := mk(k, in)
	h := &echo{}
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: []thrift.TType{thrift.STRUCT}, lens: []int{1}, width: 1, digits: true, ascii: k == kJSON}
	type call struct {
		name string
		seq  int32
		arg  *simple.ContainerOfEnums
		fail error
	}
	var calls []call
	n := sym.Range("calls", 1, 2)
	for i := 0; i < n; i++ {
		c := call{name: "echo", seq: whole("seq", k)}
		if k == kJSON {
			c.seq = int32(i)
		}
		if sym.Choose("method", 2) == 0 {
			c.arg = argument(k, "value")
			if sym.Choose("fails", 2) == 1 {
				c.fail = errors.New("no" + words("error", kJSON, sym.Bound(1-i, 1)))
			}
			h.fail = append(h.fail, c.fail)
			a := simple.NewEchoArgs()
			a.Message = c.arg
			ok(p.WriteMessageBegin("echo", thrift.CALL, c.seq), "WriteMessageBegin fails")
			ok(a.Write(p), "Write of arguments fails")
		} else {
			if i > 0 {
				g.nested, g.leaves = nil, []thrift.TType{thrift.BOOL}
			}
			c.name = []string{"", "ech", "echo2", "Echo"}[sym.Choose("name", 4-3*i)]
			if k != kJSON && (i == 0 && n == 1 || sym.Thorough()) && sym.Choose("any", 2) == 1 {
				c.name = sym.String("method", 4)
				sym.Assume(c.name != "echo")
			}
			ok(p.WriteMessageBegin(c.name, thrift.CALL, c.seq), "WriteMessageBegin fails")
			write(p, &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{g.of(g.typ(1), 0)}})
		}
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		calls = append(calls, c)
	}
	ok(p.Flush(), "Flush fails")
	ip, op := mk(k, in), mk(k, out)
	proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
	for _, c := range calls {
		good, e := proc.Process(ip, op)
		sym.Assert(good == (c.arg != nil && c.fail == nil) && good == (e == nil), "Process reports another outcome")
	}
	q := mk(k, out)
	done := 0
	for _, c := range calls {
		name, t, seq, e := q.ReadMessageBegin()
		ok(e, "a call is not answered")
		sym.Assert(name == c.name && seq == c.seq, "the answer is to another call")
		switch {
		case c.arg == nil:
			sym.Assert(t == thrift.EXCEPTION, "a call of an unknown method is answered with something other than an exception")
			x, err := thrift.NewTApplicationExceptionDefault().Read(q)
			sym.Assert(err == nil, "Read of the exception fails")
			sym.Assert(x.TypeId() == thrift.UNKNOWN_METHOD, "the exception for an unknown method has another type")
		case c.fail != nil:
			sym.Assert(t == thrift.EXCEPTION, "a failed call is answered with something other than an exception")
			x, err := thrift.NewTApplicationExceptionDefault().Read(q)
			sym.Assert(err == nil, "Read of the exception fails")
			applicationException(x, thrift.INTERNAL_ERROR, "Internal error processing echo: "+c.fail.Error(), "failed call")
		default:
			sym.Assert(t == thrift.REPLY, "a call is answered with something other than a reply")
			r := simple.NewEchoResult()
			ok(r.Read(q), "Read of the result fails")
			sym.Assert(sameMessage(r.Success, c.arg), "the result differs from the handler's")
		}
		if c.arg != nil {
			sym.Assert(sameMessage(h.calls[done], c.arg), "the handler sees another argument")
			done++
		}
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	}
	sym.Assert(done == len(h.calls), "the handler is called once too often")
	if k != kJSON {
		sym.Assert(in.Len() == 0 && out.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C25_Client: the generated client against the generated processor, any number of calls in a row.
func C25_Client() {
	k := typed[sym.Choose("protocol", 3)]
	wire := thrift.NewTMemoryBuffer()
	c := simple.NewContainerOfEnumsTestServiceClientFactory(wire, factory(k))
	h := &echo{}
	proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
	n := sym.Range("calls", 1, 2)
	for i := 0; i < n; i++ {
		m := argument(k, "value")
		var fail error
		if sym.Choose("fails", 2) == 1 {
			fail = errors.New("no")
		}
		h.fail = append(h.fail, fail)
		sym.Assert(c.SendEcho(m) == nil, "the call cannot be sent")
		proc.Process(mk(k, wire), mk(k, wire))
		r, e := c.RecvEcho()
		if fail != nil {
			sym.Assert(e != nil, "the exception is lost")
			applicationException(e, thrift.INTERNAL_ERROR, "Internal error processing echo: no", "client")
		} else {
			sym.Assert(e == nil, "the call fails")
			sym.Assert(sameMessage(r, m), "the client receives another result")
		}
		sym.Assert(len(h.calls) == i+1 && sameMessage(h.calls[i], m), "the handler sees another call")
	}
	if k != kJSON {
		sym.Assert(wire.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C25_ClientProtocols: the generated client that is given its protocols.
func C25_ClientProtocols() {
	k := typed[sym.Choose("protocol", 3)]
	wire := thrift.NewTMemoryBuffer()
	c := simple.NewContainerOfEnumsTestServiceClientProtocol(wire, mk(k, wire), mk(k, wire))
	m := argument(k, "value")
	panics := sym.Catch(func() { sym.Assert(c.SendEcho(m) == nil, "the call cannot be sent") })
	sym.Assert(!panics, "a client that is given its protocols cannot send a call")
	sym.Reach("end")
}
