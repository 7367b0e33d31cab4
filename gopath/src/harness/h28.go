package harness

import (
	"encoding/base64"
	"errors"
	"io"
	"strings"
	"sym"
	"thrift"
)

// ownError is an error that is nothing else.
type ownError struct{ s string }

func (e ownError) Error() string { return e.s }

// anError is any error, other than the exceptions of protocols and transports.
func anError(msg string) error {
	switch sym.Choose("error", 6) {
	case 0:
		return io.EOF
	case 1:
		return errors.New(msg)
	case 2:
		return base64.CorruptInputError(sym.Range("offset", 0, 9))
	case 3:
		return thrift.NewTApplicationException(sym.Int32("type"), msg)
	case 4:
		return thrift.NewTException(msg)
	}
	return ownError{msg}
}

// C28_Protocol: to an exception of a protocol.
func C28_Protocol() {
	typ, msg := int(sym.Int32("type id")), words("message", kBin, sym.Bound(3, 5))
	switch sym.Choose("case", 4) {
	case 0:
		sym.Assert(thrift.NewTProtocolExceptionFromOsError(nil) == nil, "nil becomes an exception")
		sym.Assert(thrift.NewTProtocolExceptionFromTransportException(nil) == nil, "nil becomes an exception")
	case 1:
		e := thrift.NewTProtocolException(typ, msg)
		sym.Assert(thrift.NewTProtocolExceptionFromOsError(e) == e, "an exception of a protocol changes")
		sym.Assert(e.TypeId() == typ && e.Error() == msg, "an exception of a protocol changes")
	case 2:
		t := thrift.NewTTransportException(typ, msg)
		x := thrift.NewTProtocolExceptionFromOsError(t)
		if sym.Choose("direct", 2) == 1 {
			x = thrift.NewTProtocolExceptionFromTransportException(t)
		}
		sym.Assert(x != nil && x.Error() == msg, "the message is lost")
		sym.Assert(x.TypeId() == thrift.UNKNOWN_PROTOCOL_EXCEPTION, "the kind of a transport's exception is taken for that of a protocol's")
	case 3:
		e := anError(msg)
		x := thrift.NewTProtocolExceptionFromOsError(e)
		sym.Assert(x != nil && x.Error() == e.Error(), "the message is lost")
		want := thrift.UNKNOWN_PROTOCOL_EXCEPTION
		if _, is := e.(base64.CorruptInputError); is {
			want = thrift.INVALID_DATA
		}
		sym.Assert(x.TypeId() == want, "the kind is not that of the error")
	}
	sym.Reach("end")
}

// C28_Transport: to an exception of a transport.
func C28_Transport() {
	typ, msg := int(sym.Int32("type id")), words("message", kBin, sym.Bound(3, 5))
	switch sym.Choose("case", 4) {
	case 0:
		sym.Assert(thrift.NewTTransportExceptionFromOsError(nil) == nil, "nil becomes an exception")
		var e error = thrift.NewTTransportExceptionFromOsError(nil)
		sym.Assert(e == nil, "nil becomes an exception")
	case 1:
		e := thrift.NewTTransportException(typ, msg)
		sym.Assert(thrift.NewTTransportExceptionFromOsError(e) == e, "an exception of a transport changes")
		sym.Assert(e.TypeId() == typ && e.Error() == msg, "an exception of a transport changes")
	case 2:
		x := thrift.NewTTransportExceptionFromOsError(thrift.NewTProtocolException(typ, msg))
		sym.Assert(x != nil && x.Error() == msg, "the message is lost")
		sym.Assert(x.TypeId() == thrift.UNKNOWN_TRANSPORT_EXCEPTION, "the kind of a protocol's exception is taken for that of a transport's")
	case 3:
		e := anError(msg)
		x := thrift.NewTTransportExceptionFromOsError(e)
		sym.Assert(x != nil && x.Error() == e.Error(), "the message is lost")
		want := thrift.UNKNOWN_TRANSPORT_EXCEPTION
		if e == io.EOF {
			want = thrift.END_OF_FILE
		}
		sym.Assert(x.TypeId() == want, "the kind is not that of the error")
	}
	sym.Reach("end")
}

// C28_Chain: from one to the other and back.
func C28_Chain() {
	msg := words("message", kBin, 3)
	var e error = errors.New(msg)
	switch sym.Choose("first", 3) {
	case 1:
		e = thrift.NewTTransportException(int(sym.Int32("type id")), msg)
	case 2:
		e = thrift.NewTProtocolException(int(sym.Int32("type id")), msg)
	}
	for i := 0; i < 3; i++ {
		if sym.Choose("to", 2) == 0 {
			e = thrift.NewTProtocolExceptionFromOsError(e)
		} else {
			e = thrift.NewTTransportExceptionFromOsError(e)
		}
		sym.Assert(e != nil && e.Error() == msg, "the message is lost")
	}
	sym.Reach("end")
}

// C28_General: to a plain exception.
func C28_General() {
	msg := words("message", kBin, 3)
	sym.Assert(thrift.NewTExceptionFromOsError(nil) == nil, "nil becomes an exception")
	e := anError(msg)
	x := thrift.NewTExceptionFromOsError(e)
	sym.Assert(x != nil && x.Error() == e.Error(), "the message is lost")
	sym.Assert(thrift.NewTException(msg).Error() == msg, "the message is lost")
	sym.Reach("end")
}

// C28_Context: what was being read or written is added to the message; the kind stays, or is INVALID_DATA where it was unknown.
func C28_Context() {
	typ, msg := int(sym.Int32("type id")), sym.String("message", 2)
	id := int(sym.Range("id", 0, 120))
	if sym.Choose("negative", 2) == 1 {
		id = -id
	}
	field, structure := sym.String("field", 2), sym.String("struct", 2)
	e := thrift.NewTProtocolException(typ, msg)
	var x thrift.TProtocolException
	of := " (" + field + ") in " + structure
	switch sym.Choose("what", 4) {
	case 0:
		x, of = thrift.NewTProtocolExceptionReadField(id, field, structure, e), "read field "+inDecimal(id)+of
	case 1:
		x, of = thrift.NewTProtocolExceptionWriteField(id, field, structure, e), "write field "+inDecimal(id)+of
	case 2:
		x, of = thrift.NewTProtocolExceptionReadStruct(structure, e), "read struct "+structure
	case 3:
		x, of = thrift.NewTProtocolExceptionWriteStruct(structure, e), "write struct "+structure
	}
	want := typ
	if typ == thrift.UNKNOWN_PROTOCOL_EXCEPTION {
		want = thrift.INVALID_DATA
	}
	sym.Assert(x.TypeId() == want, "the kind changes")
	got := x.Error()
	sym.Assert(strings.HasSuffix(got, msg), "the message is lost")
	sym.Assert(strings.Contains(got[:len(got)-len(msg)], of), "the message does not tell what was read or written")
	sym.Reach("end")
}

func inDecimal(n int) string {
	if n < 0 {
		return "-" + inDecimal(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return inDecimal(n/10) + string([]byte{byte('0' + n%10)})
}

// C28_New: the constructors.
func C28_New() {
	typ, msg := int(sym.Int32("type id")), words("message", kBin, 3)
	sym.Assert(thrift.NewTProtocolExceptionDefault().TypeId() == thrift.UNKNOWN_PROTOCOL_EXCEPTION, "protocol: another kind")
	sym.Assert(thrift.NewTProtocolExceptionDefaultType(typ).TypeId() == typ, "protocol: another kind")
	p := thrift.NewTProtocolExceptionDefaultString(msg)
	sym.Assert(p.TypeId() == thrift.UNKNOWN_PROTOCOL_EXCEPTION && p.Error() == msg, "protocol: another kind or message")
	sym.Assert(thrift.NewTTransportExceptionDefault().TypeId() == thrift.UNKNOWN_TRANSPORT_EXCEPTION, "transport: another kind")
	sym.Assert(thrift.NewTTransportExceptionDefaultType(typ).TypeId() == typ, "transport: another kind")
	t := thrift.NewTTransportExceptionDefaultString(msg)
	sym.Assert(t.TypeId() == thrift.UNKNOWN_TRANSPORT_EXCEPTION && t.Error() == msg, "transport: another kind or message")
	sym.Reach("end")
}

// C28_Describe: fields and messages describe themselves by name, type and number.
func C28_Describe() {
	n := int(sym.Range("number", 0, 120))
	if sym.Choose("negative", 2) == 1 {
		n = -n
	}
	name := sym.String("name", 2)
	typ := []int{0, 1, 9, 10, 15, 18}[sym.Choose("type", 6)]
	s := thrift.NewTField(name, thrift.TType(typ), n).String()
	if sym.Choose("message", 2) == 1 {
		s = thrift.NewTMessage(name, thrift.TMessageType(typ), n).(interface{ String() string }).String()
	}
	i := strings.LastIndex(s, ":")
	sym.Assert(i > 0 && strings.TrimSpace(strings.TrimSuffix(s[i+1:], ">")) == inDecimal(n), "the description ends with another number")
	sym.Assert(strings.Contains(s, name) && strings.Contains(s[:i], ":"+inDecimal(typ)+" ") || strings.Contains(s[:i], ": "+inDecimal(typ)+" "), "the description has another name or type")
	sym.Reach("end")
}

// brokenPipe fails every write.
type brokenPipe struct {
	thrift.TTransport
	err error
}

func (b brokenPipe) Write([]byte) (int, error) { return 0, b.err }
func (b brokenPipe) Flush() error              { return b.err }

// C28_Carried: a protocol reports its transport's error to write with the transport's message, and its own kind.
func C28_Carried() {
	k := typed[sym.Choose("protocol", 3)]
	msg := words("message", kBin, 2)
	b := brokenPipe{thrift.NewTMemoryBuffer(), errors.New(msg)}
	if sym.Choose("transport's", 2) == 1 {
		b.err = thrift.NewTTransportException(int(sym.Int32("type id")), msg)
	}
	p := mk(k, b)
	var e thrift.TProtocolException
	switch sym.Choose("write", 6) {
	case 0:
		e = p.WriteMessageBegin("m", thrift.CALL, 1)
	case 1:
		e = p.WriteI32(1)
	case 2:
		e = p.WriteString("s")
	case 3:
		e = p.WriteByte(1)
	case 4:
		e = p.WriteDouble(1)
	case 5:
		e = p.WriteListBegin(thrift.BOOL, 0)
	}
	if e == nil { // (of a protocol that has a buffer of its own)
		e = p.Flush()
	}
	sym.Assert(e != nil, "the transport's error is lost")
	sym.Assert(e.Error() == msg, "the transport's message is lost")
	sym.Assert(e.TypeId() == thrift.UNKNOWN_PROTOCOL_EXCEPTION, "the kind of a transport's exception is taken for that of a protocol's")
	sym.Reach("end")
}
