package harness

import (
	"sym"
	"thrift"
)

func jsonKind() int { return kJSON + sym.Choose("protocol", 2) }

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// ends tells whether a literal or number may end before b.
func ends(b []byte) bool {
	return len(b) == 0 || space(b[0]) || b[0] == ',' || b[0] == ']' || b[0] == '}' || b[0] == ':'
}

func hasPrefix(b []byte, s string) bool { return len(b) >= len(s) && string(b[:len(s)]) == s }

func trimLeft(b []byte) []byte {
	for len(b) > 0 && space(b[0]) {
		b = b[1:]
	}
	return b
}

// number tells how long the number at the start of b is: sign, digits, fraction, exponent. Leading zeros,
// a leading plus and missing digits on one side of the point are not JSON, but are left open.
func number(b []byte) (n int, integer, strict, okay bool) {
	integer, strict = true, true
	if n < len(b) && (b[n] == '-' || b[n] == '+') {
		strict = b[n] == '-'
		n++
	}
	d := n
	for n < len(b) && digit(b[n]) {
		n++
	}
	some := n > d
	if n-d == 0 || n-d > 1 && b[d] == '0' {
		strict = false
	}
	if n < len(b) && b[n] == '.' {
		n++
		integer = false
		f := n
		for n < len(b) && digit(b[n]) {
			n++
		}
		if n == f {
			strict = false
		}
		some = some || n > f
	}
	if !some {
		return n, integer, false, false
	}
	if n < len(b) && (b[n] == 'e' || b[n] == 'E') {
		n++
		integer = false
		if n < len(b) && (b[n] == '-' || b[n] == '+') {
			n++
		}
		x := n
		for n < len(b) && digit(b[n]) {
			n++
		}
		if n == x {
			return n, false, false, false
		}
		if n > x+2 { // may be out of range
			strict = false
		}
	}
	return n, integer, strict, true
}

// C11_Bool: any text read as a boolean.
func C11_Bool() {
	n := sym.Range("len", 0, sym.Bound(6, 7))
	b, in := anyInput(n)
	v, e := mk(jsonKind(), in).ReadBool()
	t := trimLeft(b)
	switch {
	case hasPrefix(t, "true") && ends(t[4:]):
		ok(e, "true is refused")
		sym.Assert(v, "true is read as false")
	case hasPrefix(t, "false") && ends(t[5:]), hasPrefix(t, "null") && ends(t[4:]):
		ok(e, "false or null is refused")
		sym.Assert(!v, "false or null is read as true")
	case hasPrefix(t, "true"), hasPrefix(t, "false"), hasPrefix(t, "null"):
		// what follows is read later
	default:
		sym.Assert(e != nil, "text that is not true, false or null is read as a boolean")
	}
	sym.Reach("end")
}

// C11_String: any text read as a string.
func C11_String() {
	n := sym.Range("len", 0, sym.Bound(6, 8))
	b, in := anyInput(n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	v, e := mk(jsonKind(), in).ReadString()
	t := trimLeft(b)
	switch {
	case len(t) > 0 && t[0] == '"':
		p := &jparser{b: t}
		s := p.str()
		if p.bad {
			sym.Assert(e != nil, "an unterminated or malformed string is accepted")
		} else {
			ok(e, "a well-formed string is refused")
			sym.Assert(v == s, "a string is read differently")
		}
	case hasPrefix(t, "null") && ends(t[4:]):
		sym.Assert(e != nil || v == "", "null is read as a string with content")
	case hasPrefix(t, "null"):
	default:
		sym.Assert(e != nil, "text that is not a string is read as a string")
	}
	sym.Reach("end")
}

// C11_AnyBytes: strings with any bytes (not only UTF-8) are read or refused, and terminate where they should.
func C11_AnyBytes() {
	n := sym.Range("len", 0, sym.Bound(3, 4))
	b := sym.Bytes("in", n)
	in := thrift.NewTMemoryBuffer()
	in.Write([]byte{'"'})
	in.Write(b)
	p := mk(jsonKind(), in)
	if sym.Choose("call", 2) == 0 {
		_, e := p.ReadString()
		closed := false
		for i, c := range b {
			if c == '"' && (i == 0 || b[i-1] != '\\') {
				closed = true
			}
			if c == '"' && i > 1 && b[i-1] == '\\' && b[i-2] == '\\' {
				closed = true
			}
		}
		if !closed {
			sym.Assert(e != nil, "an unterminated string is accepted")
		}
	} else {
		p.ReadBinary()
	}
	sym.Reach("end")
}

func b64(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || digit(c) || c == '+' || c == '/'
}

// C11_Binary: any text read as a binary.
func C11_Binary() {
	n := sym.Range("len", 0, sym.Bound(6, 10))
	b, in := anyInput(n)
	v, e := mk(jsonKind(), in).ReadBinary()
	t := trimLeft(b)
	switch {
	case len(t) > 0 && t[0] == '"':
		t = t[1:]
		m, lines := 0, false
		for m < len(t) && t[m] != '"' {
			lines = lines || t[m] == '\r' || t[m] == '\n'
			m++
		}
		if m == len(t) {
			sym.Assert(e != nil, "an unterminated binary is accepted")
			break
		}
		if lines {
			break // base64 may be broken into lines
		}
		t = t[:m]
		good := m%4 == 0
		pad := 0
		for i := range t {
			if t[i] == '=' && i >= m-2 {
				pad++
			} else if !b64(t[i]) || pad > 0 {
				good = false
			}
		}
		if good {
			ok(e, "well-formed base64 is refused")
			sym.Assert(len(v) == m/4*3-pad, "base64 is read as another number of bytes")
		} else {
			sym.Assert(e != nil, "malformed base64 is accepted")
		}
	case hasPrefix(t, "null") && ends(t[4:]):
		sym.Assert(e != nil || len(v) == 0, "null is read as a binary with content")
	case hasPrefix(t, "null"):
	default:
		sym.Assert(e != nil, "text that is not a string is read as a binary")
	}
	sym.Reach("end")
}

// C11_Int: any text read as an integer.
func C11_Int() {
	n := sym.Range("len", 0, sym.Bound(4, 6))
	b, in := anyInput(n)
	v, e := mk(jsonKind(), in).ReadI64()
	t := trimLeft(b)
	if hasPrefix(t, "null") {
		sym.Assert(e != nil || v == 0, "null is read as a number other than 0")
		sym.Reach("end")
		return
	}
	quoted := len(t) > 0 && t[0] == '"'
	if quoted {
		t = t[1:]
	}
	m, integer, strict, okay := number(t)
	okay = okay && integer
	rest := t[m:]
	if quoted {
		if len(rest) == 0 || rest[0] != '"' {
			okay = false
		}
	} else if !ends(rest) && rest[0] != 0 {
		okay = false
	}
	switch {
	case !okay:
		sym.Assert(e != nil, "text that is not an integer is read as one")
	case strict:
		ok(e, "an integer is refused")
		x, neg := int64(0), false
		for _, c := range t[:m] {
			if c == '-' {
				neg = true
			} else {
				x = 10*x + int64(c-'0')
			}
		}
		if neg {
			x = -x
		}
		sym.Assert(v == x, "an integer is read as another number")
	}
	sym.Reach("end")
}

// C11_Double: any text read as a double.
func C11_Double() {
	n := sym.Range("len", 0, sym.Bound(4, 5))
	b, in := anyInput(n)
	_, e := mk(jsonKind(), in).ReadDouble()
	t := trimLeft(b)
	quoted := len(t) > 0 && t[0] == '"'
	if quoted {
		t = t[1:]
	}
	m, _, strict, okay := number(t)
	for _, s := range []string{"NaN", "Infinity", "-Infinity", "+Infinity"} {
		if hasPrefix(t, s) {
			m, strict, okay = len(s), false, true
		}
	}
	if !quoted && hasPrefix(t, "null") {
		m, strict, okay = 4, true, true
	}
	rest := t[m:]
	if quoted {
		if len(rest) == 0 || rest[0] != '"' {
			okay = false
		}
	} else if !ends(rest) {
		strict = false
		if okay && m > 0 && digit(t[m-1]) && rest[0] != 0 {
			okay = false
		}
	}
	switch {
	case !okay:
		sym.Assert(e != nil, "text that is not a number is read as one")
	case strict:
		ok(e, "a number is refused")
	}
	sym.Reach("end")
}

// C11_Special: the special doubles, cut short or changed in one place.
func C11_Special() {
	texts := []string{"NaN", "Infinity", "-Infinity", `"NaN"`, `"Infinity"`, `"-Infinity"`, "null", "true", "false"}
	j := sym.Choose("text", len(texts))
	b := []byte(texts[j])
	whole := true
	if sym.Choose("how", 2) == 0 {
		n := sym.Choose("cut", len(b)+1)
		whole = n == len(b)
		b = b[:n]
	} else {
		c := sym.Byte("byte")
		i := sym.Choose("at", len(b))
		sym.Assume(!digit(c) && !space(c))
		whole = c == b[i]
		b[i] = c
	}
	in := thrift.NewTMemoryBuffer()
	in.Write(b)
	p := mk(jsonKind(), in)
	var e thrift.TProtocolException
	if j < 7 {
		_, e = p.ReadDouble()
	} else {
		_, e = p.ReadBool()
	}
	if whole {
		ok(e, "a literal is refused")
	} else if !(j == 4 && (hasPrefix(b, "+") || hasPrefix(b, "-"))) && !(j == 2 && hasPrefix(b, "+")) && !(j == 5 && hasPrefix(b, `"+`)) && !(j == 6 && len(b) == 0) {
		sym.Assert(e != nil, "a broken literal is accepted")
	}
	sym.Reach("end")
}

// C11_Header: any text read as the beginning of a container, struct, field or message returns normally; what
// does not begin like one is refused.
func C11_Header() {
	n := sym.Range("len", 0, sym.Bound(5, 7))
	b, in := anyInput(n)
	k := jsonKind()
	p := mk(k, in)
	t := trimLeft(b)
	first := byte(0)
	if len(t) > 0 {
		first = t[0]
	}
	switch sym.Choose("call", 6) {
	case 0:
		_, n, e := p.ReadListBegin()
		if e == nil && !hasPrefix(t, "null") {
			sym.Assert(first == '[', "text that is not a list is read as one")
			sym.Assert(n >= 0, "a negative size is passed on")
			listStart(t, n)
		}
	case 1:
		_, n, e := p.ReadSetBegin()
		if e == nil && !hasPrefix(t, "null") {
			sym.Assert(first == '[', "text that is not a set is read as one")
			sym.Assert(n >= 0, "a negative size is passed on")
			listStart(t, n)
		}
	case 2:
		_, _, n, e := p.ReadMapBegin()
		if e == nil && !hasPrefix(t, "null") {
			sym.Assert(first == '[', "text that is not a map is read as one")
			sym.Assert(n >= 0, "a negative size is passed on")
		}
	case 3:
		_, e := p.ReadStructBegin()
		sym.Assert((e == nil) == (first == '{' || hasPrefix(t, "null")), "a struct begins with an opening brace")
	case 4:
		_, _, _, e := p.ReadFieldBegin()
		if e == nil {
			sym.Assert(len(t) > 0, "a field header is read from nothing")
		}
	case 5:
		_, _, _, e := p.ReadMessageBegin()
		if e == nil {
			sym.Assert(first == '[', "text that is not a message is read as one")
		}
	}
	sym.Reach("end")
}

// listStart checks that t begins with [type,size.
func listStart(t []byte, n int) {
	t = trimLeft(t[1:])
	for i := 0; i < 2; i++ {
		if hasPrefix(t, "null") {
			t = t[4:]
		} else {
			q := len(t) > 0 && t[0] == '"'
			if q {
				t = t[1:]
			}
			m, integer, _, okay := number(t)
			sym.Assert(okay && integer, "a list begins without its type or size")
			if i == 1 && m == 1 {
				sym.Assert(n == int(t[0]-'0'), "the size of a list is read differently")
			}
			t = t[m:]
			if q {
				sym.Assert(len(t) > 0 && t[0] == '"', "unbalanced quotes")
				t = t[1:]
			}
		}
		t = trimLeft(t)
		if i == 0 {
			sym.Assert(len(t) > 0 && t[0] == ',', "a list without a comma after its type")
			t = trimLeft(t[1:])
		}
	}
}

// tree reads a value of v's shape, without looking at the contents, until something fails.
func tree(p thrift.TProtocol, v *val) (e thrift.TProtocolException) {
	switch v.t {
	case thrift.BOOL:
		_, e = p.ReadBool()
	case thrift.BYTE:
		_, e = p.ReadByte()
	case thrift.I16:
		_, e = p.ReadI16()
	case thrift.I32:
		_, e = p.ReadI32()
	case thrift.I64:
		_, e = p.ReadI64()
	case thrift.DOUBLE:
		_, e = p.ReadDouble()
	case thrift.STRING:
		_, e = p.ReadString()
	case thrift.BINARY:
		_, e = p.ReadBinary()
	case thrift.STRUCT:
		if _, e = p.ReadStructBegin(); e != nil {
			return
		}
		for _, c := range v.kids {
			if _, _, _, e = p.ReadFieldBegin(); e != nil {
				return
			}
			if e = tree(p, c); e != nil {
				return
			}
			if e = p.ReadFieldEnd(); e != nil {
				return
			}
		}
		if _, _, _, e = p.ReadFieldBegin(); e != nil {
			return
		}
		return p.ReadStructEnd()
	case thrift.LIST:
		if _, _, e = p.ReadListBegin(); e != nil {
			return
		}
		for _, c := range v.kids {
			if e = tree(p, c); e != nil {
				return
			}
		}
		return p.ReadListEnd()
	case thrift.SET:
		if _, _, e = p.ReadSetBegin(); e != nil {
			return
		}
		for _, c := range v.kids {
			if e = tree(p, c); e != nil {
				return
			}
		}
		return p.ReadSetEnd()
	case thrift.MAP:
		if _, _, _, e = p.ReadMapBegin(); e != nil {
			return
		}
		for _, c := range v.kids {
			if e = tree(p, c); e != nil {
				return
			}
		}
		return p.ReadMapEnd()
	}
	return
}

// message reads a message around v.
func message(p thrift.TProtocol, v *val) (e thrift.TProtocolException) {
	if _, _, _, e = p.ReadMessageBegin(); e != nil {
		return
	}
	if e = tree(p, v); e != nil {
		return
	}
	return p.ReadMessageEnd()
}

// sampleMessage is a message of many shapes, and its bytes.
func sampleMessage(k int) (*val, []byte) {
	bl := func() *val { return &val{t: thrift.BOOL, b: true} }
	v := &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"a"}}
	switch sym.Choose("shape", 10) {
	case 0:
		v.kids = []*val{bl()}
	case 1:
		v.kids = []*val{{t: thrift.I32, i: -12}}
	case 2:
		v.kids = []*val{{t: thrift.DOUBLE, d: 1.5}}
	case 3:
		v.kids = []*val{{t: thrift.STRING, s: "x\"\\\n"}}
	case 4:
		v.kids = []*val{{t: thrift.BINARY, x: []byte("xyzw")}}
	case 5:
		v.kids = []*val{{t: thrift.LIST, et: thrift.BOOL, kids: []*val{bl(), {t: thrift.BOOL}}}}
	case 6:
		v.kids = []*val{{t: thrift.MAP, kt: thrift.STRING, et: thrift.SET, kids: []*val{{t: thrift.STRING, s: "k"}, {t: thrift.SET, et: thrift.BYTE, kids: []*val{{t: thrift.BYTE, y: 3}}}}}}
	case 7:
		v.kids = []*val{{t: thrift.STRUCT, ids: []int16{2}, names: []string{"b"}, kids: []*val{bl()}}, bl()}
		v.ids = append(v.ids, 5)
		v.names = append(v.names, "c")
	case 8:
		one := func() *val { return &val{t: thrift.STRUCT, ids: []int16{2}, names: []string{"b"}, kids: []*val{bl()}} }
		v.kids = []*val{{t: thrift.LIST, et: thrift.STRUCT, kids: []*val{one(), one()}}}
	case 9:
		one := func(t thrift.TType) *val { return &val{t: t, et: thrift.BYTE, kids: []*val{{t: thrift.BYTE, y: 3}}} }
		v.kids = []*val{{t: thrift.SET, et: thrift.LIST, kids: []*val{one(thrift.LIST), one(thrift.LIST)}}}
	}
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	ok(p.WriteMessageBegin("m", 1, 2), "WriteMessageBegin fails")
	write(p, v)
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	ok(p.Flush(), "Flush fails")
	return v, append([]byte(nil), buf.Bytes()...)
}

// C11_Version: a message of the JSON protocol begins with the number 1; one that begins with another is refused.
func C11_Version() {
	n := sym.Range("len", 1, 2)
	v := sym.Bytes("version", n)
	for i := range v {
		sym.Assume(v[i] >= '0' && v[i] <= '9' || i == 0 && n > 1 && v[i] == '-')
	}
	sym.Assume(n == 1 || v[0] != '0' && (v[0] != '-' || v[1] != '0'))
	in := thrift.NewTMemoryBuffer()
	in.Write([]byte("["))
	in.Write(v)
	in.Write([]byte(",\"m\",2,-7,[]]"))
	name, typ, seq, e := mk(kJSON, in).ReadMessageBegin()
	sym.Assert((e == nil) == (n == 1 && v[0] == '1'), "a message of another version is accepted, or one of this version refused")
	if e == nil {
		sym.Assert(name == "m" && typ == 2 && seq == -7, "the header of a message is read differently")
	}
	sym.Reach("end")
}

// C11_Between: between two values in a container, there is a comma (in a map, a colon after the key) and
// nothing else, whatever the kinds of the values.
func C11_Between() {
	k := jsonKind()
	in := thrift.NewTMemoryBuffer()
	first := []string{"1", "\"x\"", "[3,0]", "{}", "true"}[sym.Choose("first", 5)]
	texts := []string{"1", "\"x\"", "[3,0]", "{}", "true", "1.5", "\"eA==\"", "[\"i8\",\"i8\",0]"}
	j := sym.Choose("second", len(texts)+1)
	in.Write([]byte("[" + first))
	c := sym.Byte("separator")
	in.Write([]byte{c})
	s := "[3,0]"
	if j < len(texts) {
		s = texts[j]
	}
	if k == kSimple && j == 7 {
		s = "[3,3,0]"
	}
	in.Write([]byte(s + "]"))
	p := mk(k, in)
	_, e := p.(opener).ParseListBegin()
	ok(e, "the beginning of a list is refused")
	switch first {
	case "1":
		_, e = p.ReadI32()
	case "\"x\"":
		_, e = p.ReadString()
	case "true":
		_, e = p.ReadBool()
	case "[3,0]":
		_, _, e = p.ReadListBegin()
		ok(e, "the beginning of a list is refused")
		e = p.ReadListEnd()
	case "{}":
		_, e = p.ReadStructBegin()
		ok(e, "the beginning of a struct is refused")
		e = p.ReadStructEnd()
	}
	if c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' { // the first number goes on
		sym.Assume(first != "1")
	}
	if e != nil {
		sym.Assert(c != ',', "a value is refused")
		sym.Reach("end")
		return
	}
	switch j {
	case 0:
		_, e = p.ReadI64()
	case 1:
		_, e = p.ReadString()
	case 2:
		_, _, e = p.ReadListBegin()
	case 3:
		_, e = p.ReadStructBegin()
	case 4:
		_, e = p.ReadBool()
	case 5:
		_, e = p.ReadDouble()
	case 6:
		_, e = p.ReadBinary()
	case 7:
		_, _, _, e = p.ReadMapBegin()
	case 8:
		_, _, e = p.ReadSetBegin()
	}
	sym.Assert((e == nil) == (c == ','), "two values are read although there is no comma between them, or refused although there is one")
	sym.Reach("end")
}

// opener is what both JSON protocols offer beside the protocol itself.
type opener interface {
	ParseListBegin() (bool, thrift.TProtocolException)
}

// C11_Truncated: a message cut anywhere is refused.
func C11_Truncated() {
	k := jsonKind()
	v, b := sampleMessage(k)
	in := thrift.NewTMemoryBuffer()
	n := sym.Choose("cut", len(b)+1)
	in.Write(b[:n])
	e := message(mk(k, in), v)
	sym.Assert((e == nil) == (n == len(b)), "a message is accepted although it is cut, or refused although it is whole")
	sym.Reach("end")
}

// C11_Mutated: a message with one byte changed to any other, removed or inserted is read normally or refused,
// and if it is accepted, it is a JSON text.
func C11_Mutated() {
	k := jsonKind()
	v, b := sampleMessage(k)
	i := sym.Choose("at", len(b))
	c := sym.Byte("byte")
	if v.kids[0].t == thrift.BINARY { // base64 may be broken into lines
		sym.Assume(c != '\n' && c != '\r')
	}
	var m []byte
	switch sym.Choose("how", 3) {
	case 0:
		m = append(append(append(m, b[:i]...), c), b[i+1:]...)
	case 1:
		m = append(append(append(m, b[:i]...), c), b[i:]...)
	case 2:
		m = append(append(m, b[:i]...), b[i+1:]...)
	}
	in := thrift.NewTMemoryBuffer()
	in.Write(m)
	if e := message(mk(k, in), v); e == nil {
		p := &jparser{b: m, loose: true}
		p.value()
		sym.Assert(!p.bad, "a text that is not JSON is accepted")
	}
	sym.Reach("end")
}
