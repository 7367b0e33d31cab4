package harness

import (
	"encoding/base64"
	"strconv"
	"sym"
	"thrift"
)

// An independent JSON parser (RFC 8259), for the texts the writers emit.

type jnode struct {
	kind byte // 'o' object, 'a' array, 's' string, 'n' number, 't', 'f', '0' null
	s    string
	keys []string
	kids []*jnode
}

type jparser struct {
	b   []byte
	pos int
	bad bool
	// loose numbers: leading plus and zeros, missing digits about the point, NaN and infinities
	loose bool
}

func (p *jparser) ws() {
	for p.pos < len(p.b) {
		c := p.b[p.pos]
		if c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		p.pos++
	}
}

func (p *jparser) fail() *jnode {
	p.bad = true
	return nil
}

func (p *jparser) peek() byte {
	if p.pos >= len(p.b) {
		return 0
	}
	return p.b[p.pos]
}

func (p *jparser) lit(s string, kind byte) *jnode {
	if len(p.b)-p.pos < len(s) || string(p.b[p.pos:p.pos+len(s)]) != s {
		return p.fail()
	}
	p.pos += len(s)
	return &jnode{kind: kind}
}

func (p *jparser) value() *jnode {
	p.ws()
	if p.bad || p.pos >= len(p.b) {
		return p.fail()
	}
	switch c := p.b[p.pos]; {
	case c == '{':
		n := &jnode{kind: 'o'}
		p.pos++
		p.ws()
		if p.peek() == '}' {
			p.pos++
			return n
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return p.fail()
			}
			k := p.str()
			if p.bad {
				return nil
			}
			p.ws()
			if p.peek() != ':' {
				return p.fail()
			}
			p.pos++
			v := p.value()
			if p.bad {
				return nil
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			p.ws()
			if p.peek() == ',' {
				p.pos++
				continue
			}
			if p.peek() != '}' {
				return p.fail()
			}
			p.pos++
			return n
		}
	case c == '[':
		n := &jnode{kind: 'a'}
		p.pos++
		p.ws()
		if p.peek() == ']' {
			p.pos++
			return n
		}
		for {
			v := p.value()
			if p.bad {
				return nil
			}
			n.kids = append(n.kids, v)
			p.ws()
			if p.peek() == ',' {
				p.pos++
				continue
			}
			if p.peek() != ']' {
				return p.fail()
			}
			p.pos++
			return n
		}
	case c == '"':
		return &jnode{kind: 's', s: p.str()}
	case c == 't':
		return p.lit("true", 't')
	case c == 'f':
		return p.lit("false", 'f')
	case c == 'n':
		return p.lit("null", '0')
	}
	return p.number()
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func (p *jparser) digits() {
	if !digit(p.peek()) {
		p.bad = true
	}
	for digit(p.peek()) {
		p.pos++
	}
}

func (p *jparser) number() *jnode {
	start := p.pos
	if p.loose {
		m, _, _, okay := number(p.b[p.pos:])
		p.pos += m
		p.bad = !okay
		return &jnode{kind: 'n'}
	}
	if p.peek() == '-' {
		p.pos++
	}
	if p.peek() == '0' {
		p.pos++
	} else {
		p.digits()
	}
	if p.peek() == '.' {
		p.pos++
		p.digits()
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.pos++
		if c := p.peek(); c == '+' || c == '-' {
			p.pos++
		}
		p.digits()
	}
	return &jnode{kind: 'n', s: string(p.b[start:p.pos])}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jparser) u4() int {
	if len(p.b)-p.pos < 4 {
		p.bad = true
		return 0
	}
	r := 0
	for i := 0; i < 4; i++ {
		h := hexv(p.b[p.pos+i])
		if h < 0 {
			p.bad = true
			return 0
		}
		r = r<<4 | h
	}
	p.pos += 4
	return r
}

func (p *jparser) str() string {
	p.pos++
	var o []byte
	for p.pos < len(p.b) {
		c := p.b[p.pos]
		p.pos++
		switch {
		case c == '"':
			return string(o)
		case c < 0x20:
			p.bad = true
			return ""
		case c == '\\':
			e := p.peek()
			p.pos++
			switch e {
			case '"', '\\', '/':
				o = append(o, e)
			case 'b':
				o = append(o, 8)
			case 'f':
				o = append(o, 12)
			case 'n':
				o = append(o, 10)
			case 'r':
				o = append(o, 13)
			case 't':
				o = append(o, 9)
			case 'u':
				r := p.u4()
				if p.bad {
					return ""
				}
				if r < 0x80 {
					o = append(o, byte(r))
				} else {
					o = append(o, string(rune(r))...)
				}
			default:
				p.bad = true
				return ""
			}
		default:
			o = append(o, c)
		}
	}
	p.bad = true
	return ""
}

// parse reads the whole text as one JSON value.
func parse(b []byte) *jnode {
	p := &jparser{b: b}
	n := p.value()
	p.ws()
	sym.Assert(!p.bad && p.pos == len(b), "the text is not one well-formed JSON value")
	return n
}

func isInt(n *jnode, v int64) bool { return n.kind == 'n' && n.s == strconv.FormatInt(v, 10) }

// same asserts that the parsed text has the content of v.
func same(k int, n *jnode, v *val) {
	switch v.t {
	case thrift.BOOL:
		sym.Assert(n.kind == 't' && v.b || n.kind == 'f' && !v.b, "boolean content")
	case thrift.BYTE:
		sym.Assert(isInt(n, int64(v.y)), "byte content")
	case thrift.I16:
		sym.Assert(isInt(n, int64(v.h)), "i16 content")
	case thrift.I32:
		sym.Assert(isInt(n, int64(v.i)), "i32 content")
	case thrift.I64:
		sym.Assert(isInt(n, v.l), "i64 content")
	case thrift.DOUBLE:
		switch {
		case v.d != v.d:
			sym.Assert(n.kind == 's' && n.s == "NaN", "NaN")
		case v.d > 1.7976931348623157e308:
			sym.Assert(n.kind == 's' && n.s == "Infinity", "infinity")
		case v.d < -1.7976931348623157e308:
			sym.Assert(n.kind == 's' && n.s == "-Infinity", "negative infinity")
		default:
			sym.Assert(n.kind == 'n' && n.s == strconv.FormatFloat(v.d, 'g', -1, 64), "double content")
		}
	case thrift.STRING:
		sym.Assert(n.kind == 's' && n.s == v.s, "string content")
	case thrift.BINARY:
		sym.Assert(n.kind == 's' && n.s == base64.StdEncoding.EncodeToString(v.x), "binary content")
	case thrift.STRUCT:
		sym.Assert(n.kind == 'o' && len(n.keys) == len(v.kids), "struct content")
		for j, c := range v.kids {
			if k == kSimple {
				sym.Assert(n.keys[j] == v.names[j], "field name")
				same(k, n.kids[j], c)
			} else {
				sym.Assert(n.keys[j] == strconv.FormatInt(int64(v.ids[j]), 10), "field id")
				f := n.kids[j]
				sym.Assert(f.kind == 'o' && len(f.keys) == 1 && f.keys[0] != "", "field content")
				same(k, f.kids[0], c)
			}
		}
	case thrift.LIST, thrift.SET:
		sym.Assert(n.kind == 'a' && len(n.kids) == 2+len(v.kids), "list content")
		sym.Assert(n.kids[0].kind == 's' || n.kids[0].kind == 'n', "list element type")
		sym.Assert(isInt(n.kids[1], int64(len(v.kids))), "list size")
		for j, c := range v.kids {
			same(k, n.kids[2+j], c)
		}
	case thrift.MAP:
		sym.Assert(n.kind == 'a' && len(n.kids) == 3+len(v.kids), "map content")
		sym.Assert(isInt(n.kids[2], int64(len(v.kids)/2)), "map size")
		for j, c := range v.kids {
			same(k, n.kids[3+j], c)
		}
	}
}

func jkind() int { return kJSON + sym.Choose("proto", 2) }

// wellFormed writes v and parses the text.
func wellFormed(k int, v *val) {
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	same(k, parse(buf.Bytes()), v)
	// the writer is ready for the next value
	buf.Reset()
	write(p, &val{t: thrift.LIST, et: thrift.BOOL, kids: []*val{{t: thrift.BOOL, b: true}}})
	same(k, parse(buf.Bytes()), &val{t: thrift.LIST, kids: []*val{{t: thrift.BOOL, b: true}}})
	sym.Reach("end")
}

// C07_Scalar: every base type, in every position, both protocols.
func C07_Scalar() {
	k := jkind()
	g := &gen{k: k, lens: []int{0, 2}}
	v := g.of(pick("type", []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.BINARY}), 0)
	switch sym.Choose("where", 4) {
	case 0:
		wellFormed(k, v)
	case 1:
		wellFormed(k, &val{t: thrift.LIST, et: v.t, kids: []*val{v, v}})
	case 2:
		wellFormed(k, &val{t: thrift.MAP, kt: v.t, et: v.t, kids: []*val{v, v, v, v}})
	case 3:
		wellFormed(k, &val{t: thrift.STRUCT, ids: []int16{1, -2}, names: []string{"a", "b"}, kids: []*val{v, v}})
	}
}

// C07_Text: strings and field names of any characters.
func C07_Text() {
	k := jkind()
	s := text(sym.Range("len", 0, sym.Bound(2, 3)))
	v := &val{t: thrift.STRING, s: s}
	switch sym.Choose("where", 3) {
	case 0:
		wellFormed(k, v)
	case 1:
		wellFormed(k, &val{t: thrift.STRUCT, ids: []int16{1, -2}, names: []string{s, "b"}, kids: []*val{v, {t: thrift.BOOL}}})
	case 2:
		wellFormed(k, &val{t: thrift.MAP, kt: thrift.STRING, et: thrift.STRING, kids: []*val{v, v}})
	}
}

// C07_Tree: nested values, both protocols.
func C07_Tree() {
	k := jkind()
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL}, nested: allNested, width: sym.Bound(1, 2)}
	wellFormed(k, g.of(pick("root", allNested), 3))
}

// C07_Wide: containers and structs of several elements, struct after struct.
func C07_Wide() {
	k := jkind()
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL}, nested: []thrift.TType{thrift.STRUCT, thrift.LIST}, width: 2}
	wellFormed(k, g.of(pick("root", allNested), 2))
}

// C07_Message: message headers around a value.
func C07_Message() {
	k := jkind()
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	name := text(sym.Range("len", 0, 1))
	typ := byte(sym.Range("t", 0, 4))
	seq := sym.Int32("seq")
	sym.Assume(seq > -1000 && seq < 1000)
	for i := 0; i < 2; i++ {
		buf.Reset()
		ok(p.WriteMessageBegin(name, thrift.TMessageType(typ), seq), "WriteMessageBegin fails")
		write(p, sentinelStruct())
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		n := parse(buf.Bytes())
		sym.Assert(n.kind == 'a', "a message is an array")
		h := n.kids
		if k == kJSON {
			sym.Assert(len(h) == 5 && isInt(h[0], 1), "protocol version")
			h = h[1:]
		}
		sym.Assert(len(h) == 4 && h[0].kind == 's' && h[0].s == name && isInt(h[1], int64(typ)) && isInt(h[2], int64(seq)), "message header")
		same(k, h[3], sentinelStruct())
	}
	sym.Reach("end")
}

// C07_Output: the exported Output calls, legal sequences: objects whose keys are any base value, nulls as values.
func C07_Output() {
	buf := thrift.NewTMemoryBuffer()
	p := thrift.NewTSimpleJSONProtocol(buf)
	n := sym.Range("entries", 0, 2)
	ok(p.OutputObjectBegin(), "OutputObjectBegin fails")
	var keys []string
	var kinds []byte
	for i := 0; i < n; i++ {
		switch sym.Choose("key", 5) {
		case 0:
			b := sym.Choose("b", 2) == 1
			ok(p.OutputBool(b), "OutputBool fails")
			if b {
				keys = append(keys, "true")
			} else {
				keys = append(keys, "false")
			}
		case 1:
			v := sym.Int64("i64")
			sym.Assume(v > -1000 && v < 1000)
			ok(p.OutputI64(v), "OutputI64 fails")
			keys = append(keys, strconv.FormatInt(v, 10))
		case 2:
			d := []float64{1.5, -1e30, 0}[sym.Choose("d", 3)]
			ok(p.OutputF64(d), "OutputF64 fails")
			keys = append(keys, strconv.FormatFloat(d, 'g', -1, 64))
		case 3:
			zero := 0.0
			d := []float64{1 / zero, -1 / zero, zero / zero}[sym.Choose("d", 3)]
			ok(p.OutputF64(d), "OutputF64 fails")
			if d > 0 {
				keys = append(keys, "Infinity")
			} else if d < 0 {
				keys = append(keys, "-Infinity")
			} else {
				keys = append(keys, "NaN")
			}
		case 4:
			s := sym.ASCII("s", 1)
			ok(p.OutputString(s), "OutputString fails")
			keys = append(keys, s)
		}
		switch sym.Choose("value", 4) {
		case 0:
			ok(p.OutputNull(), "OutputNull fails")
			kinds = append(kinds, '0')
		case 1:
			ok(p.OutputBool(true), "OutputBool fails")
			kinds = append(kinds, 't')
		case 2:
			ok(p.OutputI64(4), "OutputI64 fails")
			kinds = append(kinds, 'n')
		case 3:
			ok(p.OutputListBegin(), "OutputListBegin fails")
			if sym.Choose("nulls", 2) == 1 {
				ok(p.OutputNull(), "OutputNull fails")
				ok(p.OutputNull(), "OutputNull fails")
			}
			ok(p.OutputListEnd(), "OutputListEnd fails")
			kinds = append(kinds, 'a')
		}
	}
	ok(p.OutputObjectEnd(), "OutputObjectEnd fails")
	t := parse(buf.Bytes())
	sym.Assert(t.kind == 'o' && len(t.keys) == n, "entries of the object")
	for i := range keys {
		sym.Assert(t.keys[i] == keys[i], "key")
		sym.Assert(t.kids[i].kind == kinds[i], "value")
	}
	sym.Reach("end")
}

// C07_Quote: JsonQuote makes a JSON string of any text; JsonUnquote takes it back.
func C07_Quote() {
	s := text(sym.Range("len", 0, sym.Bound(3, 4)))
	q := thrift.JsonQuote(s)
	n := parse([]byte(q))
	sym.Assert(n.kind == 's' && n.s == s, "JsonQuote")
	r, good := thrift.JsonUnquote(q)
	sym.Assert(good && r == s, "JsonUnquote")
	sym.Reach("end")
}
