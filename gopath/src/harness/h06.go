package harness

import (
	"sym"
	"thrift"
)

// C06_Int: every integer type, every value.
func C06_Int() { jsonInts(kSimple) }

// C06_Double: doubles.
func C06_Double() { jsonDoubles(kSimple) }

// C06_Text: strings of any characters.
func C06_Text() { jsonText(kSimple) }

// C06_Binary: binaries of any bytes.
func C06_Binary() { jsonBinary(kSimple) }

// C06_Message: message headers.
func C06_Message() { jsonMessage(kSimple) }

// C06_Elements: containers of every element type and size.
func C06_Elements() { jsonElements(kSimple) }

// C06_Tree: nested values.
func C06_Tree() {
	g := &gen{k: kSimple, leaves: []thrift.TType{thrift.BOOL}, nested: allNested, width: sym.Bound(1, 2)}
	roundTrip(kSimple, mkr(kSimple), mkr(kSimple), g.of(pick("root", allNested), 3))
}

// C06_Names: struct fields come back in order under their names.
func C06_Names() {
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 0, sym.Bound(2, 3))
	for j := 0; j < n; j++ {
		v.ids = append(v.ids, sym.Int16("id"))
		v.names = append(v.names, text(sym.Range("len", 0, 1)))
		v.kids = append(v.kids, &val{t: thrift.BOOL, b: sym.Bool("bool")})
	}
	roundTrip(kSimple, mkr(kSimple), mkr(kSimple), v)
}

// C06_Factory: the JSON factories build the protocol they say, on the transport given.
func C06_Factory() {
	buf := thrift.NewTMemoryBuffer()
	var f thrift.TProtocolFactory = thrift.NewTSimpleJSONProtocolFactory()
	want := `[7,[8,1,1]]`
	if sym.Choose("kind", 2) == 1 {
		f = thrift.NewTJSONProtocolFactory()
		want = `{"7":{"i32":1}}`
	}
	p := f.GetProtocol(buf)
	sym.Assert(p.Transport() == thrift.TTransport(buf), "the protocol has another transport")
	_ = want
	_, isJ := p.(*thrift.TJSONProtocol)
	_, isS := p.(*thrift.TSimpleJSONProtocol)
	sym.Assert(isJ == (want[0] == '{') && isS != isJ, "the factory builds another protocol")
	ok(p.WriteBool(true), "WriteBool fails")
	sym.Assert(string(buf.Bytes()) == "true", "text of true")
	sym.Reach("end")
}
