package harness

import (
	"sym"
	"thrift"
)

// Protocol kinds.
const (
	kBin     = iota // binary, strict write, strict read chosen
	kCompact        // compact
	kJSON           // JSON
	kSimple         // simple JSON
)

func mk(k int, t thrift.TTransport) thrift.TProtocol {
	switch k {
	case kBin:
		return thrift.NewTBinaryProtocol(t, true, true)
	case kCompact:
		return thrift.NewTCompactProtocol(t)
	case kJSON:
		return thrift.NewTJSONProtocol(t)
	}
	return thrift.NewTSimpleJSONProtocol(t)
}

// val is a Thrift value: the sequence of writer calls that writes it, and the values a reader must see.
type val struct {
	t     thrift.TType
	b     bool
	y     byte
	h     int16
	i     int32
	l     int64
	d     float64
	s     string
	x     []byte
	kt    thrift.TType // map: key type
	et    thrift.TType // element type (map: value type)
	kids  []*val       // elements, field values; a map's keys and values alternate
	ids   []int16
	names []string
}

// gen describes how values are made.
type gen struct {
	k       int
	leaves  []thrift.TType
	nested  []thrift.TType
	lens    []int // string lengths
	width   int   // most elements of a container or fields of a struct
	anyIds  bool  // field ids are arbitrary (otherwise small increasing ones)
	digits  bool  // integers become decimal text: restrict them
	keys    []thrift.TType
	ascii   bool
	doubles int // 0: any double; 1: a few representative shapes
}

var allLeaves = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY}
var allNested = []thrift.TType{thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}
var allTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}

func pick(name string, ts []thrift.TType) thrift.TType { return ts[sym.Choose(name, len(ts))] }

func (g *gen) typ(depth int) thrift.TType {
	if depth <= 0 {
		return pick("type", g.leaves)
	}
	n := len(g.leaves)
	j := sym.Choose("type", n+len(g.nested))
	if j < n {
		return g.leaves[j]
	}
	return g.nested[j-n]
}

func (g *gen) str() string {
	n := 0
	if len(g.lens) > 0 {
		n = g.lens[sym.Choose("len", len(g.lens))]
	}
	if g.ascii {
		return sym.ASCII("s", n)
	}
	return sym.String("s", n)
}

// of makes an arbitrary value of type t.
func (g *gen) of(t thrift.TType, depth int) *val {
	v := &val{t: t}
	switch t {
	case thrift.BOOL:
		v.b = sym.Bool("bool")
	case thrift.BYTE:
		v.y = sym.Byte("byte")
		if g.digits {
			sym.Assume(v.y < 20)
		}
	case thrift.I16:
		v.h = sym.Int16("i16")
		if g.digits {
			sym.Assume(v.h > -100 && v.h < 100)
		}
	case thrift.I32:
		v.i = sym.Int32("i32")
		if g.digits {
			sym.Assume(v.i > -100 && v.i < 100)
		}
	case thrift.I64:
		v.l = sym.Int64("i64")
		if g.digits {
			sym.Assume(v.l > -100 && v.l < 100)
		}
	case thrift.DOUBLE:
		if g.digits {
			v.d = []float64{0, 1.5, -2.25e-7, 1e300}[sym.Choose("double", 4)]
		} else {
			v.d = sym.Float64("double")
		}
	case thrift.STRING:
		v.s = g.str()
	case thrift.BINARY:
		v.x = []byte(g.str())
	case thrift.STRUCT:
		n := sym.Choose("fields", g.width+1)
		id := int16(0)
		for j := 0; j < n; j++ {
			if g.anyIds {
				id = sym.Int16("id")
			} else {
				id += int16(1 + 7*(j&1))
			}
			v.ids = append(v.ids, id)
			v.names = append(v.names, "f")
			d := depth - 1
			if j > 0 {
				d = 0
			}
			v.kids = append(v.kids, g.of(g.typ(d), d))
		}
	case thrift.LIST, thrift.SET:
		v.et = g.typ(depth - 1)
		n := sym.Choose("size", g.width+1)
		for j := 0; j < n; j++ {
			v.kids = append(v.kids, g.of(v.et, depth-1))
		}
	case thrift.MAP:
		if g.keys != nil {
			v.kt = pick("key", g.keys)
		} else {
			v.kt = g.typ(depth - 1)
		}
		v.et = pick("type", g.leaves)
		n := sym.Choose("size", g.width+1)
		for j := 0; j < n; j++ {
			v.kids = append(v.kids, g.of(v.kt, depth-1), g.of(v.et, depth-1))
		}
	}
	return v
}

func ok(e thrift.TProtocolException, what string) {
	sym.Assert(e == nil, what)
}

// write makes the writer calls of v.
func write(p thrift.TProtocol, v *val) { writeTo(p, v, ok) }

// writeTo makes the writer calls of v and hands what each returns to ok.
func writeTo(p thrift.TProtocol, v *val, ok func(thrift.TProtocolException, string)) {
	switch v.t {
	case thrift.BOOL:
		ok(p.WriteBool(v.b), "WriteBool fails")
	case thrift.BYTE:
		ok(p.WriteByte(v.y), "WriteByte fails")
	case thrift.I16:
		ok(p.WriteI16(v.h), "WriteI16 fails")
	case thrift.I32:
		ok(p.WriteI32(v.i), "WriteI32 fails")
	case thrift.I64:
		ok(p.WriteI64(v.l), "WriteI64 fails")
	case thrift.DOUBLE:
		ok(p.WriteDouble(v.d), "WriteDouble fails")
	case thrift.STRING:
		ok(p.WriteString(v.s), "WriteString fails")
	case thrift.BINARY:
		ok(p.WriteBinary(v.x), "WriteBinary fails")
	case thrift.STRUCT:
		ok(p.WriteStructBegin("S"), "WriteStructBegin fails")
		for j, c := range v.kids {
			ok(p.WriteFieldBegin(v.names[j], c.t, v.ids[j]), "WriteFieldBegin fails")
			writeTo(p, c, ok)
			ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
		}
		ok(p.WriteFieldStop(), "WriteFieldStop fails")
		ok(p.WriteStructEnd(), "WriteStructEnd fails")
	case thrift.LIST:
		ok(p.WriteListBegin(v.et, len(v.kids)), "WriteListBegin fails")
		for _, c := range v.kids {
			writeTo(p, c, ok)
		}
		ok(p.WriteListEnd(), "WriteListEnd fails")
	case thrift.SET:
		ok(p.WriteSetBegin(v.et, len(v.kids)), "WriteSetBegin fails")
		for _, c := range v.kids {
			writeTo(p, c, ok)
		}
		ok(p.WriteSetEnd(), "WriteSetEnd fails")
	case thrift.MAP:
		ok(p.WriteMapBegin(v.kt, v.et, len(v.kids)/2), "WriteMapBegin fails")
		for _, c := range v.kids {
			writeTo(p, c, ok)
		}
		ok(p.WriteMapEnd(), "WriteMapEnd fails")
	}
}

// wt is the type tag a reader reports for t.
func wt(t thrift.TType) thrift.TType {
	if t == thrift.BINARY {
		return thrift.STRING
	}
	return t
}

// sameType: a reader may report BINARY as STRING (most wire formats do not tell them apart).
func sameType(got, want thrift.TType) bool { return got == want || got == wt(want) }

func sameDouble(a, b float64) bool { return a == b || a != a && b != b }

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = r && a[i] == b[i]
	}
	return r
}

// check reads a value the way a generated reader does and compares it with v.
func check(k int, p thrift.TProtocol, v *val) {
	switch v.t {
	case thrift.BOOL:
		r, e := p.ReadBool()
		ok(e, "ReadBool fails")
		sym.Assert(r == v.b, "bool differs")
	case thrift.BYTE:
		r, e := p.ReadByte()
		ok(e, "ReadByte fails")
		sym.Assert(r == v.y, "byte differs")
	case thrift.I16:
		r, e := p.ReadI16()
		ok(e, "ReadI16 fails")
		sym.Assert(r == v.h, "i16 differs")
	case thrift.I32:
		r, e := p.ReadI32()
		ok(e, "ReadI32 fails")
		sym.Assert(r == v.i, "i32 differs")
	case thrift.I64:
		r, e := p.ReadI64()
		ok(e, "ReadI64 fails")
		sym.Assert(r == v.l, "i64 differs")
	case thrift.DOUBLE:
		r, e := p.ReadDouble()
		ok(e, "ReadDouble fails")
		sym.Assert(sameDouble(r, v.d), "double differs")
	case thrift.STRING:
		r, e := p.ReadString()
		ok(e, "ReadString fails")
		sym.Assert(r == v.s, "string differs")
	case thrift.BINARY:
		r, e := p.ReadBinary()
		ok(e, "ReadBinary fails")
		sym.Assert(string(r) == string(v.x), "binary differs")
	case thrift.STRUCT:
		_, e := p.ReadStructBegin()
		ok(e, "ReadStructBegin fails")
		for j, c := range v.kids {
			name, t, id, e := p.ReadFieldBegin()
			ok(e, "ReadFieldBegin fails")
			if k == kSimple {
				sym.Assert(name == v.names[j], "field name differs")
			} else {
				sym.Assert(sameType(t, c.t), "field type differs")
				sym.Assert(id == v.ids[j], "field id differs")
			}
			check(k, p, c)
			ok(p.ReadFieldEnd(), "ReadFieldEnd fails")
		}
		_, t, _, e := p.ReadFieldBegin()
		ok(e, "ReadFieldBegin at the stop fails")
		sym.Assert(t == thrift.STOP, "no stop after the last field")
		ok(p.ReadStructEnd(), "ReadStructEnd fails")
	case thrift.LIST:
		t, n, e := p.ReadListBegin()
		ok(e, "ReadListBegin fails")
		sym.Assert(sameType(t, v.et), "list element type differs")
		sym.Assert(n == len(v.kids), "list size differs")
		for _, c := range v.kids {
			check(k, p, c)
		}
		ok(p.ReadListEnd(), "ReadListEnd fails")
	case thrift.SET:
		t, n, e := p.ReadSetBegin()
		ok(e, "ReadSetBegin fails")
		sym.Assert(sameType(t, v.et), "set element type differs")
		sym.Assert(n == len(v.kids), "set size differs")
		for _, c := range v.kids {
			check(k, p, c)
		}
		ok(p.ReadSetEnd(), "ReadSetEnd fails")
	case thrift.MAP:
		kt, et, n, e := p.ReadMapBegin()
		ok(e, "ReadMapBegin fails")
		sym.Assert(n == len(v.kids)/2, "map size differs")
		if k != kCompact || n > 0 {
			sym.Assert(sameType(kt, v.kt), "map key type differs")
			sym.Assert(sameType(et, v.et), "map value type differs")
		}
		for _, c := range v.kids {
			check(k, p, c)
		}
		ok(p.ReadMapEnd(), "ReadMapEnd fails")
	}
}

// roundTrip writes the values to a fresh memory buffer, reads them back and checks that nothing is left.
func roundTrip(k int, w, r func(thrift.TTransport) thrift.TProtocol, vs ...*val) {
	buf := thrift.NewTMemoryBuffer()
	p := w(buf)
	for _, v := range vs {
		write(p, v)
	}
	ok(p.Flush(), "Flush fails")
	q := r(buf)
	for _, v := range vs {
		check(k, q, v)
	}
	if k <= kCompact {
		sym.Assert(buf.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

func mkr(k int) func(thrift.TTransport) thrift.TProtocol {
	return func(t thrift.TTransport) thrift.TProtocol { return mk(k, t) }
}
