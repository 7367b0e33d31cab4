//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

// thing is a generated struct.
type thing interface {
	thrift.TStruct
	Read(thrift.TProtocol) thrift.TProtocolException
	Write(thrift.TProtocol) thrift.TProtocolException
	Equals(interface{}) bool
	CompareTo(interface{}) (int, bool)
}

// slot is a field of a generated struct, as the IDL declares it.
type slot struct {
	id   int16
	name string
	t    thrift.TType
	opt  bool // optional: written only if it differs from the default
	def  *val // the value of a new struct; nil: never set, and not written
	put  func(interface{})
	get  func() interface{}
}

// isFailure: v is a Failure (other structs are Base).
func isFailure(v *val) bool { return len(v.names) == 2 && v.names[0] == "code" }

// native is the value of v in its Go representation; enums are int32, structs are Base or Failure.
func native(v *val) interface{} {
	switch v.t {
	case thrift.BOOL:
		return v.b
	case thrift.BYTE:
		return v.y
	case thrift.I16:
		return v.h
	case thrift.I32:
		return v.i
	case thrift.I64:
		return v.l
	case thrift.DOUBLE:
		return v.d
	case thrift.STRING:
		return v.s
	case thrift.BINARY:
		return v.x
	case thrift.STRUCT:
		if isPoint(v) || isRefused(v) {
			return included(v)
		}
		if isFailure(v) {
			f := every.NewFailure()
			f.Code, f.Reason = v.kids[0].i, v.kids[1].s
			return f
		}
		b := every.NewBase()
		fill(baseSlots(b), v)
		return b
	case thrift.LIST:
		l := thrift.NewTList(v.et, len(v.kids))
		for _, c := range v.kids {
			l.Push(native(c))
		}
		return l
	case thrift.SET:
		s := thrift.NewTSet(v.et, len(v.kids))
		for _, c := range v.kids {
			s.Add(native(c))
		}
		return s
	}
	m := thrift.NewTMap(v.kt, v.et, len(v.kids)/2)
	for i := 0; i < len(v.kids); i += 2 {
		m.Set(native(v.kids[i]), native(v.kids[i+1]))
	}
	return m
}

// goIs: x is the Go representation of v.
func goIs(x interface{}, v *val) bool {
	switch v.t {
	case thrift.BOOL:
		r, k := x.(bool)
		return k && r == v.b
	case thrift.BYTE:
		r, k := x.(byte)
		return k && r == v.y
	case thrift.I16:
		r, k := x.(int16)
		return k && r == v.h
	case thrift.I32:
		r, k := x.(int32)
		return k && r == v.i
	case thrift.I64:
		r, k := x.(int64)
		return k && r == v.l
	case thrift.DOUBLE:
		r, k := x.(float64)
		return k && sameDouble(r, v.d)
	case thrift.STRING:
		r, k := x.(string)
		return k && r == v.s
	case thrift.BINARY:
		r, k := x.([]byte)
		return k && string(r) == string(v.x)
	case thrift.STRUCT:
		if isPoint(v) || isRefused(v) {
			return isIncluded(x, v)
		}
		if isFailure(v) {
			f, k := x.(*every.Failure)
			return k && f != nil && sameException(f, v)
		}
		b, k := x.(*every.Base)
		return k && b != nil && holds(baseSlots(b), v)
	case thrift.LIST:
		l, k := x.(thrift.TList)
		if !k || l == nil || l.Len() != len(v.kids) {
			return false
		}
		for i, c := range v.kids {
			if !goIs(l.At(i), c) {
				return false
			}
		}
		return true
	case thrift.SET:
		s, k := x.(thrift.TSet)
		if !k || s == nil || s.Len() != len(v.kids) {
			return false
		}
		for _, c := range v.kids {
			if !s.Contains(native(c)) {
				return false
			}
		}
		return true
	}
	m, k := x.(thrift.TMap)
	if !k || m == nil || m.Len() != len(v.kids)/2 {
		return false
	}
	for i := 0; i < len(v.kids); i += 2 {
		r, found := m.Get(native(v.kids[i]))
		if !found || !goIs(r, v.kids[i+1]) {
			return false
		}
	}
	return true
}

// fill sets the fields of v.
func fill(s []slot, v *val) {
	for j, id := range v.ids {
		for i := range s {
			if s[i].id == id {
				s[i].put(native(v.kids[j]))
			}
		}
	}
}

// holds: the fields have the values in v, those not in v the value of a new struct.
func holds(s []slot, v *val) bool {
	for i := range s {
		want := s[i].def
		for j, id := range v.ids {
			if s[i].id == id {
				want = v.kids[j]
			}
		}
		if want == nil {
			if s[i].get() != nil {
				return false
			}
		} else if !goIs(s[i].get(), want) {
			return false
		}
	}
	return true
}

func (v *val) field(id int16, name string, c *val) {
	v.ids = append(v.ids, id)
	v.names = append(v.names, name)
	v.kids = append(v.kids, c)
}

// colored: the value of a field of an enum (nil: it was never set).
func colored(c every.Color) interface{} {
	if int64(c) == unset {
		return nil
	}
	return int32(c)
}

func zero(t thrift.TType) *val { return &val{t: t} }

// baseSlots are the fields of b.
func baseSlots(b *every.Base) []slot {
	return []slot{
		{1, "a_bool", thrift.BOOL, false, zero(thrift.BOOL), func(x interface{}) { b.ABool = x.(bool) }, func() interface{} { return b.ABool }},
		{2, "a_byte", thrift.BYTE, false, zero(thrift.BYTE), func(x interface{}) { b.AByte = x.(byte) }, func() interface{} { return b.AByte }},
		{3, "a_short", thrift.I16, false, zero(thrift.I16), func(x interface{}) { b.AShort = x.(int16) }, func() interface{} { return b.AShort }},
		{4, "an_int", thrift.I32, false, zero(thrift.I32), func(x interface{}) { b.AnInt = x.(int32) }, func() interface{} { return b.AnInt }},
		{5, "a_long", thrift.I64, false, zero(thrift.I64), func(x interface{}) { b.ALong = x.(int64) }, func() interface{} { return b.ALong }},
		{6, "a_double", thrift.DOUBLE, false, zero(thrift.DOUBLE), func(x interface{}) { b.ADouble = x.(float64) }, func() interface{} { return b.ADouble }},
		{7, "a_string", thrift.STRING, false, zero(thrift.STRING), func(x interface{}) { b.AString = x.(string) }, func() interface{} { return b.AString }},
		{8, "a_binary", thrift.BINARY, false, nil, func(x interface{}) { b.ABinary = x.([]byte) }, func() interface{} { return bytesOrNil(b.ABinary) }},
		{9, "a_color", thrift.I32, false, nil, func(x interface{}) { b.AColor = every.Color(x.(int32)) }, func() interface{} { return colored(b.AColor) }},
	}
}

func bytesOrNil(b []byte) interface{} {
	if b == nil {
		return nil
	}
	return b
}

func structOrNil(b *every.Base) interface{} {
	if b == nil {
		return nil
	}
	return b
}

// an is a small value of type t that no field has by default.
func an(t thrift.TType) *val {
	return &val{t: t, b: true, y: 11, h: -12, i: 13, l: 1 << 40, d: 15.5, s: "sixteen", x: []byte("17")}
}

// protocols for generated structs: simple JSON names its fields, the others number them.
func anyProtocol() int { return sym.Choose("protocol", 4) }

func leaves(k int) *gen {
	return &gen{k: k, lens: []int{0, 2}, digits: k == kJSON || k == kSimple, ascii: k == kJSON || k == kSimple}
}

var tail31 = &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{{t: thrift.BOOL, b: true}}}

// onTheWire writes s and checks that exactly v is on the wire.
func onTheWire(k int, s thing, v *val) {
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	ok(s.Write(p), "Write fails")
	if k != kSimple {
		write(p, tail31)
	}
	ok(p.Flush(), "Flush fails")
	checkUnordered(k, q, v)
	if k != kSimple {
		check(k, q, tail31)
	}
}

// checkUnordered is check, but sets and maps may come in any order.
func checkUnordered(k int, p thrift.TProtocol, v *val) {
	each := 1
	switch v.t {
	case thrift.STRUCT:
		_, e := p.ReadStructBegin()
		ok(e, "ReadStructBegin fails")
		for j, c := range v.kids {
			name, t, id, e := p.ReadFieldBegin()
			ok(e, "ReadFieldBegin fails")
			if k == kSimple {
				sym.Assert(name == v.names[j], "field name differs")
			} else {
				sym.Assert(sameType(t, c.t), "field type differs")
				sym.Assert(id == v.ids[j], "field id differs")
			}
			checkUnordered(k, p, c)
			ok(p.ReadFieldEnd(), "ReadFieldEnd fails")
		}
		_, t, _, e := p.ReadFieldBegin()
		ok(e, "ReadFieldBegin at the stop fails")
		sym.Assert(t == thrift.STOP, "no stop after the last field")
		ok(p.ReadStructEnd(), "ReadStructEnd fails")
		return
	case thrift.LIST:
		t, n, e := p.ReadListBegin()
		ok(e, "ReadListBegin fails")
		sym.Assert(sameType(t, v.et), "list element type differs")
		sym.Assert(n == len(v.kids), "list size differs")
		for _, c := range v.kids {
			checkUnordered(k, p, c)
		}
		ok(p.ReadListEnd(), "ReadListEnd fails")
		return
	case thrift.SET:
		t, n, e := p.ReadSetBegin()
		ok(e, "ReadSetBegin fails")
		sym.Assert(sameType(t, v.et), "set element type differs")
		sym.Assert(n == len(v.kids), "set size differs")
	case thrift.MAP:
		kt, et, n, e := p.ReadMapBegin()
		ok(e, "ReadMapBegin fails")
		sym.Assert(n == len(v.kids)/2, "map size differs")
		if k != kCompact || n > 0 {
			sym.Assert(sameType(kt, v.kt), "map key type differs")
			sym.Assert(sameType(et, v.et), "map value type differs")
		}
		each = 2
	default:
		check(k, p, v)
		return
	}
	// every element is one of those left
	left := v.kids
	for len(left) > 0 {
		r := readLike(p, left[0])
		i := 0
		for i < len(left) && !sameLeaf(r, left[i]) {
			i += each
		}
		sym.Assert(i < len(left), "an element or key differs")
		if each == 2 {
			checkUnordered(k, p, left[i+1])
		}
		left = append(append([]*val{}, left[:i]...), left[i+each:]...)
	}
	if each == 1 {
		ok(p.ReadSetEnd(), "ReadSetEnd fails")
	} else {
		ok(p.ReadMapEnd(), "ReadMapEnd fails")
	}
}

// readLike reads an element of a set or a key of a map, of the base type that v has.
func readLike(p thrift.TProtocol, v *val) *val {
	r := &val{t: v.t}
	var e thrift.TProtocolException
	switch v.t {
	case thrift.BOOL:
		r.b, e = p.ReadBool()
	case thrift.BYTE:
		r.y, e = p.ReadByte()
	case thrift.I16:
		r.h, e = p.ReadI16()
	case thrift.I32:
		r.i, e = p.ReadI32()
	case thrift.I64:
		r.l, e = p.ReadI64()
	case thrift.DOUBLE:
		r.d, e = p.ReadDouble()
	case thrift.STRING:
		r.s, e = p.ReadString()
	case thrift.BINARY:
		r.x, e = p.ReadBinary()
	default:
		panic("no element or key of this type is expected")
	}
	ok(e, "reading an element or key fails")
	return r
}

func sameLeaf(a, b *val) bool { return goIs(native(a), b) }

// fromTheWire reads v into s and checks that exactly v is read.
func fromTheWire(k int, s thing, v *val) {
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	write(p, v)
	if k != kSimple {
		write(p, tail31)
	}
	ok(p.Flush(), "Flush fails")
	ok(s.Read(q), "Read fails")
	if k != kSimple {
		check(k, q, tail31)
	}
}

// onWire is what of v a struct with these fields writes: all but optional fields with their default values.
func onWire(s []slot, v *val) *val {
	w := &val{t: thrift.STRUCT}
	for i := range s {
		var c *val
		for j, id := range v.ids {
			if s[i].id == id {
				c = v.kids[j]
			}
		}
		if c == nil && !s[i].opt {
			c = s[i].def
		}
		if c != nil {
			w.field(s[i].id, s[i].name, c)
		}
	}
	return w
}

// C31_Base: a struct with a field of every base type; one of them with any value.
func C31_Base() {
	k := anyProtocol()
	b := every.NewBase()
	s := baseSlots(b)
	free := sym.Choose("field", len(s))
	g := leaves(k)
	v := &val{t: thrift.STRUCT}
	for i := range s {
		c := an(s[i].t)
		if i == free {
			c = g.of(s[i].t, 0)
		}
		v.field(s[i].id, s[i].name, c)
	}
	if sym.Choose("direction", 2) == 0 {
		fill(s, v)
		onTheWire(k, b, v)
	} else {
		fromTheWire(k, b, v)
		sym.Assert(holds(s, v), "a field is read as another value")
	}
	sym.Reach("end")
}

// C31_Some: any three fields in any order are read, the others keep the values of a new struct.
func C31_Some() {
	k := anyProtocol()
	b := every.NewBase()
	s := baseSlots(b)
	v := &val{t: thrift.STRUCT}
	for j := 0; j < 3; j++ {
		i := sym.Choose("field", len(s))
		c := an(s[i].t)
		c.i += int32(j)
		v.field(s[i].id, s[i].name, c)
	}
	fromTheWire(k, b, v)
	// (the last one of the same field counts)
	sym.Assert(holds(s, v), "a field is read as another value")
	sym.Reach("end")
}

// C31_Foreign: a field with any id and any type is read if the struct declares that id with that type, and skipped
// otherwise; so are the fields around it.
func C31_Foreign() {
	k := typed[sym.Choose("protocol", 3)]
	b := every.NewBase()
	s := baseSlots(b)
	g := leaves(k)
	g.leaves, g.nested, g.width = []thrift.TType{thrift.BYTE}, nil, 1
	t := pick("type", allTypes)
	c := g.of(t, 1)
	id := sym.Int16("id")
	if k == kJSON {
		id = int16(sym.Choose("id", 12)) - 1
	}
	sym.Assume(id != 4 && id != 7)
	// (JSON has binary values as base64)
	sym.Assume(k != kJSON || t != thrift.STRING || id != 8)
	v := &val{t: thrift.STRUCT}
	first, last := an(thrift.I32), an(thrift.STRING)
	v.field(4, "an_int", first)
	v.field(id, "", c)
	v.field(7, "a_string", last)
	fromTheWire(k, b, v)
	want := &val{t: thrift.STRUCT}
	want.field(4, "an_int", first)
	want.field(7, "a_string", last)
	for i := range s {
		if s[i].id == id && wt(s[i].t) == wt(t) {
			if s[i].t != t { // (string and binary are the same on the wire)
				c = &val{t: s[i].t, s: string(c.x), x: []byte(c.s)}
			}
			want.field(id, s[i].name, c)
		}
	}
	sym.Assert(holds(s, want), "a field of another type or id changes what is read")
	sym.Reach("end")
}

func optionalSlots(b *every.Optional) []slot {
	return []slot{
		{1, "a_bool", thrift.BOOL, true, zero(thrift.BOOL), func(x interface{}) { b.ABool = x.(bool) }, func() interface{} { return b.ABool }},
		{2, "a_byte", thrift.BYTE, true, zero(thrift.BYTE), func(x interface{}) { b.AByte = x.(byte) }, func() interface{} { return b.AByte }},
		{3, "a_short", thrift.I16, true, zero(thrift.I16), func(x interface{}) { b.AShort = x.(int16) }, func() interface{} { return b.AShort }},
		{4, "an_int", thrift.I32, true, zero(thrift.I32), func(x interface{}) { b.AnInt = x.(int32) }, func() interface{} { return b.AnInt }},
		{5, "a_long", thrift.I64, true, zero(thrift.I64), func(x interface{}) { b.ALong = x.(int64) }, func() interface{} { return b.ALong }},
		{6, "a_double", thrift.DOUBLE, true, zero(thrift.DOUBLE), func(x interface{}) { b.ADouble = x.(float64) }, func() interface{} { return b.ADouble }},
		{7, "a_string", thrift.STRING, true, zero(thrift.STRING), func(x interface{}) { b.AString = x.(string) }, func() interface{} { return b.AString }},
		{8, "a_binary", thrift.BINARY, true, nil, func(x interface{}) { b.ABinary = x.([]byte) }, func() interface{} { return bytesOrNil(b.ABinary) }},
		{9, "a_color", thrift.I32, true, nil, func(x interface{}) { b.AColor = every.Color(x.(int32)) }, func() interface{} { return colored(b.AColor) }},
		{10, "a_struct", thrift.STRUCT, true, nil, func(x interface{}) { b.AStruct = x.(*every.Base) }, func() interface{} { return structOrNil(b.AStruct) }},
		{11, "a_list", thrift.LIST, true, nil, func(x interface{}) { b.AList = x.(thrift.TList) }, func() interface{} { return b.AList }},
		{12, "a_set", thrift.SET, true, nil, func(x interface{}) { b.ASet = x.(thrift.TSet) }, func() interface{} { return b.ASet }},
		{13, "a_map", thrift.MAP, true, nil, func(x interface{}) { b.AMap = x.(thrift.TMap) }, func() interface{} { return b.AMap }},
	}
}

// isSet is what the helper of field i says.
func isSetOptional(b *every.Optional, i int) bool {
	switch i {
	case 0:
		return b.IsSetABool()
	case 1:
		return b.IsSetAByte()
	case 2:
		return b.IsSetAShort()
	case 3:
		return b.IsSetAnInt()
	case 4:
		return b.IsSetALong()
	case 5:
		return b.IsSetADouble()
	case 6:
		return b.IsSetAString()
	case 7:
		return b.IsSetABinary()
	case 8:
		return b.IsSetAColor()
	case 9:
		return b.IsSetAStruct()
	case 10:
		return b.IsSetAList()
	case 11:
		return b.IsSetASet()
	}
	return b.IsSetAMap()
}

// some is any value of the type of field s: base types, a Base with any an_int, or containers with one element.
func some(g *gen, s *slot) *val {
	switch s.t {
	case thrift.STRUCT:
		b := &val{t: thrift.STRUCT}
		for _, f := range baseSlots(nil) {
			if f.id == 4 {
				b.field(4, "an_int", g.of(thrift.I32, 0))
			} else if f.def != nil {
				b.field(f.id, f.name, f.def)
			}
		}
		return b
	case thrift.LIST:
		return &val{t: thrift.LIST, et: thrift.I32, kids: []*val{g.of(thrift.I32, 0)}}
	case thrift.SET:
		return &val{t: thrift.SET, et: thrift.STRING, kids: []*val{g.of(thrift.STRING, 0)}}
	case thrift.MAP:
		return &val{t: thrift.MAP, kt: thrift.STRING, et: thrift.I32, kids: []*val{g.of(thrift.STRING, 0), g.of(thrift.I32, 0)}}
	}
	return g.of(s.t, 0)
}

// C31_Optional: an optional field is on the wire if and only if it differs from its default, IsSet tells, and any
// value survives.
func C31_Optional() {
	k := anyProtocol()
	b := every.NewOptional()
	s := optionalSlots(b)
	for i := range s {
		sym.Assert(!isSetOptional(b, i), "an optional field of a new struct is set")
	}
	g := leaves(k)
	v := &val{t: thrift.STRUCT}
	i := sym.Choose("field", len(s))
	c := some(g, &s[i])
	s[i].put(native(c))
	if d := s[i].def; d == nil || !goIs(native(c), d) {
		v.field(s[i].id, s[i].name, c)
	}
	if j := sym.Choose("other", len(s)+1); j < len(s) && j > i {
		o := an(s[j].t)
		if s[j].t == thrift.STRUCT || s[j].t == thrift.LIST || s[j].t == thrift.SET || s[j].t == thrift.MAP {
			o = some(g, &s[j])
		}
		s[j].put(native(o))
		v.field(s[j].id, s[j].name, o)
	}
	for i := range s {
		want := false
		for _, id := range v.ids {
			want = want || id == s[i].id
		}
		sym.Assert(isSetOptional(b, i) == want, "IsSet is wrong")
	}
	onTheWire(k, b, v)
	r := every.NewOptional()
	fromTheWire(k, r, v)
	sym.Assert(holds(optionalSlots(r), v), "a field is read as another value")
	sym.Reach("end")
}

func requiredSlots(b *every.Required) []slot {
	return []slot{
		{1, "an_int", thrift.I32, false, zero(thrift.I32), func(x interface{}) { b.AnInt = x.(int32) }, func() interface{} { return b.AnInt }},
		{2, "a_string", thrift.STRING, false, zero(thrift.STRING), func(x interface{}) { b.AString = x.(string) }, func() interface{} { return b.AString }},
		{3, "a_struct", thrift.STRUCT, false, nil, func(x interface{}) { b.AStruct = x.(*every.Base) }, func() interface{} { return structOrNil(b.AStruct) }},
		{4, "a_color", thrift.I32, false, nil, func(x interface{}) { b.AColor = every.Color(x.(int32)) }, func() interface{} { return colored(b.AColor) }},
		{5, "a_list", thrift.LIST, false, nil, func(x interface{}) { b.AList = x.(thrift.TList) }, func() interface{} { return b.AList }},
	}
}

// C31_Required: required fields are always on the wire.
func C31_Required() {
	k := anyProtocol()
	b := every.NewRequired()
	s := requiredSlots(b)
	g := leaves(k)
	v := &val{t: thrift.STRUCT}
	free := sym.Choose("field", len(s))
	for i := range s {
		var c *val
		switch {
		case i == free:
			c = some(g, &s[i])
		case s[i].t == thrift.STRUCT:
			c = &val{t: thrift.STRUCT}
			for _, f := range baseSlots(nil) {
				c.field(f.id, f.name, an(f.t))
			}
		case s[i].t == thrift.LIST:
			c = &val{t: thrift.LIST, et: thrift.STRING}
		default:
			c = zero(s[i].t)
		}
		if s[i].t == thrift.LIST && i == free {
			c = &val{t: thrift.LIST, et: thrift.STRING, kids: []*val{g.of(thrift.STRING, 0)}}
		}
		v.field(s[i].id, s[i].name, c)
	}
	if sym.Choose("direction", 2) == 0 {
		fill(s, v)
		onTheWire(k, b, v)
	} else {
		fromTheWire(k, b, v)
		sym.Assert(holds(s, v), "a field is read as another value")
	}
	sym.Reach("end")
}

func defaultSlots(b *every.Defaults) []slot {
	return []slot{
		{1, "a_bool", thrift.BOOL, false, &val{t: thrift.BOOL, b: true}, func(x interface{}) { b.ABool = x.(bool) }, func() interface{} { return b.ABool }},
		{2, "a_byte", thrift.BYTE, false, &val{t: thrift.BYTE, y: 7}, func(x interface{}) { b.AByte = x.(byte) }, func() interface{} { return b.AByte }},
		{3, "a_short", thrift.I16, false, &val{t: thrift.I16, h: -3}, func(x interface{}) { b.AShort = x.(int16) }, func() interface{} { return b.AShort }},
		{4, "an_int", thrift.I32, false, &val{t: thrift.I32, i: 100000}, func(x interface{}) { b.AnInt = x.(int32) }, func() interface{} { return b.AnInt }},
		{5, "a_long", thrift.I64, false, &val{t: thrift.I64, l: 10000000000}, func(x interface{}) { b.ALong = x.(int64) }, func() interface{} { return b.ALong }},
		{6, "a_double", thrift.DOUBLE, false, &val{t: thrift.DOUBLE, d: 1.5}, func(x interface{}) { b.ADouble = x.(float64) }, func() interface{} { return b.ADouble }},
		{7, "a_string", thrift.STRING, false, &val{t: thrift.STRING, s: "text"}, func(x interface{}) { b.AString = x.(string) }, func() interface{} { return b.AString }},
		{8, "another", thrift.STRING, true, &val{t: thrift.STRING, s: "more"}, func(x interface{}) { b.Another = x.(string) }, func() interface{} { return b.Another }},
		{9, "more", thrift.I32, true, &val{t: thrift.I32, i: 5}, func(x interface{}) { b.More = x.(int32) }, func() interface{} { return b.More }},
		{10, "a_color", thrift.I32, false, &val{t: thrift.I32, i: 2}, func(x interface{}) { b.AColor = every.Color(x.(int32)) }, func() interface{} { return colored(b.AColor) }},
		{11, "b", thrift.BOOL, true, &val{t: thrift.BOOL, b: true}, func(x interface{}) { b.B = x.(bool) }, func() interface{} { return b.B }},
		{12, "d", thrift.DOUBLE, true, &val{t: thrift.DOUBLE, d: 2.5}, func(x interface{}) { b.D = x.(float64) }, func() interface{} { return b.D }},
		{13, "precise", thrift.DOUBLE, true, &val{t: thrift.DOUBLE, d: 1.23456789}, func(x interface{}) { b.Precise = x.(float64) }, func() interface{} { return b.Precise }},
		{14, "whole", thrift.DOUBLE, true, &val{t: thrift.DOUBLE, d: 3}, func(x interface{}) { b.Whole = x.(float64) }, func() interface{} { return b.Whole }},
		{15, "negative", thrift.BYTE, false, &val{t: thrift.BYTE, y: 254}, func(x interface{}) { b.Negative = x.(byte) }, func() interface{} { return b.Negative }},
		{16, "shade", thrift.I32, true, &val{t: thrift.I32, i: 1}, func(x interface{}) { b.Shade = every.Color(x.(int32)) }, func() interface{} { return colored(b.Shade) }},
		{17, "a_number", thrift.I32, false, &val{t: thrift.I32, i: 9}, func(x interface{}) { b.ANumber = every.Number(x.(int32)) }, func() interface{} { return int32(b.ANumber) }},
		{18, "a_paint", thrift.I32, false, &val{t: thrift.I32, i: 5}, func(x interface{}) { b.APaint = every.Paint(x.(int32)) }, func() interface{} { return int32(b.APaint) }},
	}
}

// C31_Defaults: a new struct has the declared defaults, also after fields are read that it was not sent; any value of
// a field survives writing and reading, also the zero value.
func C31_Defaults() {
	k := anyProtocol()
	b := every.NewDefaults()
	s := defaultSlots(b)
	none := &val{t: thrift.STRUCT}
	sym.Assert(holds(s, none), "a new struct lacks a default value")
	g := leaves(k)
	i := sym.Choose("field", len(s))
	c := g.of(s[i].t, 0)
	v := &val{t: thrift.STRUCT}
	v.field(s[i].id, s[i].name, c)
	if sym.Choose("direction", 2) == 1 {
		fromTheWire(k, b, v)
		sym.Assert(holds(s, v), "a field is read as another value, or a default is lost")
		sym.Reach("end")
		return
	}
	fill(s, v)
	if k == kSimple || k == kJSON {
		// (numbers are long text)
		buf := thrift.NewTMemoryBuffer()
		p, q := mk(k, buf), mk(k, buf)
		ok(b.Write(p), "Write fails")
		ok(p.Flush(), "Flush fails")
		r := every.NewDefaults()
		ok(r.Read(q), "Read fails")
		sym.Assert(holds(defaultSlots(r), v), "a field is read as another value")
		sym.Reach("end")
		return
	}
	w := onWire(s, v)
	if s[i].opt && goIs(native(c), s[i].def) && s[i].name != "shade" {
		w = onWire(s, none)
	}
	if i != 15 {
		// (an enum with a default is always set)
		x := &val{t: thrift.STRUCT}
		for j := range w.ids {
			if w.ids[j] == 17 {
				x.field(16, "shade", s[15].def)
			}
			x.field(w.ids[j], w.names[j], w.kids[j])
		}
		w = x
	}
	onTheWire(k, b, w)
	sym.Reach("end")
}
