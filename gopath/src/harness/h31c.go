//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

func ofBase() (thing, []slot) {
	b := every.NewBase()
	return b, baseSlots(b)
}

func ofOptional() (thing, []slot) {
	b := every.NewOptional()
	return b, optionalSlots(b)
}

func ofRequired() (thing, []slot) {
	b := every.NewRequired()
	return b, requiredSlots(b)
}

func ofDefaults() (thing, []slot) {
	b := every.NewDefaults()
	return b, defaultSlots(b)
}

// subjects are all structs with fields that can be set.
var subjects = []func() (thing, []slot){ofBase, ofOptional, ofRequired, ofDefaults, containers, defaultContainers, aliases, aliasLists, aliasStructs, unnumbered, gaps, nothing, names, ofOptionalDefaults, failure, otherException}

// plain is x as slots have it: enums and typedefs by their base values.
func plain(x interface{}) interface{} {
	switch y := x.(type) {
	case every.Color:
		return colored(y)
	case every.Paint:
		return paint(y)
	case every.Level:
		return leveled(y)
	case every.Number:
		return int32(y)
	case every.Count:
		return int32(y)
	case every.Text:
		return string(y)
	case every.Shorts:
		if y == nil {
			return nil
		}
		return thrift.TList(y)
	case every.Blob:
		return bytesOrNil([]byte(y))
	case []byte:
		return bytesOrNil(y)
	case *every.Base:
		return structOrNil(y)
	}
	return x
}

// anyFor is any value of the type of s; containers have one element of the type the IDL declares for them.
func anyFor(g *gen, n int, s *slot) *val {
	switch n {
	case 4:
		return g.shaped(containerShapes[s.id-1], 1)
	case 5:
		return g.shaped([]*shape{listOf(i32), setOf(str), mapOf(str, i32), base}[s.id-1], 1)
	case 6:
		if s.id == 3 {
			return g.shaped(listOf(one(thrift.I16)), 1)
		}
	case 7:
		return g.shaped(listOf(i32), 1)
	case 8:
		return g.shaped([]*shape{base, base, listOf(base), mapOf(i32, base), bin, listOf(bin), setOf(str)}[s.id-1], 1)
	case 13:
		return g.shaped(optionalDefaultShapes[s.id-1], 1)
	}
	if n == 2 && s.t == thrift.LIST {
		return g.shaped(listOf(str), 1)
	}
	return some(g, s)
}

// C34_Attributes: the fields of a generated struct, found by any id and by name: their declaration and value.
func C34_Attributes() {
	n := sym.Choose("struct", len(subjects))
	a, s := subjects[n]()
	v := &val{t: thrift.STRUCT}
	g := leaves(kBin)
	if len(s) > 0 && sym.Choose("set", 2) == 1 {
		i := sym.Choose("field", len(s))
		v.field(s[i].id, s[i].name, anyFor(g, n, &s[i]))
		fill(s, v)
	}
	id := sym.Int("id")
	sym.Assume(n != 12 || id != 7) // (_under is not exported)
	name := ""
	if len(s) > 0 && sym.Choose("name", 2) == 0 {
		name = s[sym.Choose("field", len(s))].name
	} else {
		name = sym.ASCII("name", sym.Choose("len", 3))
		sym.Assume(n != 9) // (an unknown name has the id -1)
	}
	var byId, byName *slot
	for i := range s {
		if int(s[i].id) == id {
			byId = &s[i]
		}
		if s[i].name == name {
			byName = &s[i]
		}
	}
	if byId == nil {
		sym.Assert(a.FieldNameFromFieldId(id) == "", "an id that is not declared has a name")
		sym.Assert(a.AttributeFromFieldId(id) == nil, "an id that is not declared has a value")
		sym.Assert(!a.Contains(id), "an id that is not declared is among the fields")
	} else {
		sym.Assert(a.FieldNameFromFieldId(id) == byId.name, "a field has another name than declared")
		sym.Assert(a.FieldFromFieldId(id).TypeId() == byId.t, "a field has another type than declared")
		sym.Assert(a.Contains(id), "a field is missing among the fields")
		sameAttribute(plain(a.AttributeFromFieldId(id)), byId, v)
	}
	if byName == nil {
		sym.Assert(a.FieldIdFromFieldName(name) == -1, "a name that is not declared has an id")
		sym.Assert(a.AttributeFromFieldName(name) == nil, "a name that is not declared has a value")
	} else {
		sym.Assert(a.FieldIdFromFieldName(name) == int(byName.id), "a field has another id than declared")
		sameAttribute(plain(a.AttributeFromFieldName(name)), byName, v)
	}
	fields := a.TStructFields()
	sym.Assert(a.Len() == fields.Len(), "the fields of a struct and of its description differ")
	if n != 12 {
		sym.Assert(fields.Len() == len(s), "a struct has more or fewer fields than declared")
		for i := range s {
			f := fields.At(i)
			if n == 9 || n == 10 || f.Id() == int(s[i].id) {
				f = fields.FieldFromFieldId(int(s[i].id))
			}
			sym.Assert(f.Id() == int(s[i].id) && f.Name() == s[i].name && f.TypeId() == s[i].t, "a field differs from its declaration")
		}
	}
	sym.Assert(a.ThriftName() == a.TStructName(), "a struct has two names")
	sym.Reach("end")
}

// sameAttribute: x is the value of field s where the fields in v were set.
func sameAttribute(x interface{}, s *slot, v *val) {
	want := s.def
	if len(v.ids) > 0 && v.ids[0] == s.id {
		want = v.kids[0]
	}
	if want == nil {
		sym.Assert(x == nil, "a field that was never set has a value")
	} else {
		sym.Assert(goIs(x, want), "a field has another value")
	}
}

// C34_Equals: two structs of the same kind are equal exactly if their fields are, and ordered one way or the other.
func C34_Equals() {
	n := sym.Choose("struct", len(subjects))
	a, s := subjects[n]()
	b, u := subjects[n]()
	eq := true
	g := leaves(kBin)
	g.lens = []int{1}
	if len(s) > 0 {
		i := sym.Choose("field", len(s))
		x, y := s[i].def, s[i].def
		v, w := &val{t: thrift.STRUCT}, &val{t: thrift.STRUCT}
		if sym.Choose("set", 2) == 1 {
			x = anyFor(g, n, &s[i])
			v.field(s[i].id, s[i].name, x)
			fill(s, v)
		}
		if sym.Choose("set", 2) == 1 {
			y = anyFor(g, n, &s[i])
			w.field(s[i].id, s[i].name, y)
			fill(u, w)
		}
		// (what is unset of an enum compares like the greatest value)
		if (x == nil) != (y == nil) && s[i].t == thrift.I32 {
			sym.Assume((x == nil || x.i != 1<<31-1) && (y == nil || y.i != 1<<31-1))
		}
		if x == nil || y == nil {
			eq = x == y
		} else {
			eq = goIs(native(x), y)
		}
		// the same value in another field
		if j := sym.Choose("other", len(s)+1); j < i {
			o := &val{t: thrift.STRUCT}
			o.field(s[j].id, s[j].name, anyFor(g, n, &s[j]))
			fill(s, o)
			fill(u, o)
		}
	}
	sym.Assert(a.Equals(a), "a struct does not equal itself")
	sym.Assert(a.Equals(b) == eq, "Equals is wrong")
	sym.Assert(b.Equals(a) == eq, "Equals is not symmetric")
	ab, k := a.CompareTo(b)
	sym.Assert(k && (ab == 0) == eq, "structs that are not equal compare as equal, or the other way around")
	ba, k := b.CompareTo(a)
	sym.Assert(k && ba == -ab, "the order of two structs is not the reverse of the reverse")
	sym.Assert(!a.Equals(nil), "a struct equals nil")
	c, _ := subjects[(n+1)%len(subjects)]()
	sym.Assert(!a.Equals(c), "a struct equals one of another type")
	sym.Reach("end")
}

// everyField sets (or reads) a value in every field of subject n.
func everyField(k, n int) (thing, []slot, *val) {
	a, s := subjects[n]()
	v := &val{t: thrift.STRUCT}
	for i := range s {
		v.field(s[i].id, s[i].name, fixedFor(n, &s[i]))
	}
	return a, s, v
}

// fixedFor is a small value for a field.
func fixedFor(n int, s *slot) *val {
	switch s.t {
	case thrift.STRUCT:
		return aBase(an(thrift.I32))
	case thrift.LIST, thrift.SET, thrift.MAP:
		return fixedShape(shapeOf(n, s))
	}
	return an(s.t)
}

func fixedShape(s *shape) *val {
	switch s.t {
	case thrift.STRUCT:
		return aBase(an(thrift.I32))
	case thrift.LIST, thrift.SET, thrift.MAP:
		v := &val{t: s.t, et: s.e.t}
		if s.k != nil {
			v.kt = s.k.t
			v.kids = append(v.kids, fixedShape(s.k))
		}
		v.kids = append(v.kids, fixedShape(s.e))
		return v
	}
	return an(s.t)
}

func shapeOf(n int, s *slot) *shape {
	switch n {
	case 4:
		return containerShapes[s.id-1]
	case 5:
		return []*shape{listOf(i32), setOf(str), mapOf(str, i32), base}[s.id-1]
	case 6:
		return listOf(one(thrift.I16))
	case 7:
		return listOf(i32)
	case 8:
		return []*shape{base, base, listOf(base), mapOf(i32, base), bin, listOf(bin), setOf(str)}[s.id-1]
	case 2:
		return listOf(str)
	case 13:
		return optionalDefaultShapes[s.id-1]
	}
	switch s.t {
	case thrift.LIST:
		return listOf(i32)
	case thrift.SET:
		return setOf(str)
	}
	return mapOf(str, i32)
}

// C31_WriteFails: a write to the transport fails, wherever, and writing the struct fails.
func C31_WriteFails() {
	k := anyProtocol()
	n := sym.Choose("struct", len(subjects))
	a, s, v := everyField(k, n)
	fill(s, v)
	failingCalls(k, func(p thrift.TProtocol, ok func(thrift.TProtocolException, string)) {
		ok(a.Write(p), "Write fails")
	})
}

// C31_ReadFails: a read from the transport fails once, wherever, and reading the struct fails.
func C31_ReadFails() {
	k := sym.Choose("protocol", 2)
	n := sym.Choose("struct", len(subjects))
	a, _, v := everyField(k, n)
	f := &failOnce{TMemoryBuffer: thrift.NewTMemoryBuffer()}
	write(mk(k, f), v)
	f.left = sym.Choose("fail", f.Len())
	e := a.Read(mk(k, f))
	sym.Assert(f.failed == 1 && e != nil, "Read hides the failure of the transport")
	sym.Reach("end")
}

// C31_Truncated: what is read ends early, and reading the struct fails.
func C31_Truncated() {
	k := sym.Choose("protocol", 3)
	n := sym.Choose("struct", len(subjects))
	a, _, v := everyField(k, n)
	buf := thrift.NewTMemoryBuffer()
	p := mk(k, buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	x := append([]byte(nil), buf.Bytes()...)
	buf = thrift.NewTMemoryBuffer()
	buf.Write(x[:sym.Choose("cut", len(x))])
	sym.Assert(a.Read(mk(k, buf)) != nil, "a struct is read from a part of it")
	sym.Reach("end")
}

// C31_AnyBytes: whatever the bytes are, reading a struct ends, with an error or a struct.
func C31_AnyBytes() {
	k := sym.Choose("protocol", 2)
	n := []int{0, 8}[sym.Choose("struct", 2)]
	a, _ := subjects[n]()
	buf := thrift.NewTMemoryBuffer()
	buf.Write(sym.Bytes("byte", sym.Choose("len", sym.Bound(3, 5))))
	sym.MaxAlloc(4096)
	if a.Read(mk(k, buf)) == nil {
		sym.Reach("read")
	}
	sym.Reach("end")
}
