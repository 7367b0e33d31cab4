package harness

import (
	"simple"
	"sym"
	"thrift"
)

// member points to the i-th field of a message, 1 to 9.
func setMember(m *simple.ContainerOfEnums, i int, v int64) {
	switch i {
	case 1:
		m.First = simple.UndefinedValues(v)
	case 2:
		m.Second = simple.DefinedValues(v)
	case 3:
		m.Third = simple.HeterogeneousValues(v)
	case 4:
		m.OptionalFourth = simple.UndefinedValues(v)
	case 5:
		m.OptionalFifth = simple.DefinedValues(v)
	case 6:
		m.OptionalSixth = simple.HeterogeneousValues(v)
	case 7:
		m.DefaultSeventh = simple.UndefinedValues(v)
	case 8:
		m.DefaultEighth = simple.DefinedValues(v)
	case 9:
		m.DefaultNineth = simple.HeterogeneousValues(v)
	}
}

func memberOf(m *simple.ContainerOfEnums, i int) int64 {
	switch i {
	case 1:
		return int64(m.First)
	case 2:
		return int64(m.Second)
	case 3:
		return int64(m.Third)
	case 4:
		return int64(m.OptionalFourth)
	case 5:
		return int64(m.OptionalFifth)
	case 6:
		return int64(m.OptionalSixth)
	case 7:
		return int64(m.DefaultSeventh)
	case 8:
		return int64(m.DefaultEighth)
	}
	return int64(m.DefaultNineth)
}

var memberNames = []string{"", "first", "second", "third", "optional_fourth", "optional_fifth", "optional_sixth", "default_seventh", "default_eighth", "default_nineth"}

const unset = -1<<31 - 1

// anyMember is any value of an enumeration on the wire.
func anyMember(k int) int64 {
	if k == kJSON {
		return []int64{0, 4, -1, 1<<31 - 1}[sym.Choose("value", 4)]
	}
	return int64(sym.Int32("value"))
}

// C27_Struct: any fields set, to any values.
func C27_Struct() {
	k := typed[sym.Choose("protocol", 3)]
	m := simple.NewContainerOfEnums()
	free := sym.Range("free", 1, 9) // the field with any value
	for i := 1; i <= 9; i++ {
		switch {
		case i == free || i == free%9+1:
			if sym.Choose("set", 2) == 1 {
				setMember(m, i, anyMember(k))
			} else {
				setMember(m, i, unset)
			}
		case i%3 == free%3:
			setMember(m, i, unset)
		case i%3 == (free+1)%3:
			setMember(m, i, int64(i))
		}
	}
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	ok(m.Write(p), "Write fails")
	tail := &val{t: thrift.STRUCT, ids: []int16{1}, names: []string{"f"}, kids: []*val{{t: thrift.BOOL, b: true}}}
	write(p, tail)
	ok(p.Flush(), "Flush fails")
	r := simple.NewContainerOfEnums()
	for i := 7; i <= 9; i++ { // (these are set unless the wire says so)
		if memberOf(m, i) == unset {
			setMember(r, i, unset)
		}
	}
	ok(r.Read(q), "Read fails")
	for i := 1; i <= 9; i++ {
		sym.Assert(memberOf(r, i) == memberOf(m, i), "field "+memberNames[i]+" is read back with another value")
	}
	check(k, q, tail)
	sym.Reach("end")
}

// C27_All: all fields set, to any values.
func C27_All() {
	k := sym.Choose("protocol", 2)
	m := simple.NewContainerOfEnums()
	from := 1
	if k == kCompact { // (where the length depends on the value)
		from = sym.Range("from", 1, 9)
	}
	for i := 1; i <= 9; i++ {
		if k == kBin || i == from || i == from%9+1 {
			setMember(m, i, int64(sym.Int32("value")))
		} else {
			setMember(m, i, -100*int64(i))
		}
	}
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	ok(m.Write(p), "Write fails")
	r := simple.NewContainerOfEnums()
	ok(r.Read(q), "Read fails")
	sym.Assert(sameMessage(r, m), "a field is read back with another value")
	sym.Assert(buf.Len() == 0, "bytes are left over")
	sym.Reach("end")
}

// C27_Unknown: unknown fields of any id and shape, among any of the known ones in any order.
func C27_Unknown() {
	k := typed[sym.Choose("protocol", 3)]
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	g := &gen{k: k, leaves: allLeaves, nested: allNested, lens: []int{1}, width: 1, digits: true, ascii: k == kJSON}
	if sym.Choose("shape", 2) == 0 {
		g.nested = nil
	} else {
		g.leaves = []thrift.TType{thrift.BOOL, thrift.STRING}
	}
	want := map[int]int64{}
	ok(p.WriteStructBegin("ContainerOfEnums"), "WriteStructBegin fails")
	at := sym.Choose("position", 3)
	first := sym.Choose("first", 9)
	if g.nested != nil {
		sym.Assume(first%3 == at)
	}
	for j := 0; j < 3; j++ {
		if j == at {
			t := pick("foreign", append(append([]thrift.TType(nil), g.leaves...), g.nested...))
			id := int16(10)
			if k != kJSON {
				id = sym.Int16("id")
				sym.Assume(id < 1 || id > 9)
			}
			ok(p.WriteFieldBegin("", t, id), "WriteFieldBegin fails")
			write(p, g.of(t, sym.Bound(0, 1)))
			ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
			continue
		}
		i := (first+4*j)%9 + 1
		want[i] = int64(-70 * i)
		ok(p.WriteFieldBegin(memberNames[i], thrift.I32, int16(i)), "WriteFieldBegin fails")
		ok(p.WriteI32(int32(want[i])), "WriteI32 fails")
		ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
	}
	ok(p.WriteFieldStop(), "WriteFieldStop fails")
	ok(p.WriteStructEnd(), "WriteStructEnd fails")
	ok(p.Flush(), "Flush fails")
	r, fresh := simple.NewContainerOfEnums(), simple.NewContainerOfEnums()
	ok(r.Read(q), "Read fails")
	for i := 1; i <= 9; i++ {
		v, is := want[i]
		if !is {
			v = memberOf(fresh, i)
		}
		sym.Assert(memberOf(r, i) == v, "an unknown field disturbs "+memberNames[i])
	}
	if k != kJSON {
		sym.Assert(buf.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C27_OtherType: a known field of another type than declared is skipped.
func C27_OtherType() {
	k := sym.Choose("protocol", 2)
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	ok(p.WriteStructBegin("ContainerOfEnums"), "WriteStructBegin fails")
	id := int16(sym.Range("id", 1, 9))
	t := pick("type", []thrift.TType{thrift.BYTE, thrift.I64, thrift.DOUBLE, thrift.STRING})
	ok(p.WriteFieldBegin("", t, id), "WriteFieldBegin fails")
	write(p, &val{t: t, s: "text"})
	ok(p.WriteFieldEnd(), "WriteFieldEnd fails")
	ok(p.WriteFieldStop(), "WriteFieldStop fails")
	ok(p.WriteStructEnd(), "WriteStructEnd fails")
	r, fresh := simple.NewContainerOfEnums(), simple.NewContainerOfEnums()
	e := r.Read(q)
	sym.Assert(e == nil && sameMessage(r, fresh) && buf.Len() == 0, "a field of another type than declared is not skipped")
	sym.Reach("end")
}

// C27_Truncated: a struct cut short is an error.
func C27_Truncated() {
	k := sym.Choose("protocol", 2)
	buf := thrift.NewTMemoryBuffer()
	m := argument(k, "value")
	m.Third = 300
	ok(m.Write(mk(k, buf)), "Write fails")
	b := buf.Bytes()
	in := thrift.NewTMemoryBuffer()
	in.Write(b[:sym.Choose("kept", len(b))])
	r := simple.NewContainerOfEnums()
	sym.Assert(r.Read(mk(k, in)) != nil, "a truncated struct is read without an error")
	sym.Reach("end")
}

// C27_WriteError: a struct that could not be written completely is reported.
func C27_WriteError() {
	k := sym.Choose("protocol", 2)
	f := newFailOp(sym.Range("operation", 1, 40))
	f.part = sym.Choose("accepted", 3)
	m := argument(k, "value")
	err := m.Write(mk(k, f))
	sym.Assert((err != nil) == (f.failed > 0), "a write error is lost, or reported where there is none")
	sym.Reach("end")
}

// C27_Nested: structs within structs: arguments and results of calls.
func C27_Nested() {
	k := typed[sym.Choose("protocol", 3)]
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	a, r := simple.NewEchoArgs(), simple.NewEchoResult()
	if sym.Choose("given", 2) == 1 {
		a.Message = argument(k, "argument")
	}
	if sym.Choose("returned", 2) == 1 {
		r.Success = argument(k, "result")
	}
	ok(a.Write(p), "Write fails")
	ok(r.Write(p), "Write fails")
	ok(p.Flush(), "Flush fails")
	a2, r2 := simple.NewEchoArgs(), simple.NewEchoResult()
	ok(a2.Read(q), "Read fails")
	ok(r2.Read(q), "Read fails")
	sym.Assert((a.Message == nil) == (a2.Message == nil) && (a.Message == nil || sameMessage(a.Message, a2.Message)), "the argument differs")
	sym.Assert((r.Success == nil) == (r2.Success == nil) && (r.Success == nil || sameMessage(r.Success, r2.Success)), "the result differs")
	sym.Reach("end")
}

// C27_Names: the names of enumeration values are inverse to them.
func C27_Names() {
	v := sym.Int64("value")
	u, d, h := simple.UndefinedValues(v), simple.DefinedValues(v), simple.HeterogeneousValues(v)
	sym.Assert((u.String() != "<UNSET>") == (v >= 0 && v <= 2), "UndefinedValues: names of values")
	sym.Assert((d.String() != "<UNSET>") == (v >= 1 && v <= 3), "DefinedValues: names of values")
	sym.Assert((h.String() != "<UNSET>") == (v == 0 || v >= 2 && v <= 4), "HeterogeneousValues: names of values")
	sym.Assert(u.String() == "<UNSET>" || simple.FromUndefinedValuesString(u.String()) == u, "UndefinedValues: name and value")
	sym.Assert(d.String() == "<UNSET>" || simple.FromDefinedValuesString(d.String()) == d, "DefinedValues: name and value")
	sym.Assert(h.String() == "<UNSET>" || simple.FromHeterogeneousValuesString(h.String()) == h, "HeterogeneousValues: name and value")
	sym.Assert(u.IsEnum() && u.Value() == int(v) && d.Value() == int(v) && h.Value() == int(v), "Value differs")
	sym.Reach("end")
}
