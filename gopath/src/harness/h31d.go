//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

// leveled: the value of a field of the enum Level (nil: it was never set).
func leveled(c every.Level) interface{} {
	if int64(c) == unset {
		return nil
	}
	return int32(c)
}

func optionalDefaults() (*every.OptionalDefaults, []slot) {
	b := every.NewOptionalDefaults()
	s := []slot{
		listSlot(1, "a_list", &b.AList),
		setSlot(2, "a_set", &b.ASet),
		mapSlot(3, "a_map", &b.AMap),
		structSlot(4, "a_struct", true, &b.AStruct),
		listSlot(5, "no_list", &b.NoList),
		mapSlot(6, "no_map", &b.NoMap),
		{7, "a_binary", thrift.BINARY, true, &val{t: thrift.BINARY, x: []byte("xyz")}, func(x interface{}) { b.ABinary = x.([]byte) }, func() interface{} { return bytesOrNil(b.ABinary) }},
		{8, "a_long", thrift.I64, true, &val{t: thrift.I64, l: -10000000000}, func(x interface{}) { b.ALong = x.(int64) }, func() interface{} { return b.ALong }},
		{9, "a_byte", thrift.BYTE, true, &val{t: thrift.BYTE, y: 254}, func(x interface{}) { b.AByte = x.(byte) }, func() interface{} { return b.AByte }},
		{10, "a_short", thrift.I16, true, &val{t: thrift.I16, h: -300}, func(x interface{}) { b.AShort = x.(int16) }, func() interface{} { return b.AShort }},
		{11, "a_bool", thrift.BOOL, true, zero(thrift.BOOL), func(x interface{}) { b.ABool = x.(bool) }, func() interface{} { return b.ABool }},
		{12, "zero", thrift.I32, true, zero(thrift.I32), func(x interface{}) { b.Zero = every.Level(x.(int32)) }, func() interface{} { return leveled(b.Zero) }},
		{13, "a_level", thrift.I32, true, nil, func(x interface{}) { b.ALevel = every.Level(x.(int32)) }, func() interface{} { return leveled(b.ALevel) }},
		{14, "level", thrift.I32, false, nil, func(x interface{}) { b.Level = every.Level(x.(int32)) }, func() interface{} { return leveled(b.Level) }},
		listSlot(15, "levels", &b.Levels),
	}
	_, d := defaultContainers()
	for i := 0; i < 4; i++ {
		s[i].def = d[i].def
	}
	s[4].def = &val{t: thrift.LIST, et: thrift.I32}
	s[5].def = &val{t: thrift.MAP, kt: thrift.STRING, et: thrift.I32}
	return b, s
}

var optionalDefaultShapes = []*shape{listOf(i32), setOf(str), mapOf(str, i32), base, listOf(i32), mapOf(str, i32), bin,
	i64, one(thrift.BYTE), one(thrift.I16), one(thrift.BOOL), i32, i32, i32, listOf(i32)}

// isSetOptionalDefault is what the helper of field i says.
func isSetOptionalDefault(b *every.OptionalDefaults, i int) bool {
	switch i {
	case 0:
		return b.IsSetAList()
	case 1:
		return b.IsSetASet()
	case 2:
		return b.IsSetAMap()
	case 3:
		return b.IsSetAStruct()
	case 4:
		return b.IsSetNoList()
	case 5:
		return b.IsSetNoMap()
	case 6:
		return b.IsSetABinary()
	case 7:
		return b.IsSetALong()
	case 8:
		return b.IsSetAByte()
	case 9:
		return b.IsSetAShort()
	case 10:
		return b.IsSetABool()
	case 11:
		return b.IsSetZero()
	case 12:
		return b.IsSetALevel()
	case 13:
		return b.IsSetLevel()
	}
	return true
}

// C31_OptionalDefaults: optional fields of every kind that have defaults, and enums with negative values: a new struct
// has the defaults; a value that differs from the default is set, and is what a reader gets, whether the writer
// chose it (emptied the container, say) or a wire brought it.
func C31_OptionalDefaults() {
	k := anyProtocol()
	a, s := optionalDefaults()
	sym.Assert(holds(s, &val{t: thrift.STRUCT}), "a new struct has other values than declared")
	for i := 7; i < 11; i++ {
		sym.Assert(!isSetOptionalDefault(a, i), "an optional field of a new struct is set")
	}
	sym.Assert(!a.IsSetALevel() && !a.IsSetLevel(), "an enum of a new struct is set")
	g := leaves(k)
	g.lens = []int{0, 1}
	i := sym.Choose("field", len(s))
	c := g.shaped(optionalDefaultShapes[i], 1)
	v := &val{t: thrift.STRUCT}
	v.field(s[i].id, s[i].name, c)
	r, u := a, s
	if sym.Choose("direction", 2) == 0 {
		fill(s, v)
		sym.Assert(isSetOptionalDefault(a, i) || goIs(s[i].get(), orNone(s[i].def)), "a field that differs from its default is not set")
		buf := thrift.NewTMemoryBuffer()
		p, q := mk(k, buf), mk(k, buf)
		ok(a.Write(p), "Write fails")
		ok(p.Flush(), "Flush fails")
		r, u = optionalDefaults()
		ok(r.Read(q), "Read fails")
	} else {
		fromTheWire(k, a, v)
	}
	sym.Assert(holds(u, v), "a field is read as another value, or a default is lost")
	sym.Reach("end")
}

// orNone is v, or a value that nothing in Go represents.
func orNone(v *val) *val {
	if v == nil {
		return &val{t: thrift.STRUCT}
	}
	return v
}

func ofOptionalDefaults() (thing, []slot) { return optionalDefaults() }

func failure() (thing, []slot) {
	b := every.NewFailure()
	return b, []slot{intSlot(1, "code", &b.Code), textSlot(2, "reason", &b.Reason)}
}

func otherException() (thing, []slot) {
	b := every.NewOther()
	return b, []slot{textSlot(1, "what", &b.What)}
}
