package harness

import (
	"sym"
	"thrift"
)

// typeNames are the names of the types there are.
var typeNames = map[thrift.TType]string{thrift.STOP: "STOP", thrift.VOID: "VOID", thrift.BOOL: "BOOL", thrift.BYTE: "BYTE",
	thrift.DOUBLE: "DOUBLE", thrift.I16: "I16", thrift.I32: "I32", thrift.I64: "I64", thrift.STRING: "STRING",
	thrift.STRUCT: "STRUCT", thrift.MAP: "MAP", thrift.SET: "SET", thrift.LIST: "LIST", thrift.ENUM: "ENUM",
	thrift.UTF16: "UTF16", thrift.BINARY: "BINARY", thrift.GENERIC: "GENERIC"}

func among(t thrift.TType, in ...thrift.TType) bool {
	for _, u := range in {
		if t == u {
			return true
		}
	}
	return false
}

// C35_Classes: each question about any type is answered as Thrift's types are defined.
func C35_Classes() {
	t := thrift.TType(sym.Byte("type"))
	switch sym.Choose("question", 11) {
	case 0:
		sym.Assert(t.IsBaseType() == among(t, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY), "IsBaseType")
	case 1:
		sym.Assert(t.IsEmptyType() == among(t, thrift.STOP, thrift.VOID), "IsEmptyType")
	case 2:
		sym.Assert(t.IsEnum() == (t == thrift.ENUM), "IsEnum")
	case 3:
		sym.Assert(t.IsNumericType() == among(t, thrift.ENUM, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE), "IsNumericType")
	case 4:
		sym.Assert(t.IsStringType() == among(t, thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY), "IsStringType")
	case 5:
		sym.Assert(t.IsContainer() == among(t, thrift.MAP, thrift.SET, thrift.LIST), "IsContainer")
	case 6:
		sym.Assert(t.IsStruct() == (t == thrift.STRUCT), "IsStruct")
	case 7:
		sym.Assert(t.IsMap() == (t == thrift.MAP), "IsMap")
	case 8:
		sym.Assert(t.IsList() == (t == thrift.LIST), "IsList")
	case 9:
		sym.Assert(t.IsSet() == (t == thrift.SET), "IsSet")
	case 10:
		sym.Assert(t.IsInt() == among(t, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64), "IsInt")
	}
	sym.Reach("end")
}

// C35_Names: two types have the same name only if neither has one, and the type on the wire is that of the
// string for BINARY and the type itself for the others.
func C35_Names() {
	t, u := thrift.TType(sym.Byte("type")), thrift.TType(sym.Byte("type"))
	_, known := typeNames[t]
	_, known2 := typeNames[u]
	sym.Assert((t.String() == u.String()) == (t == u || !known && !known2), "two types have the same name, or one has two")
	if known {
		sym.Assert(t.String() == typeNames[t], "a type has another name")
	}
	want := byte(t)
	if t == thrift.BINARY {
		want = thrift.STRING
	}
	sym.Assert(t.ThriftTypeId() == want, "ThriftTypeId")
	sym.Reach("end")
}

// C35_Numbers: a type is compared with another, given as a type or as any Go number.
func C35_Numbers() {
	t, u := thrift.TType(sym.Byte("type")), thrift.TType(sym.Byte("other"))
	var other interface{}
	switch sym.Choose("as", 12) {
	case 0:
		other = u
	case 1:
		other = byte(u)
	case 2:
		other = int8(u)
	case 3:
		other = int16(u)
	case 4:
		other = uint16(u)
	case 5:
		other = int32(u)
	case 6:
		other = uint32(u)
	case 7:
		other = int64(u)
	case 8:
		other = uint64(u)
	case 9:
		other = int(u)
	case 10:
		other = uint(u)
	case 11:
		u = []thrift.TType{0, 2, 18, 127, 255}[sym.Choose("number", 5)]
		other = float64(u)
		if sym.Choose("single", 2) == 1 {
			other = float32(u)
		}
	}
	sym.Assert(t.Coerce(other) == u, "a number denotes another type")
	sym.Assert(t.Equals(other) == (t == u), "Equals of types")
	sym.Assert(t.LessType(other) == (t < u), "LessType of types")
	sym.Reach("end")
}

// C35_Values: the type of any value is the one as which it is stored unchanged.
func C35_Values() {
	var v, want interface{}
	var t thrift.TType
	switch sym.Choose("value", 15) {
	case 0:
		v, t = sym.Bool("v"), thrift.BOOL
	case 1:
		v, t = sym.Byte("v"), thrift.BYTE
	case 2:
		i := int8(sym.Byte("v"))
		v, want, t = i, byte(i), thrift.BYTE
	case 3:
		v, t = sym.Int16("v"), thrift.I16
	case 4:
		v, t = sym.Int32("v"), thrift.I32
	case 5:
		i := sym.Int32("v")
		v, want, t = int(i), i, thrift.I32
	case 6:
		v, t = sym.Int64("v"), thrift.I64
	case 7:
		v, t = sym.Float64("v"), thrift.DOUBLE
	case 8:
		f := sym.Float32("v")
		v, want, t = f, float64(f), thrift.DOUBLE
	case 9:
		v, t = sym.String("v", sym.Range("length", 0, 2)), thrift.STRING
	case 10:
		v, t = sym.Bytes("v", sym.Range("length", 0, 2)), thrift.BINARY
	case 11:
		v, t = thrift.NewTStructEmpty("s"), thrift.STRUCT
	case 12:
		m := thrift.NewTMap(thrift.I32, thrift.BOOL, 1)
		m.Set(sym.Int32("key"), sym.Bool("v"))
		v, t = m, thrift.MAP
	case 13:
		l := thrift.NewTList(thrift.I32, 1)
		l.Push(sym.Int32("v"))
		v, t = l, thrift.LIST
	case 14:
		s := thrift.NewTSet(thrift.I32, 1)
		s.Add(sym.Int32("v"))
		v, t = s, thrift.SET
	}
	if want == nil {
		want = v
	}
	sym.Assert(thrift.TypeFromValue(v) == t, "a value is of another type")
	r, ok := t.CoerceData(v)
	sym.Assert(ok && represents(t, r), "a value cannot be stored as what it is")
	if t.IsContainer() || t == thrift.STRUCT {
		sym.Assert(r == want, "a value is stored as another")
	} else {
		sym.Assert(order(r, want) == 0, "a value is stored as another")
	}
	sym.Reach("end")
}

// C35_NoValue: nothing and what no type can hold.
func C35_NoValue() {
	sym.Assert(thrift.TypeFromValue(nil) == thrift.VOID, "nil is of another type")
	var v interface{}
	switch sym.Choose("value", 3) {
	case 0:
		v = struct{ A int32 }{sym.Int32("a")}
	case 1:
		v = make(chan int)
	case 2:
		v = func() {}
	}
	sym.Assert(thrift.TypeFromValue(v) == thrift.STOP, "what no type can hold has a type")
	sym.Assert(thrift.TType(thrift.BOOL).Coerce(v) == thrift.STOP && thrift.TType(thrift.BOOL).Coerce(nil) == thrift.STOP, "what is no number denotes a type")
	refused(pick("type", []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST, thrift.STOP, thrift.VOID}), v)
	sym.Reach("end")
}
