package harness

import (
	"sym"
	"thrift"
)

// baseTypes are the types whose values are not made of others.
var baseTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY}

// anyOf makes any value of the base type t in its Go representation; texts have lo to hi bytes.
func anyOf(t thrift.TType, lo, hi int) interface{} {
	switch t {
	case thrift.BOOL:
		return sym.Bool("bool")
	case thrift.BYTE:
		return sym.Byte("byte")
	case thrift.I16:
		return sym.Int16("i16")
	case thrift.I32:
		return sym.Int32("i32")
	case thrift.I64:
		return sym.Int64("i64")
	case thrift.DOUBLE:
		return sym.Float64("double")
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		return sym.String("s", sym.Range("len", lo, hi))
	case thrift.BINARY:
		return sym.Bytes("x", sym.Range("len", lo, hi))
	}
	panic("not a base type")
}

func sign(less, more bool) int {
	if less {
		return -1
	}
	if more {
		return 1
	}
	return 0
}

// lexical compares texts byte by byte.
func lexical(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return sign(a[i] < b[i], true)
		}
	}
	return sign(len(a) < len(b), len(a) > len(b))
}

// order is the order of two base values of one type: nil first, false before true, numbers by value with NaN
// below all others, texts lexicographically.
func order(a, b interface{}) int {
	if a == nil || b == nil {
		return sign(b != nil, a != nil)
	}
	switch x := a.(type) {
	case bool:
		return sign(!x && b.(bool), x && !b.(bool))
	case byte:
		return sign(x < b.(byte), x > b.(byte))
	case int16:
		return sign(x < b.(int16), x > b.(int16))
	case int32:
		return sign(x < b.(int32), x > b.(int32))
	case int64:
		return sign(x < b.(int64), x > b.(int64))
	case float64:
		y := b.(float64)
		if x != x || y != y {
			return sign(x != x && y == y, x == x && y != y)
		}
		return sign(x < y, x > y)
	case string:
		return lexical(x, b.(string))
	case []byte:
		return lexical(string(x), string(b.([]byte)))
	}
	panic("not a base value")
}

// equals tells whether two values are equal; lists by element, sets by content and maps by association.
func equals(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case thrift.TList:
		y := b.(thrift.TList)
		if x.ElemType() != y.ElemType() || x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !equals(x.At(i), y.At(i)) {
				return false
			}
		}
		return true
	case thrift.TSet:
		y := b.(thrift.TSet)
		return x.ElemType() == y.ElemType() && x.Len() == y.Len() && within(x.Values(), y.Values())
	case thrift.TMap:
		y := b.(thrift.TMap)
		if x.KeyType() != y.KeyType() || x.ValueType() != y.ValueType() || x.Len() != y.Len() {
			return false
		}
		for e := range x.Iter() {
			found := false
			for f := range y.Iter() {
				if equals(e.Key(), f.Key()) && equals(e.Value(), f.Value()) {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	case *record:
		y := b.(*record)
		if x.ThriftName() != y.ThriftName() || !sameFields(x.fields, y.fields) {
			return false
		}
		for _, f := range x.fields {
			if !equals(x.values[f.Id()], y.values[f.Id()]) {
				return false
			}
		}
		return true
	}
	return order(a, b) == 0
}

func within(a, b []interface{}) bool {
	for _, x := range a {
		found := false
		for _, y := range b {
			if equals(x, y) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// record is a struct with values.
type record struct {
	thrift.TStruct
	fields []thrift.TField
	values map[int]interface{}
}

func (r *record) AttributeFromFieldId(id int) interface{} { return r.values[id] }
func (r *record) AttributeFromFieldName(name string) interface{} {
	return r.values[r.FieldIdFromFieldName(name)]
}
func (r *record) Equals(other interface{}) bool {
	c, ok := r.CompareTo(other)
	return ok && c == 0
}
func (r *record) CompareTo(other interface{}) (int, bool) {
	return thrift.TType(thrift.STRUCT).Compare(r, other)
}

// sameFields: the same ids, each with the same type and name, in any order (ids are distinct).
func sameFields(a, b []thrift.TField) bool {
	if len(a) != len(b) {
		return false
	}
	for _, f := range a {
		found := false
		for _, g := range b {
			if f.Id() == g.Id() && f.TypeId() == g.TypeId() && f.Name() == g.Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// element makes any value of type t, base type or container, in its Go representation.
func element(t thrift.TType) interface{} {
	switch t {
	case thrift.STRUCT:
		f := []thrift.TField{thrift.NewTField("a", thrift.BYTE, 1)}
		return &record{TStruct: thrift.NewTStruct("S", f), fields: f, values: map[int]interface{}{1: sym.Byte("attribute")}}
	case thrift.LIST, thrift.SET, thrift.MAP:
		return aggregate(t, thrift.BYTE, 1)
	}
	return anyOf(t, 0, 1)
}

// given makes a value that coerces to want in type t: the value itself, or one of another Go type.
func given(t thrift.TType) (v, want interface{}) {
	if sym.Choose("as", 2) == 0 {
		v = element(t)
		return v, v
	}
	switch t {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32:
		x := sym.Int64("int64")
		return x, numeral(t, x)
	case thrift.DOUBLE:
		x := sym.Int8("int8")
		return x, float64(x)
	case thrift.I64:
		x := sym.Int32("int32")
		return x, numeral(t, int64(x))
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		b := sym.Bytes("bytes", 1)
		return b, string(b)
	case thrift.BINARY:
		s := sym.String("text", 1)
		return s, []byte(s)
	}
	sym.Assume(false)
	return nil, nil
}
