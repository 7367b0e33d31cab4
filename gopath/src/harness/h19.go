package harness

import (
	"strconv"
	"sym"
	"thrift"
)

// represents tells whether v has the Go representation of t.
func represents(t thrift.TType, v interface{}) bool {
	ok := false
	switch t {
	case thrift.BOOL:
		_, ok = v.(bool)
	case thrift.BYTE:
		_, ok = v.(byte)
	case thrift.I16:
		_, ok = v.(int16)
	case thrift.I32:
		_, ok = v.(int32)
	case thrift.I64:
		_, ok = v.(int64)
	case thrift.DOUBLE:
		_, ok = v.(float64)
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		_, ok = v.(string)
	case thrift.BINARY:
		_, ok = v.([]byte)
		ok = ok || v == nil
	case thrift.STRUCT:
		_, ok = v.(thrift.TStruct)
	case thrift.MAP:
		_, ok = v.(thrift.TMap)
	case thrift.SET:
		_, ok = v.(thrift.TSet)
	case thrift.LIST:
		_, ok = v.(thrift.TList)
	case thrift.STOP, thrift.VOID:
		ok = v == nil
	}
	return ok
}

// coerced coerces v and checks that the result is of the type.
func coerced(t thrift.TType, v interface{}) (interface{}, bool) {
	r, ok := t.CoerceData(v)
	sym.Assert(represents(t, r), "the coerced value is of another type")
	return r, ok
}

// is checks that v is coerced to want.
func is(t thrift.TType, v, want interface{}) {
	r, ok := coerced(t, v)
	sym.Assert(ok, "a value the type can represent is refused")
	sym.Assert(order(r, want) == 0, "a value is coerced to another value")
}

// refused checks that v is reported as not coercible.
func refused(t thrift.TType, v interface{}) {
	_, ok := coerced(t, v)
	sym.Assert(!ok, "a value that is none of the type is accepted")
}

// numeral is the number x in the representation of t.
func numeral(t thrift.TType, x int64) interface{} {
	switch t {
	case thrift.BOOL:
		return x != 0
	case thrift.BYTE:
		return byte(x)
	case thrift.I16:
		return int16(x)
	case thrift.I32:
		return int32(x)
	case thrift.I64:
		return x
	case thrift.DOUBLE:
		return float64(x)
	}
	panic("no number")
}

// unsigned is the number x in the representation of t.
func unsigned(t thrift.TType, x uint64) interface{} {
	if t == thrift.DOUBLE {
		return float64(x)
	}
	return numeral(t, int64(x))
}

var numberTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE}
var textTypes = []thrift.TType{thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY}

// integer makes any integer of any Go type; neg: how its decimal text is to be made.
func integer() (v interface{}, signed bool, i int64, u uint64) {
	switch sym.Choose("kind", 10) {
	case 0:
		x := sym.Int("int")
		return x, true, int64(x), uint64(x)
	case 1:
		x := sym.Int8("int8")
		return x, true, int64(x), uint64(x)
	case 2:
		x := sym.Int16("int16")
		return x, true, int64(x), uint64(x)
	case 3:
		x := sym.Int32("int32")
		return x, true, int64(x), uint64(x)
	case 4:
		x := sym.Int64("int64")
		return x, true, x, uint64(x)
	case 5:
		x := uint(sym.Uint64("uint"))
		return x, false, int64(x), uint64(x)
	case 6:
		x := sym.Byte("byte")
		return x, false, int64(x), uint64(x)
	case 7:
		x := uint16(sym.Int16("uint16"))
		return x, false, int64(x), uint64(x)
	case 8:
		x := sym.Uint32("uint32")
		return x, false, int64(x), uint64(x)
	}
	x := sym.Uint64("uint64")
	return x, false, int64(x), x
}

// C19_Integers: any integer of any Go type to any number type.
func C19_Integers() {
	t := pick("type", numberTypes)
	v, signed, i, u := integer()
	if signed {
		is(t, v, numeral(t, i))
	} else {
		is(t, v, unsigned(t, u))
	}
	sym.Reach("end")
}

// C19_IntegerText: integers of any Go type rendered as text.
func C19_IntegerText() {
	t := pick("type", textTypes)
	v, signed, i, u := integer()
	var want string
	if signed {
		want = strconv.FormatInt(i, 10)
	} else {
		sym.Assume(u < 1<<63)
		want = strconv.FormatUint(u, 10)
	}
	if t == thrift.BINARY {
		is(t, v, []byte(want))
	} else {
		is(t, v, want)
	}
	is(thrift.STRING, ^uint64(0), "18446744073709551615")
	is(thrift.BINARY, uint(1<<63), []byte("9223372036854775808"))
	sym.Reach("end")
}

// C19_Floats: any float to any number type; integers only where the integer part is in the type's range.
func C19_Floats() {
	var v interface{}
	var d float64
	if sym.Choose("kind", 2) == 0 {
		d = sym.Float64("float64")
		v = d
	} else {
		f := sym.Float32("float32")
		d = float64(f)
		v = f
	}
	t := pick("type", numberTypes)
	switch t {
	case thrift.BOOL:
		is(t, v, d != 0)
	case thrift.DOUBLE:
		is(t, v, d)
	case thrift.BYTE:
		sym.Assume(d > -1 && d < 256)
		is(t, v, byte(int64(d)))
	case thrift.I16:
		sym.Assume(d > -32769 && d < 32768)
		is(t, v, int16(int64(d)))
	case thrift.I32:
		sym.Assume(d > -2147483649 && d < 2147483648)
		is(t, v, int32(int64(d)))
	case thrift.I64:
		sym.Assume(d >= -9223372036854775808 && d < 9223372036854775808)
		is(t, v, int64(d))
	}
	sym.Reach("end")
}

// C19_FloatText: floats of representative shapes as text that reads back as the number.
func C19_FloatText() {
	d := []float64{0, 1, -1, 0.1, 1.5, -2.25e-7, 1e300, 123456789.125, 5e-324, 1.7976931348623157e308, 0.30000000000000004}[sym.Choose("double", 11)]
	t := pick("type", textTypes)
	var v interface{} = d
	bits := 64
	if sym.Choose("kind", 2) == 1 {
		v, bits = float32(d), 32
		d = float64(float32(d))
	}
	r, ok := coerced(t, v)
	sym.Assert(ok, "a number has no text")
	if b, is := r.([]byte); is {
		r = string(b)
	}
	f, e := strconv.ParseFloat(r.(string), bits)
	sym.Assert(e == nil && f == d || d > 1e308, "the text of a number is another number")
	sym.Reach("end")
}

// C19_Bools: booleans to anything.
func C19_Bools() {
	b := sym.Bool("bool")
	x := int64(0)
	text := "false"
	if b {
		x, text = 1, "true"
	}
	switch sym.Choose("to", 3) {
	case 0:
		t := pick("type", numberTypes)
		is(t, b, numeral(t, x))
	case 1:
		t := pick("type", textTypes[:3])
		is(t, b, text)
	case 2:
		is(thrift.BINARY, b, []byte(text))
	}
	sym.Reach("end")
}

type named string

func (n named) String() string { return string(n) }

// asText is the text itself or something that has it.
func asText(s string) interface{} {
	if sym.Choose("stringer", 2) == 1 {
		return named(s)
	}
	return s
}

// C19_Text: any text to texts and binaries and back.
func C19_Text() {
	s := sym.String("s", sym.Range("len", 0, sym.Bound(3, 6)))
	if sym.Choose("from", 2) == 0 {
		v := asText(s)
		is(pick("type", textTypes[:3]), v, s)
		is(thrift.BINARY, v, []byte(s))
	} else {
		is(pick("type", textTypes[:3]), []byte(s), s)
		is(thrift.BINARY, []byte(s), []byte(s))
	}
	sym.Reach("end")
}

// decimal reads an optional sign and digits.
func decimal(s string) (x int64, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		x = 10*x + int64(s[i]-'0')
	}
	if neg {
		x = -x
	}
	return x, len(s) > 0
}

// C19_Parse: any text to an integer type: a number in its range is parsed, other text is refused.
func C19_Parse() {
	t := pick("type", []thrift.TType{thrift.BYTE, thrift.I16, thrift.I32, thrift.I64})
	s := sym.String("s", sym.Range("len", 0, sym.Bound(4, 6)))
	x, ok := decimal(s)
	v := asText(s)
	switch {
	case !ok:
		refused(t, v)
	case t == thrift.BYTE && (x < -128 || x > 255) || t == thrift.I16 && x != int64(int16(x)):
		refused(t, v)
	default:
		is(t, v, numeral(t, x))
	}
	sym.Reach("end")
}

// C19_ParseEnds: texts at the ends of the ranges of the integer types.
func C19_ParseEnds() {
	type end struct {
		t   thrift.TType
		s   string
		x   int64
		bad string
	}
	e := []end{
		{thrift.BYTE, "127", 127, "256"}, {thrift.BYTE, "255", 255, "-129"}, {thrift.BYTE, "0", 0, "18446744073709551616"},
		{thrift.I16, "32767", 32767, "32768"}, {thrift.I16, "-32768", -32768, "-32769"}, {thrift.I16, "0", 0, "99999999999999999999"},
		{thrift.I32, "2147483647", 2147483647, "2147483648"}, {thrift.I32, "-2147483648", -2147483648, "-2147483649"}, {thrift.I32, "0", 0, "4294967296"},
		{thrift.I64, "9223372036854775807", 9223372036854775807, "9223372036854775808"}, {thrift.I64, "-9223372036854775808", -9223372036854775808, "-9223372036854775809"},
		{thrift.I64, "9007199254740993", 9007199254740993, "1e3"}, {thrift.I32, "16777217", 16777217, "1.0"},
	}[sym.Choose("end", 13)]
	is(e.t, asText(e.s), numeral(e.t, e.x))
	refused(e.t, asText(e.bad))
	sym.Reach("end")
}

// C19_ParseDouble: representative texts to doubles.
func C19_ParseDouble() {
	s := []string{"0", "1", "-1.5", "1e10", "2.5E-3", "+7", ".5", "9007199254740993", "1.7976931348623157e308", "4.9e-324"}[sym.Choose("text", 10)]
	f, _ := strconv.ParseFloat(s, 64)
	is(thrift.DOUBLE, asText(s), f)
	bad := []string{"", "-", "e", "1e", "1 ", " 1", "1.2.3", "abc", "0x", "1e400", "--1"}[sym.Choose("bad", 11)]
	refused(thrift.DOUBLE, asText(bad))
	sym.Reach("end")
}

// C19_ParseBool: the texts of booleans.
func C19_ParseBool() {
	s := []string{"true", "1", "false", "0"}[sym.Choose("text", 4)]
	is(thrift.BOOL, asText(s), s == "true" || s == "1")
	sym.Reach("end")
}

// C19_Numeric: a Numeric to any number type, as the number itself.
func C19_Numeric() {
	t := pick("type", numberTypes)
	switch sym.Choose("from", 3) {
	case 0:
		x := sym.Int64("i64")
		is(t, thrift.NewNumericFromI64(x), numeral(t, x))
	case 1:
		x := sym.Int32("i32")
		is(t, thrift.NewNumericFromI32(x), numeral(t, int64(x)))
	case 2:
		d := []float64{0, 0.5, 1, -1.5, 200.75, 1e9}[sym.Choose("double", 6)]
		want := numeral(t, int64(d))
		if t == thrift.DOUBLE {
			want = d
		}
		if t == thrift.BOOL {
			want = d != 0
		}
		is(t, thrift.NewNumericFromDouble(d), want)
	}
	sym.Reach("end")
}

type colour int

func (c colour) String() string { return "RED" }
func (c colour) Value() int     { return int(c) }
func (c colour) IsEnum() bool   { return true }

// C19_Enum: enumeration values to their number or name.
func C19_Enum() {
	x := sym.Int32("value")
	v := colour(x)
	switch sym.Choose("to", 3) {
	case 0:
		t := pick("type", numberTypes)
		is(t, v, numeral(t, int64(x)))
	case 1:
		is(pick("type", textTypes[:3]), v, "RED")
	case 2:
		is(thrift.BINARY, v, []byte("RED"))
	}
	sym.Reach("end")
}

// C19_Containers: structs and containers stay what they are and are not taken for another type.
func C19_Containers() {
	types := []thrift.TType{thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}
	vals := []interface{}{
		&record{TStruct: thrift.NewTStructEmpty("S")},
		thrift.NewTMap(thrift.BYTE, thrift.BYTE, 0),
		thrift.NewTSet(thrift.BYTE, 0),
		thrift.NewTList(thrift.BYTE, 0),
	}
	k := sym.Choose("value", 4)
	t := pick("type", allTypes)
	if t == types[k] {
		r, ok := coerced(t, vals[k])
		sym.Assert(ok && r == vals[k], "a container is not coerced to itself")
	} else if _, stringer := vals[k].(thrift.Stringer); !stringer {
		refused(t, vals[k])
	}
	sym.Reach("end")
}

type other struct{}

// C19_Others: values of other kinds, and values for types that have none.
func C19_Others() {
	t := pick("type", append([]thrift.TType{thrift.STOP, thrift.VOID}, allTypes...))
	v := []interface{}{other{}, &other{}, []string{"1"}, map[string]int{}, func() {}}[sym.Choose("value", 5)]
	refused(t, v)
	for _, x := range []interface{}{"a", 1, true, []byte{1}} {
		switch t {
		case thrift.STOP, thrift.VOID, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST:
			refused(t, x)
		}
	}
	sym.Reach("end")
}

// C19_Nil: nil is the type's zero value.
func C19_Nil() {
	t := pick("type", append([]thrift.TType{thrift.STOP, thrift.VOID, thrift.UTF8, thrift.UTF16}, allTypes...))
	r, ok := coerced(t, nil)
	sym.Assert(ok, "nil is refused")
	switch t {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE:
		sym.Assert(order(r, numeral(t, 0)) == 0, "nil is not the zero value")
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		sym.Assert(r.(string) == "", "nil is not the zero value")
	case thrift.MAP:
		sym.Assert(r.(thrift.TMap).Len() == 0, "nil is not the zero value")
	case thrift.SET:
		sym.Assert(r.(thrift.TSet).Len() == 0, "nil is not the zero value")
	case thrift.LIST:
		sym.Assert(r.(thrift.TList).Len() == 0, "nil is not the zero value")
	}
	sym.Reach("end")
}

// C19_TypeOf: the type of a value is one that represents it.
func C19_TypeOf() {
	v := []interface{}{true, byte(1), int16(2), int32(3), int64(4), 5.0, "6", []byte("7"),
		&record{TStruct: thrift.NewTStructEmpty("S")}, thrift.NewTMap(thrift.BYTE, thrift.BYTE, 0), thrift.NewTSet(thrift.BYTE, 0), thrift.NewTList(thrift.BYTE, 0)}[sym.Choose("value", 12)]
	t := thrift.TypeFromValue(v)
	sym.Assert(represents(t, v), "the type of a value does not represent it")
	r, ok := coerced(t, v)
	sym.Assert(ok, "a value is refused by its own type")
	if b, is := v.([]byte); is {
		sym.Assert(string(b) == string(r.([]byte)), "a value is changed by its own type")
	} else {
		sym.Assert(r == v, "a value is changed by its own type")
	}
	sym.Reach("end")
}
