package harness

import (
	"math"
	"strconv"
	"sym"
	"thrift"
)

// integral checks every accessor of a Numeric of an integer (but Float64, which is checked where it is exact).
func integral(n thrift.Numeric, x int64) {
	sym.Assert(n.Int64() == x, "Int64 is another number")
	sym.Assert(n.Int32() == int32(x), "Int32 differs from the conversion")
	sym.Assert(n.Int16() == int16(x), "Int16 differs from the conversion")
	sym.Assert(n.Byte() == byte(x), "Byte differs from the conversion")
	sym.Assert(n.Int() == int(x), "Int differs from the conversion")
}

// C29_Integers: any integer.
func C29_Integers() {
	if sym.Choose("from", 2) == 0 {
		x := sym.Int64("i64")
		n := thrift.NewNumericFromI64(x)
		integral(n, x)
		sym.Assert(n.Float64() == float64(x), "Float64 differs from the conversion")
		sym.Assert(n.Float32() == float32(float64(x)), "Float32 differs from the conversion")
	} else {
		x := sym.Int32("i32")
		n := thrift.NewNumericFromI32(x)
		integral(n, int64(x))
		sym.Assert(n.Float64() == float64(x), "Float64 differs from the conversion")
	}
	sym.Reach("end")
}

// C29_Text: the text of any integer is its decimal text.
func C29_Text() {
	if sym.Choose("from", 2) == 0 {
		x := sym.Int64("i64")
		sym.Assert(thrift.NewNumericFromI64(x).String() == strconv.FormatInt(x, 10), "the text of an integer is not decimal")
	} else {
		x := sym.Int32("i32")
		sym.Assert(thrift.NewNumericFromI32(x).String() == strconv.FormatInt(int64(x), 10), "the text of an integer is not decimal")
	}
	sym.Reach("end")
}

// C29_Doubles: any double.
func C29_Doubles() {
	d := sym.Float64("double")
	n := thrift.NewNumericFromDouble(d)
	f := n.Float64()
	sym.Assert(f == d || f != f && d != d, "Float64 is another number")
	if d == d && d > -9223372036854775808 && d < 9223372036854775808 {
		integral(n, int64(d))
	}
	sym.Assert((n == thrift.NAN) == (d != d), "NaN is not NAN, or another number is")
	sym.Assert((n == thrift.INFINITY) == (d > math.MaxFloat64), "infinity is not INFINITY, or another number is")
	sym.Assert((n == thrift.NEGATIVE_INFINITY) == (d < -math.MaxFloat64), "infinity is not NEGATIVE_INFINITY, or another number is")
	sym.Reach("end")
}

// C29_DoubleText: the text of doubles of representative shapes reads back as the double.
func C29_DoubleText() {
	d := []float64{0, 1, -1, 0.1, 1.5, -2.25e-7, 1e300, 123456789.125, 12345678901, 5e-324, 0.30000000000000004, -9007199254740993, 1e21}[sym.Choose("double", 13)]
	n := thrift.NewNumericFromDouble(d)
	f, e := strconv.ParseFloat(n.String(), 64)
	sym.Assert(e == nil && f == d, "the text of a double is another number")
	m := thrift.NewNumericFromString(n.String())
	sym.Assert(m.Float64() == d, "a Numeric made of the text of a double is another number")
	sym.Reach("end")
}

// fromText makes a Numeric from text in either way.
func fromText(s string) thrift.Numeric {
	if sym.Choose("json", 2) == 1 {
		return thrift.NewNumericFromJSONString(s, false)
	}
	return thrift.NewNumericFromString(s)
}

// C29_Parse: the text of any integer of few digits, with any sign.
func C29_Parse() {
	s := sym.String("s", sym.Range("len", 1, sym.Bound(5, 7)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '0' && s[i] <= '9' || s[i] == '-' && i == 0)
	}
	x, ok := decimal(s)
	sym.Assume(ok)
	n := fromText(s)
	integral(n, x)
	sym.Assert(n.String() == s, "the text changes")
	sym.Reach("end")
}

// C29_RoundTrip: any 64-bit integer, rendered and read again.
func C29_RoundTrip() {
	x := sym.Int64("i64")
	n := fromText(strconv.FormatInt(x, 10))
	integral(n, x)
	sym.Assert(n.Float64() == float64(x), "Float64 differs from the conversion")
	sym.Reach("end")
}

// C29_ParseDouble: texts of doubles of representative shapes.
func C29_ParseDouble() {
	s := []string{"0", "1.5", "-1.5", "1e3", "2.5E-3", "-0.75e1", "12345.678", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1e15", "4.9e-324", "1.7976931348623157e308"}[sym.Choose("text", 13)]
	f, _ := strconv.ParseFloat(s, 64)
	n := fromText(s)
	sym.Assert(n.Float64() == f, "Float64 is another number")
	if x, e := strconv.ParseInt(s, 10, 64); e == nil {
		integral(n, x)
	} else if f > -9e18 && f < 9e18 {
		integral(n, int64(f))
	}
	sym.Assert(n.String() == s, "the text changes")
	sym.Reach("end")
}

// C29_Special: null, NaN and the infinities keep their identity.
func C29_Special() {
	d := math.Inf(1)
	var n, want thrift.Numeric
	switch sym.Choose("number", 3) {
	case 0:
		want = thrift.INFINITY
	case 1:
		d, want = math.Inf(-1), thrift.NEGATIVE_INFINITY
	case 2:
		d, want = math.NaN(), thrift.NAN
	}
	switch sym.Choose("from", 3) {
	case 0:
		n = thrift.NewNumericFromDouble(d)
	case 1:
		n = thrift.NewNumericFromString(want.String())
	case 2:
		n = thrift.NewNumericFromJSONString(map[thrift.Numeric]string{thrift.INFINITY: thrift.JSON_INFINITY, thrift.NEGATIVE_INFINITY: thrift.JSON_NEGATIVE_INFINITY, thrift.NAN: thrift.JSON_NAN}[want], false)
	}
	sym.Assert(n == want, "an infinity or NaN loses its identity")
	f := n.Float64()
	sym.Assert(f == d || f != f && d != d, "an infinity or NaN is another number")
	sym.Assert(n.String() == map[bool]string{true: "NaN"}[d != d]+map[bool]string{true: "Infinity"}[d > 0]+map[bool]string{true: "-Infinity"}[d < 0], "an infinity or NaN has another text")
	sym.Reach("end")
}

// C29_Null: null is zero to every accessor, whatever its text; so are ZERO and NUMERIC_NULL.
func C29_Null() {
	var n thrift.Numeric
	switch sym.Choose("null", 4) {
	case 0:
		n = thrift.NewNullNumeric()
	case 1:
		n = thrift.NewNumericFromJSONString(sym.String("s", sym.Range("len", 0, 2)), true)
	case 2:
		n = thrift.ZERO
	case 3:
		n = thrift.NUMERIC_NULL
	}
	integral(n, 0)
	sym.Assert(n.Float64() == 0 && n.Float32() == 0, "null is not zero")
	sym.Assert(n.String() == "" || n.String() == "0", "null has the text of a number")
	sym.Reach("end")
}

// C29_Coerced: a Numeric coerced to a type is the number its accessor reports.
func C29_Coerced() {
	x := sym.Int64("i64")
	n := thrift.NewNumericFromI64(x)
	is(thrift.I64, n, x)
	is(thrift.I32, n, int32(x))
	is(thrift.I16, n, int16(x))
	is(thrift.BYTE, n, byte(x))
	is(thrift.DOUBLE, n, float64(x))
	sym.Reach("end")
}
