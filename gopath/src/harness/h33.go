//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

// colors are the values of the enum Color, as the IDL numbers them.
var colors = []struct {
	name  string
	c     every.Color
	value int
}{
	{"Color_RED", every.Color_RED, 1},
	{"Color_GREEN", every.Color_GREEN, 2},
	{"Color_BLUE", every.Color_BLUE, 5},
	{"Color_LAST", every.Color_LAST, 6},
}

// C33_Enum: any number as an enum: its value, and its name if and only if it is declared.
func C33_Enum() {
	for _, x := range colors {
		sym.Assert(int(x.c) == x.value, "an enum value has another number than declared")
	}
	n := sym.Int64("n")
	c := every.Color(n)
	sym.Assert(int64(c.Value()) == n, "Value is wrong")
	sym.Assert(c.IsEnum(), "IsEnum is wrong")
	s := c.String()
	declared := false
	for _, x := range colors {
		if int64(x.value) == n {
			declared = true
			sym.Assert(s == x.name, "an enum value has another name")
			sym.Assert(every.FromColorString(s) == c, "the name of an enum value is that of another")
		} else {
			sym.Assert(s != x.name, "a number has the name of an enum value")
		}
	}
	sym.Assert(declared || s == "<UNSET>", "a number that is not declared has a name")
	sym.Reach("end")
}

// C33_Names: any text as the name of an enum value.
func C33_Names() {
	s := ""
	if i := sym.Choose("like", len(colors)+1); i < len(colors) {
		// a name with one byte changed
		b := []byte(colors[i].name)
		b[sym.Choose("at", len(b))] = sym.Byte("byte")
		s = string(b)
	} else {
		s = sym.String("s", sym.Choose("len", 12))
	}
	c := every.FromColorString(s)
	found := false
	for _, x := range colors {
		if s == x.name {
			found = true
			sym.Assert(c == x.c, "a name stands for another value")
		} else {
			sym.Assert(c != x.c, "a value has two names")
		}
	}
	sym.Assert(found || c.String() == "<UNSET>", "a text that is no name stands for a value")
	sym.Reach("end")
}

// C33_Collections: enum values in lists, sets and maps are found by their numbers.
func C33_Collections() {
	n, m := sym.Int32("n"), sym.Int32("m")
	l := thrift.NewTList(thrift.I32, 0)
	l.Push(every.Color(n))
	sym.Assert(l.Len() == 1 && goIs(l.At(0), &val{t: thrift.I32, i: n}), "a list has another element than the enum value")
	s := thrift.NewTSet(thrift.I32, 0)
	s.Add(every.Color(n))
	sym.Assert(s.Contains(m) == (n == m), "a set has another element than the enum value")
	sym.Assert(s.Contains(every.Color(m)) == (n == m), "a set has another element than the enum value")
	a := thrift.NewTMap(thrift.I32, thrift.I32, 0)
	a.Set(every.Color(n), every.Color(m))
	x, found := a.Get(every.Color(n))
	sym.Assert(found && goIs(x, &val{t: thrift.I32, i: m}), "a map has another value than the enum value")
	_, found = a.Get(m)
	sym.Assert(found == (n == m), "a map has another key than the enum value")
	sym.Reach("end")
}

// C33_Constants: the constants have the values and types in the IDL.
func C33_Constants() {
	var i int32 = every.I32_LIMIT
	var c every.Color = every.Color_SHADE
	sym.Assert(i == 100 && c == every.Color_BLUE, "a constant has another value")
	sym.Assert(every.String_GREETING == "hello \"you\"" && every.Bool_YES && every.Double_HALF == 0.5 && every.Double_WHOLE == 3.0, "a constant has another value")
	sym.Assert(every.PRIMES.ElemType() == thrift.I32 && every.PRIMES.Len() == 3, "a constant list has another type or length")
	sym.Assert(every.BIG.ElemType() == thrift.I64 && every.BIG.Len() == 2, "a constant set has another type or length")
	sym.Assert(every.SIZES.KeyType() == thrift.STRING && every.SIZES.ValueType() == thrift.I32 && every.SIZES.Len() == 2, "a constant map has another type or length")
	for j, p := range []int32{2, 3, 5} {
		sym.Assert(goIs(every.PRIMES.At(j), &val{t: thrift.I32, i: p}), "a constant list has another element")
	}
	n := sym.Int32("n")
	sym.Assert(every.PRIMES.Contains(n) == (n == 2 || n == 3 || n == 5), "a constant list has another element")
	l := sym.Int64("l")
	sym.Assert(every.BIG.Contains(l) == (l == 1 || l == 2), "a constant set has another element")
	s := sym.String("s", 5)
	x, found := every.SIZES.Get(s)
	switch s {
	case "small":
		sym.Assert(found && goIs(x, &val{t: thrift.I32, i: 1}), "a constant map has another value")
	case "large":
		sym.Assert(found && goIs(x, &val{t: thrift.I32, i: 2}), "a constant map has another value")
	default:
		sym.Assert(!found, "a constant map has another key")
	}
	sym.Reach("end")
}
