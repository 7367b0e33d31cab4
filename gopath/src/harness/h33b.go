//go:build generated

package harness

import (
	"constants"
	"every"
	"services"
	"sym"
	"thrift"
	"typedefs"
)

// levels are the values of the enum Level, as the IDL numbers them.
var levels = []struct {
	name  string
	c     every.Level
	value int
}{
	{"Level_LOW", every.Level_LOW, -1},
	{"Level_NONE", every.Level_NONE, 0},
	{"Level_MIDDLE", every.Level_MIDDLE, 7},
	{"Level_HIGH", every.Level_HIGH, 8},
	{"Level_EXTREME", every.Level_EXTREME, 2000000000},
}

// C33_Levels: the same as C33_Enum and C33_Names, for an enum with negative, counted and large values.
func C33_Levels() {
	for _, x := range levels {
		sym.Assert(int(x.c) == x.value, "an enum value has another number than declared")
	}
	n := sym.Int64("n")
	c := every.Level(n)
	sym.Assert(int64(c.Value()) == n && c.IsEnum(), "Value or IsEnum is wrong")
	s := c.String()
	declared := false
	for _, x := range levels {
		if int64(x.value) == n {
			declared = true
			sym.Assert(s == x.name, "an enum value has another name")
			sym.Assert(every.FromLevelString(s) == c, "the name of an enum value is that of another")
		} else {
			sym.Assert(s != x.name, "a number has the name of an enum value")
		}
	}
	sym.Assert(declared || s == "<UNSET>", "a number that is not declared has a name")
	// any text
	b := []byte(levels[sym.Choose("like", len(levels))].name)
	b[sym.Choose("at", len(b))] = sym.Byte("byte")
	s = string(b)
	c = every.FromLevelString(s)
	found := false
	for _, x := range levels {
		if s == x.name {
			found = true
			sym.Assert(c == x.c, "a name stands for another value")
		} else {
			sym.Assert(c != x.c, "a value has two names")
		}
	}
	sym.Assert(found || c.String() == "<UNSET>", "a text that is no name stands for a value")
	sym.Reach("end")
}

func ints(n ...int32) *val {
	v := &val{t: thrift.LIST, et: thrift.I32}
	for _, i := range n {
		v.kids = append(v.kids, &val{t: thrift.I32, i: i})
	}
	return v
}

func aNumber(i int32) *val { return &val{t: thrift.I32, i: i} }

// pairs: m is an S2 with exactly the entry k: v (nothing: no entry).
func pairs(m *constants.S2, kv ...int32) bool {
	if m == nil || m.M == nil {
		return false
	}
	v := &val{t: thrift.MAP, kt: thrift.I32, et: thrift.I32}
	for _, i := range kv {
		v.kids = append(v.kids, aNumber(i))
	}
	return goIs(m.M, v)
}

// anS: s has these values, the others as the IDL declares for a new S.
func anS(s *constants.S, n constants.Number, typ int32, p int64, es thrift.TList, want *val) bool {
	if s == nil || s.N != n || s.TypeA1 != typ || int64(s.P) != p || s.D != 4 || s.Dp != 2 {
		return false
	}
	if want == nil {
		return s.Es == nil
	}
	return s.Es != nil && goIs(s.Es, want)
}

// C33_Scalars: constants of base types: extreme numbers, doubles with all their digits, escapes.
func C33_Scalars() {
	var yes, no bool = constants.Bool_ZERO, constants.Bool_NO
	var y byte = constants.Byte_SMALL
	var h int16 = constants.I16_SHORT
	var i int32 = constants.I32_LEAST
	var l, m int64 = constants.I64_GREATEST, constants.I64_LONGLEAST
	sym.Assert(!yes && !no && y == 128 && h == -32768 && i == -2147483648 && l == 1<<63-1 && m == -(1<<63-1), "a constant has another value")
	var d, e, f, g, k float64 = constants.Double_NEGATIVE, constants.Double_TINY, constants.Double_WHOLE, constants.Double_PRECISE, constants.Double_D
	sym.Assert(d == -2.5 && e == 1e-300 && f == -4 && g == 1.2345678901234567 && k == 0.1, "a constant has another value")
	var a, b, c, p string = constants.String_EMPTY, constants.String_ESCAPES, constants.String_SINGLE, constants.String_PERCENT
	sym.Assert(a == "" && b == "tab\tnew\nquote\"back\\end" && c == "it is \"so\"" && p == "100%d", "a constant has another value")
	x := sym.String("x", 8)
	sym.Assert((x == string(constants.String_BYTES)) == (x == "bin\\ary\n"), "a constant has another value")
	sym.Assert(constants.Number_N == 3 && typedefs.Paint_CP == 1 && typedefs.I64_I == 10000000000 && string(typedefs.Blob_CB) == "xyz", "a constant has another value")
	sym.Assert(services.Byte_B == 254, "a constant has another value")
	sym.Reach("end")
}

// C33_Deep: constants of structs and nested containers; every element looked up, by any number or text.
func C33_Deep() {
	n := sym.Int32("n")
	s := sym.String("s", 1)
	switch sym.Choose("constant", 14) {
	case 0:
		sym.Assert(anS(constants.S_ONE, 3, 4, 2, nil, ints(2, 3)) && pairs(constants.S_ONE.S, 1, 2), "a constant struct has another value")
	case 1:
		sym.Assert(anS(constants.S_TWO, 0, 9, unset, nil, nil) && constants.S_TWO.S == nil, "a constant struct has another value")
	case 2:
		o := constants.Outer_OUT
		sym.Assert(o.Esc == "x" && o.Opt == "\n", "a constant struct has another value")
		sym.Assert(anS(o.Inner, 8, 0, unset, nil, ints(3)), "a constant struct has another value")
		sym.Assert(o.List_.Len() == 2 && pairs(o.List_.At(0).(*constants.S2), 1, 2) && o.List_.At(1).(*constants.S2).M == nil, "a constant struct has another list")
		x, found := o.Sets.Get(s)
		sym.Assert(found == (s == "k") && o.Sets.Len() == 1, "a constant struct has another map")
		sym.Assert(!found || x.(thrift.TSet).Len() == 2 && x.(thrift.TSet).Contains(n) == (n == 4 || n == 5), "a constant struct has another set")
		sym.Assert(constants.NewOuter().Esc == "a\"b\\", "a new struct lacks a default value")
	case 3:
		sym.Assert(goIs(constants.NUMS, ints(1, 2)), "a constant list has another value")
	case 4:
		x, found := constants.MP.Get(n)
		sym.Assert(found == (n == 2 || n == 3) && constants.MP.Len() == 2, "a constant map has another key")
		sym.Assert(!found || goIs(x, &val{t: thrift.DOUBLE, d: 1}) && n == 2 || goIs(x, &val{t: thrift.DOUBLE, d: 2.5}) && n == 3, "a constant map has another value")
	case 5:
		sym.Assert(constants.SS.Len() == 1 && pairs(constants.SS.At(0).(*constants.S2)), "a constant list has another value")
	case 6:
		sym.Assert(goIs(constants.NESTED, &val{t: thrift.LIST, et: thrift.LIST, kids: []*val{ints(1, 2), ints(), ints(3)}}), "a constant list has another value")
	case 7:
		x, found := constants.LISTS.Get(s)
		sym.Assert(found == (s == "a" || s == "b") && constants.LISTS.Len() == 2, "a constant map has another key")
		sym.Assert(!found || s == "a" && goIs(x, ints(2, 3)) || s == "b" && goIs(x, ints()), "a constant map has another value")
	case 8:
		x, found := constants.BYE.Get(n)
		sym.Assert(found == (n == 2) && constants.BYE.Len() == 1, "a constant map has another key")
		sym.Assert(!found || pairs(x.(*constants.S2), 5, 3), "a constant map has another value")
	case 9:
		sym.Assert(constants.EE.Len() == 1 && constants.EE.Contains(n) == (n == 3), "a constant set has another element")
		sym.Assert(constants.TEXTS.Len() == 3 && constants.TEXTS.Contains(s) == (s == "x" || s == "y" || s == "z"), "a constant set has another element")
	case 10:
		sym.Assert(goIs(constants.DOUBLES, &val{t: thrift.LIST, et: thrift.DOUBLE, kids: []*val{{t: thrift.DOUBLE, d: 1}, {t: thrift.DOUBLE, d: 0.1}, {t: thrift.DOUBLE, d: -2.5}}}), "a constant list has another value")
		sym.Assert(goIs(constants.BLOBS, &val{t: thrift.LIST, et: thrift.BINARY, kids: []*val{{t: thrift.BINARY, x: []byte("a")}, {t: thrift.BINARY, x: []byte("\n")}}}), "a constant list has another value")
	case 11:
		sym.Assert(goIs(constants.BOOLS, &val{t: thrift.LIST, et: thrift.BOOL, kids: []*val{{t: thrift.BOOL, b: true}, {t: thrift.BOOL}, {t: thrift.BOOL, b: true}, {t: thrift.BOOL}}}), "a constant list has another value")
		sym.Assert(goIs(constants.BYTELIST, &val{t: thrift.LIST, et: thrift.BYTE, kids: []*val{{t: thrift.BYTE, y: 255}, {t: thrift.BYTE, y: 127}}}), "a constant list has another value")
	case 12:
		l := sym.Int64("l")
		x, found := constants.LONGS.Get(l)
		sym.Assert(found == (l == -(1<<63-1) || l == 2) && constants.LONGS.Len() == 2, "a constant map has another key")
		sym.Assert(!found || goIs(x, &val{t: thrift.I64, l: 1}) && l < 0 || goIs(x, &val{t: thrift.I64, l: -3}) && l == 2, "a constant map has another value")
	case 13:
		sym.Assert(typedefs.Alias_CA.A == 3, "a constant struct has another value")
		x, found := typedefs.M_CM.Get(s)
		sym.Assert(found == (s == "a") && typedefs.M_CM.Len() == 1, "a constant map has another key")
		sym.Assert(!found || goIs(x, aNumber(1)), "a constant map has another value")
		t := services.NewS()
		sym.Assert(t.A == 255 && t.B == 128 && t.C == -5 && goIs(t.L, &val{t: thrift.LIST, et: thrift.BYTE, kids: []*val{{t: thrift.BYTE, y: 255}, {t: thrift.BYTE, y: 2}}}), "a new struct lacks a default value")
	}
	sym.Reach("end")
}
