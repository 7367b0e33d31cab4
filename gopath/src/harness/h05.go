package harness

import (
	"math"
	"sym"
	"thrift"
)

// text is an arbitrary well-formed UTF-8 string: n characters of one byte, or one longer character among others.
func text(n int) string {
	if n == 0 {
		return ""
	}
	b := sym.Bytes("s", n)
	for i := range b {
		sym.Assume(b[i] < 0x80)
	}
	s := string(b)
	switch sym.Choose("wide", 5) {
	case 1:
		x, y := sym.Byte("u"), sym.Byte("u")
		sym.Assume(x >= 0xc2 && x <= 0xdf && y >= 0x80 && y <= 0xbf)
		s = string([]byte{b[0], x, y})
	case 2:
		x, y, z := sym.Byte("u"), sym.Byte("u"), sym.Byte("u")
		sym.Assume(x >= 0xe1 && x <= 0xec && y >= 0x80 && y <= 0xbf && z >= 0x80 && z <= 0xbf)
		s = string([]byte{x, y, z, b[0]})
	case 3:
		x, y, z, w := sym.Byte("u"), sym.Byte("u"), sym.Byte("u"), sym.Byte("u")
		sym.Assume(x >= 0xf1 && x <= 0xf3 && y >= 0x80 && y <= 0xbf && z >= 0x80 && z <= 0xbf && w >= 0x80 && w <= 0xbf)
		s = string([]byte{x, y, z, w})
	case 4:
		s += "\u2028\u00ff\U0010ffff\ufffd"
	}
	return s
}

// C05_Int: every integer type, every value.
func C05_Int() { jsonInts(kJSON) }

func jsonInts(k int) {
	g := &gen{k: k}
	v := g.of(pick("type", []thrift.TType{thrift.BYTE, thrift.I16, thrift.I32, thrift.I64}), 0)
	jsonRT(k, 0, v)
}

// C05_Double: doubles of every shape of text, and the special ones.
func C05_Double() { jsonDoubles(kJSON) }

func jsonDoubles(k int) {
	ds := []float64{math.Inf(1), math.Inf(-1), math.NaN(), 0, math.Copysign(0, -1), 1, -1.5, 1e21, 1e-7, 5e-324, math.MaxFloat64}
	j := sym.Choose("d", len(ds)+1)
	v := &val{t: thrift.DOUBLE}
	if j < len(ds) {
		v.d = ds[j]
	} else {
		v.d = sym.Float64("double")
	}
	jsonRT(k, 0, v)
}

// C05_Text: strings of any characters.
func C05_Text() { jsonText(kJSON) }

func jsonText(k int) {
	n := sym.Range("len", 0, sym.Bound(3, 4))
	jsonRT(k, 0, &val{t: thrift.STRING, s: text(n)})
}

// C05_Binary: binaries of any bytes.
func C05_Binary() { jsonBinary(kJSON) }

func jsonBinary(k int) {
	n := sym.Range("len", 0, sym.Bound(4, 7))
	jsonRT(k, 0, &val{t: thrift.BINARY, x: sym.Bytes("x", n)})
}

// jsonRT puts v among other values (how: 0 all ways) and reads everything back.
func jsonRT(k int, how int, v *val) {
	one := func() *val { return &val{t: thrift.I32, i: 7} }
	tr := func() *val { return &val{t: thrift.BOOL, b: sym.Bool("bool")} }
	str := func(s string) *val { return &val{t: thrift.STRING, s: s} }
	n := 6
	if how == 1 {
		n = 4
	}
	switch sym.Choose("where", n) {
	case 0: // alone
		roundTrip(k, mkr(k), mkr(k), v)
	case 1: // an element between others
		if v.t == thrift.BINARY {
			roundTrip(k, mkr(k), mkr(k), &val{t: thrift.LIST, et: v.t, kids: []*val{{t: v.t, x: []byte("a")}, v, {t: v.t}}})
		} else {
			roundTrip(k, mkr(k), mkr(k), &val{t: thrift.SET, et: v.t, kids: []*val{v, v}})
		}
	case 2: // a map's key and value
		roundTrip(k, mkr(k), mkr(k), &val{t: thrift.MAP, kt: v.t, et: v.t, kids: []*val{v, v, v, v}})
	case 3: // a field between others
		roundTrip(k, mkr(k), mkr(k), &val{t: thrift.STRUCT, ids: []int16{1, -2, 30}, names: []string{"a", "b", "c"}, kids: []*val{tr(), v, one()}})
	case 4: // in a list in a field of a struct in a map
		l := &val{t: thrift.LIST, et: v.t, kids: []*val{v}}
		s := &val{t: thrift.STRUCT, ids: []int16{9, 10}, names: []string{"l", "m"}, kids: []*val{l, tr()}}
		m := &val{t: thrift.MAP, kt: thrift.STRING, et: thrift.STRUCT, kids: []*val{str("k"), s}}
		roundTrip(k, mkr(k), mkr(k), &val{t: thrift.LIST, et: thrift.MAP, kids: []*val{m, m}})
	case 5: // the argument of a message
		buf := thrift.NewTMemoryBuffer()
		p, q := mk(k, buf), mk(k, buf)
		msgRoundTrip(k, true, p, q, "nm", 1, 5, v)
		msgRoundTrip(k, true, p, q, "nm", 2, 6, one())
		sym.Reach("end")
	}
}

// C05_Message: message headers.
func C05_Message() { jsonMessage(kJSON) }

func jsonMessage(k int) {
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	name := text(sym.Range("len", 0, 1))
	typ := sym.Byte("msgtype")
	seq := int32(3)
	if sym.Choose("any", 2) == 1 {
		typ = byte(sym.Range("t", 1, 4))
		seq = sym.Int32("seq")
	}
	for i := 0; i < 2; i++ {
		msgRoundTrip(k, true, p, q, name, typ, seq, &val{t: thrift.BOOL, b: sym.Bool("body")})
	}
	sym.Reach("end")
}

// C05_Fields: structs whose fields have any ids and any type.
func C05_Fields() {
	g := &gen{k: kJSON, leaves: allLeaves, nested: allNested, width: 0, digits: true, lens: []int{1}, ascii: true}
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 0, 2)
	for j := 0; j < n; j++ {
		id := sym.Int16("id")
		if j > 0 {
			sym.Assume(id > -100 && id < 100)
		}
		v.ids = append(v.ids, id)
		v.names = append(v.names, "f")
		if j == 0 {
			v.kids = append(v.kids, g.of(g.typ(1), 0))
		} else {
			v.kids = append(v.kids, g.of(thrift.BOOL, 0))
		}
	}
	roundTrip(kJSON, mkr(kJSON), mkr(kJSON), v, sentinelStruct())
}

func sentinelStruct() *val {
	return &val{t: thrift.STRUCT, ids: []int16{4}, names: []string{"z"}, kids: []*val{{t: thrift.BYTE, y: 90}}}
}

// C05_Elements: containers of every element type and size.
func C05_Elements() { jsonElements(kJSON) }

func jsonElements(k int) {
	g := &gen{k: k, leaves: allLeaves, nested: allNested, width: 2, digits: true, lens: []int{1}, ascii: true}
	t := pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP})
	v := &val{t: t, kt: g.leaves[0]}
	n := sym.Choose("size", 3)
	if t == thrift.MAP {
		v.kt = pick("key", allTypes)
		v.et = pick("elem", allLeaves)
	} else {
		v.et = pick("elem", allTypes)
	}
	g.width = 1
	g.leaves = []thrift.TType{thrift.BOOL}
	g.digits = true
	for j := 0; j < n; j++ {
		if t == thrift.MAP {
			v.kids = append(v.kids, g.of(v.kt, 1))
		}
		if j > 0 {
			v.kids = append(v.kids, v.kids[0])
			if t == thrift.MAP {
				v.kids[len(v.kids)-1] = v.kids[1]
			}
		} else {
			v.kids = append(v.kids, g.of(v.et, 1))
		}
	}
	roundTrip(k, mkr(k), mkr(k), v)
}

// C05_Tree: nested values.
func C05_Tree() {
	g := &gen{k: kJSON, leaves: []thrift.TType{thrift.BOOL}, nested: allNested, width: sym.Bound(1, 2)}
	roundTrip(kJSON, mkr(kJSON), mkr(kJSON), g.of(pick("root", allNested), 3))
}
