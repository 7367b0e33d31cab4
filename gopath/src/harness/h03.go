package harness

import (
	"sym"
	"thrift"
)

// C03_Scalar: every base type, every value.
func C03_Scalar() {
	g := &gen{k: kCompact, leaves: allLeaves, lens: []int{0, 1, 5}}
	a := g.of(g.typ(0), 0)
	b := g.of(g.typ(0), 0)
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), a, b, sentinel())
}

// C03_Strings: longer strings and binaries (the length is a varint).
func C03_Strings() {
	g := &gen{k: kCompact, lens: bigLens()}
	t := thrift.TType(thrift.STRING)
	if sym.Choose("kind", 2) == 1 {
		t = thrift.BINARY
	}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), g.of(t, 0), sentinel())
}

// C03_Long: lengths of two and three varint bytes.
func C03_Long() {
	ls := []int{4096, 16383, 16384}
	if sym.Thorough() {
		ls = []int{511, 512, 4095, 4096, 4097, 8191, 16383, 16384, 16385, 32768, 65536}
	}
	s := longString(ls[sym.Choose("len", len(ls))])
	v := &val{t: thrift.STRING, s: s}
	if sym.Choose("kind", 2) == 1 {
		v = &val{t: thrift.BINARY, x: []byte(s)}
	}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), v, sentinel())
}

// C03_Message: message headers with any name, any of the eight message types and any sequence id.
func C03_Message() {
	buf := thrift.NewTMemoryBuffer()
	lens := []int{0, 1, 2, 130}
	name := sym.String("name", lens[sym.Choose("len", len(lens))])
	typ := sym.Byte("msgtype")
	sym.Assume(typ < 8)
	w := mk(kCompact, buf)
	r := mk(kCompact, buf)
	for i := 0; i < 2; i++ {
		seq := sym.Int32("seq")
		msgRoundTrip(kCompact, true, w, r, name, typ, seq, &val{t: thrift.STRUCT, ids: []int16{3}, names: []string{"f"}, kids: []*val{{t: thrift.BOOL, b: sym.Bool("body")}}})
		sym.Assert(buf.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C03_BadHeader: a header with another protocol id or version is refused.
func C03_BadHeader() {
	buf := thrift.NewTMemoryBuffer()
	id, ver := sym.Byte("id"), sym.Byte("ver")
	buf.Write([]byte{id, ver, 1, 1, 'x'})
	n, t, s, e := mk(kCompact, buf).ReadMessageBegin()
	if id == 0x82 && ver&0x1f == 1 {
		sym.Assert(e == nil && n == "x" && byte(t) == ver>>5 && s == 1, "a good header is refused or read differently")
	} else {
		sym.Assert(e != nil && e.TypeId() == thrift.BAD_VERSION, "a header of another protocol or version is accepted")
	}
	sym.Reach("end")
}

// C03_Fields: structs with fields of any types and any ids.
func C03_Fields() {
	g := &gen{k: kCompact, leaves: []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.DOUBLE}}
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 0, sym.Bound(3, 4))
	for j := 0; j < n; j++ {
		v.ids = append(v.ids, sym.Int16("id"))
		v.names = append(v.names, "f")
		v.kids = append(v.kids, g.of(g.typ(0), 0))
	}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), v, sentinel())
}

// C03_Struct: nested structs; the field ids of the outer one go on after the inner one.
func C03_Struct() {
	g := &gen{k: kCompact, leaves: []thrift.TType{thrift.BOOL, thrift.BYTE}, nested: []thrift.TType{thrift.STRUCT}, width: 2, anyIds: true}
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 1, 2)
	for j := 0; j < n; j++ {
		v.ids = append(v.ids, sym.Int16("id"))
		v.names = append(v.names, "f")
		if j == 0 {
			v.kids = append(v.kids, g.of(thrift.STRUCT, sym.Bound(1, 2)))
		} else {
			v.kids = append(v.kids, g.of(g.typ(0), 0))
		}
	}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), v, sentinel())
}

// C03_Headers: container headers of any types and any size.
func C03_Headers() { headers(kCompact, mkr(kCompact)) }

// C03_Elements: containers of every base type, booleans included; sizes about the short form's limit too.
func C03_Elements() {
	g := &gen{k: kCompact, leaves: allLeaves, lens: []int{0, 2}, width: 2}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), g.of(pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), 1), sentinel())
}

// C03_Sizes: lists, sets and maps of 13 to 17 (thorough: also 127 to 129) booleans or bytes.
func C03_Sizes() {
	ns := []int{13, 14, 15, 16, 17}
	if sym.Thorough() {
		ns = append(ns, 30, 127, 128, 129)
	}
	n := ns[sym.Choose("size", len(ns))]
	v := &val{t: pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), kt: thrift.BYTE, et: pick("elem", []thrift.TType{thrift.BOOL, thrift.BYTE})}
	g := &gen{k: kCompact}
	for j := 0; j < n; j++ {
		if v.t == thrift.MAP {
			v.kids = append(v.kids, g.of(v.kt, 0))
		}
		v.kids = append(v.kids, g.of(v.et, 0))
	}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), v, sentinel())
}

// C03_Tree: nested values.
func C03_Tree() {
	g := &gen{k: kCompact, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{1}, width: 2}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), g.of(pick("root", allNested), 2), sentinel())
}

// C03_Tree3: three levels.
func C03_Tree3() {
	g := &gen{k: kCompact, leaves: []thrift.TType{thrift.BOOL, thrift.BYTE}, nested: []thrift.TType{thrift.STRUCT, thrift.LIST}, lens: []int{1}, width: sym.Bound(1, 2)}
	roundTrip(kCompact, mkr(kCompact), mkr(kCompact), g.of(pick("root", allNested), 3), sentinel())
}
