package harness

import (
	"sym"
	"thrift"
)

var typed = []int{kBin, kCompact, kJSON}

func (v *val) depth() int {
	d := 0
	for _, c := range v.kids {
		if n := c.depth(); n > d {
			d = n
		}
	}
	return d + 1
}

// skip skips a value by any of the ways there are.
func skip(p thrift.TProtocol, t thrift.TType, depth int) thrift.TProtocolException {
	switch sym.Choose("how", 3) {
	case 0:
		return p.Skip(t)
	case 1:
		return thrift.SkipDefaultDepth(p, t)
	}
	return thrift.Skip(p, t, depth)
}

// skipped writes v alone or among other values, skips it, and checks what follows.
func skipped(k int, v *val) {
	buf := thrift.NewTMemoryBuffer()
	p, q := mk(k, buf), mk(k, buf)
	tail := &val{t: thrift.STRUCT, ids: []int16{sym.Int16("id"), 900}, names: []string{"f", "g"}, kids: []*val{{t: thrift.BOOL, b: sym.Bool("bool")}, {t: thrift.BYTE, y: sym.Byte("byte")}}}
	if k == kJSON {
		tail.ids[0] = 3
		tail.kids[1].y = 7
	}
	switch sym.Choose("where", 3) {
	case 0: // on its own
		if k == kJSON { // (a JSON text is one value)
			sym.Assume(v.t >= thrift.STRING)
		}
		write(p, v)
		write(p, tail)
		ok(p.Flush(), "Flush fails")
		ok(skip(q, v.t, v.depth()), "Skip fails")
		check(k, q, tail)
	case 1: // a field of a struct, others before and after it
		o := &val{t: thrift.STRUCT, ids: []int16{5, 6, 20, 21}, names: []string{"a", "b", "c", "d"}, kids: []*val{{t: thrift.BOOL, b: true}, v, {t: thrift.BOOL, b: sym.Bool("b")}, tail}}
		write(p, o)
		ok(p.Flush(), "Flush fails")
		_, e := q.ReadStructBegin()
		ok(e, "ReadStructBegin fails")
		for j, c := range o.kids {
			_, t, id, e := q.ReadFieldBegin()
			ok(e, "ReadFieldBegin fails")
			sym.Assert(sameType(t, c.t) && id == o.ids[j], "field header differs after a skipped field")
			if j == 1 {
				ok(skip(q, t, v.depth()), "Skip of a field fails")
			} else {
				check(k, q, c)
			}
			ok(q.ReadFieldEnd(), "ReadFieldEnd fails")
		}
		_, t, _, e := q.ReadFieldBegin()
		ok(e, "ReadFieldBegin fails")
		sym.Assert(t == thrift.STOP, "no stop")
		ok(q.ReadStructEnd(), "ReadStructEnd fails")
	case 2: // the argument of a message; another message follows
		ok(p.WriteMessageBegin("m", 1, 3), "WriteMessageBegin fails")
		write(p, v)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		ok(p.WriteMessageBegin("n", 2, 4), "WriteMessageBegin fails")
		write(p, tail)
		ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
		ok(p.Flush(), "Flush fails")
		_, _, _, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails")
		ok(skip(q, v.t, v.depth()), "Skip of an argument fails")
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
		n, t, s, e := q.ReadMessageBegin()
		ok(e, "ReadMessageBegin fails after a skipped argument")
		sym.Assert(n == "n" && t == 2 && s == 4, "message header differs after a skipped argument")
		check(k, q, tail)
		ok(q.ReadMessageEnd(), "ReadMessageEnd fails")
	}
	if k != kJSON {
		sym.Assert(buf.Len() == 0, "bytes are left over")
	}
	sym.Reach("end")
}

// C08_Scalar: every base type, every content.
func C08_Scalar() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: allLeaves, lens: []int{0, 1, 5}, digits: k == kJSON, ascii: k == kJSON}
	if k == kJSON {
		g.lens = []int{0, 2}
	}
	skipped(k, g.of(g.typ(0), 0))
}

// C08_Elements: containers of every element type, as keys and as values too.
func C08_Elements() {
	k := typed[sym.Choose("protocol", 3)]
	c := pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP})
	kt, et := pick("ktype", allTypes), thrift.TType(thrift.BOOL)
	if c != thrift.MAP {
		et = kt
	} else if sym.Choose("swap", 2) == 1 {
		kt, et = et, kt
	}
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL}, nested: []thrift.TType{thrift.BOOL}, lens: []int{1}, width: 1, digits: k == kJSON, ascii: k == kJSON}
	v := &val{t: c, kt: kt, et: et}
	n := sym.Choose("size", 3)
	for j := 0; j < n; j++ {
		if c == thrift.MAP {
			v.kids = append(v.kids, g.of(kt, 1))
		}
		v.kids = append(v.kids, g.of(et, 1))
	}
	skipped(k, v)
}

// C08_Tree: nested values.
func C08_Tree() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: []thrift.TType{thrift.BOOL, thrift.STRING}, nested: allNested, lens: []int{1}, width: 1, digits: k == kJSON, ascii: k == kJSON}
	if k == kJSON {
		g.leaves = g.leaves[:1]
	}
	skipped(k, g.of(pick("root", allNested), sym.Bound(2, 3)))
}

// C08_Struct: structs with fields of every type, and any ids.
func C08_Struct() {
	k := typed[sym.Choose("protocol", 3)]
	g := &gen{k: k, leaves: allLeaves, nested: []thrift.TType{thrift.STRUCT, thrift.LIST}, lens: []int{1}, width: 1, digits: true, ascii: k == kJSON, anyIds: k != kJSON}
	v := &val{t: thrift.STRUCT}
	n := sym.Range("fields", 0, 2)
	for j := 0; j < n; j++ {
		id := int16(3 * j)
		if k != kJSON {
			id = sym.Int16("id")
		}
		v.ids = append(v.ids, id)
		v.names = append(v.names, "f")
		if j == 1 {
			v.kids = append(v.kids, &val{t: thrift.BOOL, b: sym.Bool("last")})
		} else {
			v.kids = append(v.kids, g.of(g.typ(1), 0))
		}
	}
	skipped(k, v)
}

// C08_Long: long strings.
func C08_Long() {
	k := typed[sym.Choose("protocol", 3)]
	ns := []int{126, 127, 128, 129, 4095, 4096, 4097}
	n := ns[sym.Choose("len", len(ns))]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	v := &val{t: thrift.STRING, s: string(b)}
	if sym.Choose("binary", 2) == 1 {
		v = &val{t: thrift.BINARY, x: b}
	}
	skipped(k, &val{t: thrift.LIST, et: v.t, kids: []*val{v, v}})
}

// blank is a value of type t with nothing in it.
func blank(t thrift.TType) *val {
	return &val{t: t, kt: thrift.BYTE, et: thrift.BYTE}
}

// C08_Sizes: containers of more elements than the others, of every pair of types, each element blank.
func C08_Sizes() {
	k := typed[sym.Choose("protocol", 3)]
	v := &val{t: pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}), et: pick("etype", allTypes)}
	if v.t == thrift.MAP {
		v.kt = pick("ktype", allTypes)
	}
	sizes := []int{3, 5}
	if sym.Thorough() {
		sizes = []int{3, 4, 5, 15, 17}
	}
	n := sizes[sym.Choose("size", len(sizes))]
	for j := 0; j < n; j++ {
		if v.t == thrift.MAP {
			v.kids = append(v.kids, blank(v.kt))
		}
		v.kids = append(v.kids, blank(v.et))
	}
	skipped(k, v)
}
