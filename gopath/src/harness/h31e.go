//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

func moreContainers() (thing, []slot) {
	b := every.NewMoreContainers()
	byName := mapSlot(18, "by_name", (*thrift.TMap)(nil))
	byName.put = func(x interface{}) { b.ByName = every.Index(x.(thrift.TMap)) }
	byName.get = func() interface{} {
		if b.ByName == nil {
			return nil
		}
		return thrift.TMap(b.ByName)
	}
	byName.opt = true
	indexes := listSlot(19, "indexes", (*thrift.TList)(nil))
	indexes.put = func(x interface{}) { b.Indexes = every.Indexes(x.(thrift.TList)) }
	indexes.get = func() interface{} {
		if b.Indexes == nil {
			return nil
		}
		return thrift.TList(b.Indexes)
	}
	return b, []slot{
		intSlot(-7, "negative", &b.Negative),
		setSlot(1, "bool_set", &b.BoolSet),
		setSlot(2, "byte_set", &b.ByteSet),
		setSlot(3, "short_set", &b.ShortSet),
		setSlot(4, "long_set", &b.LongSet),
		setSlot(5, "double_set", &b.DoubleSet),
		setSlot(6, "binary_set", &b.BinarySet),
		mapSlot(7, "bool_map", &b.BoolMap),
		mapSlot(8, "byte_map", &b.ByteMap),
		mapSlot(9, "short_map", &b.ShortMap),
		mapSlot(10, "long_map", &b.LongMap),
		mapSlot(11, "double_map", &b.DoubleMap),
		mapSlot(12, "binaries", &b.Binaries),
		mapSlot(13, "colors", &b.Colors),
		mapSlot(14, "maps", &b.Maps),
		mapSlot(15, "sets", &b.Sets),
		listSlot(16, "deep", &b.Deep),
		listSlot(17, "mixed", &b.Mixed),
		byName,
		indexes,
		listSlot(20, "failures", &b.Failures),
		intSlot(40, "last", &b.Last),
	}
}

// moreShapes are the types of those fields.
var moreShapes = []*shape{
	i32,
	setOf(one(thrift.BOOL)), setOf(one(thrift.BYTE)), setOf(one(thrift.I16)), setOf(i64), setOf(one(thrift.DOUBLE)), setOf(bin),
	mapOf(one(thrift.BOOL), one(thrift.BYTE)), mapOf(one(thrift.BYTE), one(thrift.I16)), mapOf(one(thrift.I16), one(thrift.BOOL)),
	mapOf(i64, one(thrift.DOUBLE)), mapOf(one(thrift.DOUBLE), str), mapOf(str, bin), mapOf(i32, listOf(i32)),
	mapOf(str, mapOf(str, i32)), mapOf(i32, setOf(str)), listOf(listOf(listOf(one(thrift.BYTE)))),
	listOf(mapOf(str, listOf(one(thrift.I16)))), mapOf(str, listOf(one(thrift.I16))), listOf(mapOf(str, listOf(one(thrift.I16)))),
	listOf(failureShape), i32,
}

// C31_MoreContainers: sets and maps with keys of every base type, containers in containers in containers, typedefs of
// containers, containers of exceptions.
func C31_MoreContainers() {
	k := anyProtocol()
	i := sym.Choose("field", len(moreShapes))
	_, s := moreContainers()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	n := 2
	if k == kJSON || k == kSimple {
		n = sym.Bound(1, 2)
	}
	c := g.shaped(moreShapes[i], n)
	// (optional fields without elements)
	sym.Assume(!s[i].opt || len(c.kids) > 0)
	v.field(s[i].id, s[i].name, c)
	through(k, moreContainers, v)
	sym.Reach("end")
}
