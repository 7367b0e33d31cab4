//go:build generated

package harness

import (
	"every"
	"sym"
	"thrift"
)

// shape is the type of a field: a base type, Base, or a container of shapes.
type shape struct {
	t    thrift.TType
	k, e *shape
}

func one(t thrift.TType) *shape       { return &shape{t: t} }
func listOf(e *shape) *shape          { return &shape{t: thrift.LIST, e: e} }
func setOf(e *shape) *shape           { return &shape{t: thrift.SET, e: e} }
func mapOf(k *shape, e *shape) *shape { return &shape{t: thrift.MAP, k: k, e: e} }

// shaped is any value of the shape; containers have up to n elements, those inside them up to one.
func (g *gen) shaped(s *shape, n int) *val {
	v := &val{t: s.t}
	switch s.t {
	case thrift.STRUCT:
		if s == pointShape {
			return aPoint(g.of(thrift.I32, 0), an(thrift.I32))
		}
		if s == refusedShape {
			return anyRefused(g)
		}
		if s == failureShape {
			v, _ = thrown(g, s)
			return v
		}
		return some(g, &slot{t: thrift.STRUCT})
	case thrift.LIST, thrift.SET, thrift.MAP:
		v.et = s.e.t
		for i := sym.Range("size", 0, n); i > 0; i-- {
			if s.k != nil {
				v.kt = s.k.t
				k := g.shaped(s.k, 1)
				sym.Assume(isKey(k))
				for j := 0; j < len(v.kids); j += 2 {
					sym.Assume(!goIs(native(k), v.kids[j]))
				}
				v.kids = append(v.kids, k)
			}
			e := g.shaped(s.e, 1)
			sym.Assume(s.t != thrift.SET || isKey(e))
			for j := 0; s.t == thrift.SET && j < len(v.kids); j++ {
				sym.Assume(!goIs(native(e), v.kids[j]))
			}
			v.kids = append(v.kids, e)
		}
		if s.k != nil {
			v.kt = s.k.t
		}
		return v
	}
	return g.of(s.t, 0)
}

// isKey: v can be told from any other element of a set or key of a map (negative zero and NaN cannot).
func isKey(v *val) bool { return v.t != thrift.DOUBLE || v.d == v.d && v.d != 0 }

func listSlot(id int16, name string, p *thrift.TList) slot {
	return slot{id, name, thrift.LIST, false, nil, func(x interface{}) { *p = x.(thrift.TList) }, func() interface{} {
		if *p == nil {
			return nil
		}
		return *p
	}}
}

func setSlot(id int16, name string, p *thrift.TSet) slot {
	return slot{id, name, thrift.SET, false, nil, func(x interface{}) { *p = x.(thrift.TSet) }, func() interface{} {
		if *p == nil {
			return nil
		}
		return *p
	}}
}

func mapSlot(id int16, name string, p *thrift.TMap) slot {
	return slot{id, name, thrift.MAP, false, nil, func(x interface{}) { *p = x.(thrift.TMap) }, func() interface{} {
		if *p == nil {
			return nil
		}
		return *p
	}}
}

func structSlot(id int16, name string, opt bool, p **every.Base) slot {
	return slot{id, name, thrift.STRUCT, opt, nil, func(x interface{}) { *p = x.(*every.Base) }, func() interface{} { return structOrNil(*p) }}
}

func intSlot(id int16, name string, p *int32) slot {
	return slot{id, name, thrift.I32, false, zero(thrift.I32), func(x interface{}) { *p = x.(int32) }, func() interface{} { return *p }}
}

func textSlot(id int16, name string, p *string) slot {
	return slot{id, name, thrift.STRING, false, zero(thrift.STRING), func(x interface{}) { *p = x.(string) }, func() interface{} { return *p }}
}

// through sets the fields in v, writes, and writes again what it reads; or it reads v and writes it again.
func through(k int, made func() (thing, []slot), v *val) {
	a, s := made()
	sym.Assert(holds(s, &val{t: thrift.STRUCT}), "a new struct has other values than declared")
	if sym.Choose("direction", 2) == 0 {
		fill(s, v)
		onTheWire(k, a, onWire(s, v))
		return
	}
	fromTheWire(k, a, v)
	sym.Assert(holds(s, v), "a field is read as another value")
	if k <= kCompact || sym.Choose("again", 2) == 1 {
		onTheWire(k, a, onWire(s, v))
	}
}

func containers() (thing, []slot) {
	b := every.NewContainers()
	return b, []slot{
		listSlot(1, "bools", &b.Bools),
		listSlot(2, "bytes", &b.Bytes),
		listSlot(3, "shorts", &b.Shorts),
		listSlot(4, "ints", &b.Ints),
		listSlot(5, "longs", &b.Longs),
		listSlot(6, "doubles", &b.Doubles),
		listSlot(7, "strings", &b.Strings),
		listSlot(8, "binaries", &b.Binaries),
		listSlot(9, "colors", &b.Colors),
		listSlot(10, "structs", &b.Structs),
		setSlot(11, "int_set", &b.IntSet),
		setSlot(12, "string_set", &b.StringSet),
		mapSlot(13, "a_map", &b.AMap),
		mapSlot(14, "struct_map", &b.StructMap),
		listSlot(15, "nested", &b.Nested),
		mapSlot(16, "lists", &b.Lists),
		setSlot(17, "color_set", &b.ColorSet),
		mapSlot(18, "color_map", &b.ColorMap),
		listSlot(19, "sets", &b.Sets),
		listSlot(20, "maps", &b.Maps),
	}
}

var i32, i64, str, bin, base = one(thrift.I32), one(thrift.I64), one(thrift.STRING), one(thrift.BINARY), one(thrift.STRUCT)

var containerShapes = []*shape{
	listOf(one(thrift.BOOL)), listOf(one(thrift.BYTE)), listOf(one(thrift.I16)), listOf(i32), listOf(i64),
	listOf(one(thrift.DOUBLE)), listOf(str), listOf(bin), listOf(i32), listOf(base),
	setOf(i32), setOf(str), mapOf(str, i64), mapOf(i32, base), listOf(listOf(i32)), mapOf(str, listOf(str)),
	setOf(i32), mapOf(i32, i32), listOf(setOf(i32)), listOf(mapOf(i32, i32)),
}

// C31_Containers: a field of any container type with up to two elements of any value.
func C31_Containers() {
	k := anyProtocol()
	i := sym.Choose("field", len(containerShapes))
	_, s := containers()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	v.field(s[i].id, s[i].name, g.shaped(containerShapes[i], 2))
	through(k, containers, v)
	sym.Reach("end")
}

// C31_ContainerPair: any two container fields (quick: near each other).
func C31_ContainerPair() {
	k := anyProtocol()
	_, s := containers()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	i := sym.Choose("field", len(s))
	j := i + 1 + sym.Choose("field", sym.Bound(2, 19))
	sym.Assume(j < len(s))
	v.field(s[i].id, s[i].name, g.shaped(containerShapes[i], 1))
	v.field(s[j].id, s[j].name, g.shaped(containerShapes[j], 1))
	through(k, containers, v)
	sym.Reach("end")
}

func defaultContainers() (thing, []slot) {
	b := every.NewDefaultContainers()
	s := []slot{
		listSlot(1, "a_list", &b.AList),
		setSlot(2, "a_set", &b.ASet),
		mapSlot(3, "a_map", &b.AMap),
		structSlot(4, "a_struct", false, &b.AStruct),
	}
	s[0].def = &val{t: thrift.LIST, et: thrift.I32, kids: []*val{{t: thrift.I32, i: 1}, {t: thrift.I32, i: 2}}}
	s[1].def = &val{t: thrift.SET, et: thrift.STRING, kids: []*val{{t: thrift.STRING, s: "x"}}}
	s[2].def = &val{t: thrift.MAP, kt: thrift.STRING, et: thrift.I32, kids: []*val{{t: thrift.STRING, s: "k"}, {t: thrift.I32, i: 1}}}
	s[3].def = aBase(&val{t: thrift.I32, i: 3})
	return b, s
}

// aBase is what a Base with this an_int writes.
func aBase(c *val) *val {
	b := &val{t: thrift.STRUCT}
	for _, f := range baseSlots(nil) {
		if f.id == 4 {
			b.field(4, "an_int", c)
		} else if f.def != nil {
			b.field(f.id, f.name, f.def)
		}
	}
	return b
}

// C31_DefaultContainers: containers and structs have their declared defaults, and keep any other value.
func C31_DefaultContainers() {
	k := anyProtocol()
	_, s := defaultContainers()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	if i := sym.Choose("field", len(s)+1); i < len(s) {
		v.field(s[i].id, s[i].name, g.shaped([]*shape{listOf(i32), setOf(str), mapOf(str, i32), base}[i], 2))
	}
	through(k, defaultContainers, v)
	sym.Reach("end")
}

func paint(c every.Paint) interface{} {
	if int64(c) == unset {
		return nil
	}
	return int32(c)
}

func aliases() (thing, []slot) {
	b := every.NewAliases()
	return b, []slot{
		{1, "a_number", thrift.I32, false, zero(thrift.I32), func(x interface{}) { b.ANumber = every.Number(x.(int32)) }, func() interface{} { return int32(b.ANumber) }},
		{2, "a_text", thrift.STRING, false, zero(thrift.STRING), func(x interface{}) { b.AText = every.Text(x.(string)) }, func() interface{} { return string(b.AText) }},
		{3, "some_shorts", thrift.LIST, false, nil, func(x interface{}) { b.SomeShorts = x.(thrift.TList) }, func() interface{} {
			if b.SomeShorts == nil {
				return nil
			}
			return thrift.TList(b.SomeShorts)
		}},
		{4, "a_paint", thrift.I32, false, nil, func(x interface{}) { b.APaint = every.Paint(x.(int32)) }, func() interface{} { return paint(b.APaint) }},
		{5, "b_number", thrift.I32, true, zero(thrift.I32), func(x interface{}) { b.BNumber = every.Number(x.(int32)) }, func() interface{} { return int32(b.BNumber) }},
		{6, "b_paint", thrift.I32, true, nil, func(x interface{}) { b.BPaint = every.Paint(x.(int32)) }, func() interface{} { return paint(b.BPaint) }},
		{7, "c", thrift.I32, false, zero(thrift.I32), func(x interface{}) { b.C = every.Count(x.(int32)) }, func() interface{} { return int32(b.C) }},
	}
}

// C31_Aliases: fields of typedefs of base types, enums and lists.
func C31_Aliases() {
	k := anyProtocol()
	_, s := aliases()
	g := leaves(k)
	v := &val{t: thrift.STRUCT}
	shapes := []*shape{i32, str, listOf(one(thrift.I16)), i32, i32, i32, i32}
	i := sym.Choose("field", len(s))
	c := g.shaped(shapes[i], 2)
	if i == 4 {
		sym.Assume(c.i != 0)
	}
	j := sym.Choose("field", len(s))
	if j < i {
		v.field(s[j].id, s[j].name, g.shaped(shapes[j], 1))
		if j == 4 {
			sym.Assume(v.kids[0].i != 0)
		}
	}
	v.field(s[i].id, s[i].name, c)
	through(k, aliases, v)
	sym.Reach("end")
}

func aliasLists() (thing, []slot) {
	b := every.NewAliasLists()
	return b, []slot{listSlot(1, "numbers", &b.Numbers), listSlot(2, "paints", &b.Paints)}
}

func aliasStructs() (thing, []slot) {
	b := every.NewAliasStructs()
	return b, []slot{
		structSlot(1, "a_struct", false, &b.AStruct),
		structSlot(2, "b_struct", true, &b.BStruct),
		listSlot(3, "structs", &b.Structs),
		mapSlot(4, "by_count", &b.ByCount),
		{5, "a_blob", thrift.BINARY, false, nil, func(x interface{}) { b.ABlob = x.([]byte) }, func() interface{} { return bytesOrNil(b.ABlob) }},
		listSlot(6, "blobs", &b.Blobs),
		setSlot(7, "texts", &b.Texts),
	}
}

// C31_AliasContainers: containers of typedefs, and fields of typedefs of structs and binary.
func C31_AliasContainers() {
	k := anyProtocol()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	made, shapes := aliasLists, []*shape{listOf(i32), listOf(i32)}
	if sym.Choose("struct", 2) == 1 {
		made, shapes = aliasStructs, []*shape{base, base, listOf(base), mapOf(i32, base), bin, listOf(bin), setOf(str)}
	}
	_, s := made()
	i := sym.Choose("field", len(s))
	if i > 0 {
		v.field(s[0].id, s[0].name, g.shaped(shapes[0], 1))
	}
	v.field(s[i].id, s[i].name, g.shaped(shapes[i], 2))
	through(k, made, v)
	sym.Reach("end")
}

func unnumbered() (thing, []slot) {
	b := every.NewUnnumbered()
	return b, []slot{
		textSlot(-2, "second", &b.Second),
		intSlot(-1, "first", &b.First),
		intSlot(5, "fifth", &b.Fifth),
	}
}

func gaps() (thing, []slot) {
	b := every.NewGaps()
	return b, []slot{intSlot(1, "one", &b.One), intSlot(3, "three", &b.Three), intSlot(5, "five", &b.Five), intSlot(300, "many", &b.Many)}
}

func nothing() (thing, []slot) { return every.NewEmpty(), nil }

func names() (thing, []slot) {
	b := every.NewNames()
	s := []slot{
		intSlot(1, "type", &b.TypeA1),
		intSlot(2, "func", &b.FuncA1),
		intSlot(3, "snake_case_name", &b.SnakeCaseName),
		intSlot(4, "camelCase", &b.CamelCase),
		intSlot(5, "range", &b.RangeA1),
		{6, "map", thrift.I32, true, nil, func(x interface{}) { b.MapA1 = every.Color(x.(int32)) }, func() interface{} { return colored(b.MapA1) }},
		intSlot(8, "go", &b.GoA1),
		intSlot(9, "x", &b.X),
		intSlot(10, "read", &b.ReadA1),
		intSlot(11, "write", &b.WriteA1),
		intSlot(12, "err", &b.Err),
		intSlot(13, "equals", &b.EqualsA1),
	}
	s[4].def = &val{t: thrift.I32, i: 3}
	return b, s
}

// others are the structs whose fields have unusual ids and names.
var others = []func() (thing, []slot){unnumbered, gaps, nothing, names, failure, otherException}

// C31_Others: fields without ids, with gaps between ids, with names of Go keywords and of the struct's methods; no
// fields; exceptions.
func C31_Others() {
	k := anyProtocol()
	n := sym.Choose("struct", len(others))
	_, s := others[n]()
	g := leaves(k)
	v := &val{t: thrift.STRUCT}
	if len(s) > 0 {
		i := sym.Choose("field", len(s))
		j := sym.Choose("field", len(s))
		if j < i {
			v.field(s[j].id, s[j].name, an(s[j].t))
		}
		v.field(s[i].id, s[i].name, g.of(s[i].t, 0))
	}
	if n == 3 {
		// (the field _under is not exported)
		_, w := names()
		under := []slot{{7, "_under", thrift.I32, false, zero(thrift.I32), nil, nil}}
		a, s := names()
		if sym.Choose("direction", 2) == 0 {
			fill(s, v)
			onTheWire(k, a, onWire(append(append(append([]slot{}, w[:6]...), under...), w[6:]...), v))
		} else {
			fromTheWire(k, a, v)
			sym.Assert(holds(s, v), "a field is read as another value")
		}
		sym.Reach("end")
		return
	}
	through(k, others[n], v)
	sym.Reach("end")
}

// aTree makes a tree of up to the given depth; every node has any value and up to two children (the second is a leaf).
func aTree(g *gen, depth int) *val {
	v := &val{t: thrift.STRUCT}
	v.field(1, "value", g.of(thrift.I32, 0))
	n := 0
	if depth > 0 {
		n = sym.Choose("children", 4)
	}
	if n == 3 {
		return v // (no list)
	}
	l := &val{t: thrift.LIST, et: thrift.STRUCT}
	for i := 0; i < n; i++ {
		if i == 0 {
			l.kids = append(l.kids, aTree(g, depth-1))
		} else {
			l.kids = append(l.kids, aTree(g, 0))
		}
	}
	v.field(2, "children", l)
	return v
}

func grow(v *val) *every.Tree {
	t := every.NewTree()
	t.Value = v.kids[0].i
	if len(v.kids) > 1 {
		t.Children = thrift.NewTList(thrift.STRUCT, 0)
		for _, c := range v.kids[1].kids {
			t.Children.Push(grow(c))
		}
	}
	return t
}

func grown(t *every.Tree, v *val) bool {
	if t.Value != v.kids[0].i {
		return false
	}
	if len(v.kids) == 1 {
		return t.Children == nil
	}
	if t.Children == nil || t.Children.Len() != len(v.kids[1].kids) {
		return false
	}
	for i, c := range v.kids[1].kids {
		u, k := t.Children.At(i).(*every.Tree)
		if !k || !grown(u, c) {
			return false
		}
	}
	return true
}

// C31_Tree: a struct that contains itself.
func C31_Tree() {
	k := anyProtocol()
	v := aTree(leaves(k), sym.Bound(2, 3))
	if sym.Choose("direction", 2) == 0 {
		onTheWire(k, grow(v), v)
	} else {
		t := every.NewTree()
		fromTheWire(k, t, v)
		sym.Assert(grown(t, v), "a tree is read as another")
	}
	sym.Reach("end")
}
