package harness

import (
	"simple"
	"sym"
	"thrift"
)

// comparing checks Compare, Less and their mirror images for two values whose order is known.
func comparing(t thrift.TType, a, b interface{}, want int) {
	c, ok := t.Compare(a, b)
	sym.Assert(ok, "values of the type cannot be compared")
	sym.Assert(c == want, "the order of two values is wrong")
	c, ok = t.Compare(b, a)
	sym.Assert(ok && c == -want, "the order of two values is not the reverse of the reverse")
	sym.Assert(t.Less(a, b) == (want < 0), "Less differs from Compare")
	sym.Assert(t.Less(b, a) == (want > 0), "Less differs from Compare")
}

// C18_Base: any two values of a base type, nil among them.
func C18_Base() {
	t := pick("type", baseTypes)
	var a, b interface{}
	n := sym.Bound(3, 5)
	if sym.Choose("nil", 2) == 0 {
		a = anyOf(t, 0, n)
	}
	if sym.Choose("nil", 2) == 0 {
		b = anyOf(t, 0, n)
	}
	comparing(t, a, b, order(a, b))
	sym.Reach("end")
}

// C18_Helpers: the exported comparisons of Go values.
func C18_Helpers() {
	switch sym.Choose("helper", 10) {
	case 0:
		a, b := sym.Int("a"), sym.Int("b")
		sym.Assert(thrift.CompareInt(a, b) == sign(a < b, a > b), "CompareInt")
	case 1:
		a, b := sym.Int16("a"), sym.Int16("b")
		sym.Assert(thrift.CompareInt16(a, b) == sign(a < b, a > b), "CompareInt16")
	case 2:
		a, b := sym.Int32("a"), sym.Int32("b")
		sym.Assert(thrift.CompareInt32(a, b) == sign(a < b, a > b), "CompareInt32")
	case 3:
		a, b := sym.Int64("a"), sym.Int64("b")
		var f interface{} = thrift.CompareInt64
		g, ok := f.(func(i, j int64) int)
		sym.Assert(ok, "CompareInt64 does not compare 64-bit integers")
		sym.Assert(g(a, b) == sign(a < b, a > b), "CompareInt64")
	case 4:
		a, b := sym.Byte("a"), sym.Byte("b")
		sym.Assert(thrift.CompareByte(a, b) == sign(a < b, a > b), "CompareByte")
	case 5:
		a, b := sym.Bool("a"), sym.Bool("b")
		sym.Assert(thrift.CompareBool(a, b) == sign(!a && b, a && !b), "CompareBool")
	case 6:
		a, b := sym.Float64("a"), sym.Float64("b")
		sym.Assert(thrift.CompareDouble(a, b) == order(a, b), "CompareDouble")
	case 7:
		a, b := sym.Float32("a"), sym.Float32("b")
		sym.Assert(thrift.CompareFloat(a, b) == order(float64(a), float64(b)), "CompareFloat")
	case 8:
		a, b := sym.String("a", sym.Range("len", 0, 3)), sym.String("b", sym.Range("len", 0, 3))
		sym.Assert(thrift.CompareString(a, b) == lexical(a, b), "CompareString")
	case 9:
		mk := func() []string {
			var l []string
			for i := sym.Range("strings", 0, 2); i > 0; i-- {
				l = append(l, sym.String("s", sym.Range("len", 0, 1)))
			}
			return l
		}
		a, b, c := mk(), mk(), mk()
		ab := thrift.CompareStringArray(a, b)
		eq := len(a) == len(b)
		for i := 0; eq && i < len(a); i++ {
			eq = lexical(a[i], b[i]) == 0
		}
		sym.Assert((ab == 0) == eq, "CompareStringArray is 0 for different arrays, or not for equal ones")
		sym.Assert(thrift.CompareStringArray(b, a) == -ab, "CompareStringArray is not antisymmetric")
		if ab <= 0 && thrift.CompareStringArray(b, c) <= 0 {
			sym.Assert(thrift.CompareStringArray(a, c) <= 0, "CompareStringArray is not transitive")
		}
		if len(a) == len(b) && !eq {
			k := 0
			for lexical(a[k], b[k]) == 0 {
				k++
			}
			sym.Assert(ab == lexical(a[k], b[k]), "arrays are not ordered by their first difference")
		}
	}
	sym.Reach("end")
}

// laws checks that three values of one type are in a total order that is consistent with equality.
func laws(t thrift.TType, a, b, c interface{}) {
	aa, ok := t.Compare(a, a)
	sym.Assert(ok && aa == 0, "a value does not equal itself")
	ab, ok := t.Compare(a, b)
	sym.Assert(ok, "values of the type cannot be compared")
	sym.Assert((ab == 0) == equals(a, b), "0 for different values, or not for equal ones")
	ba, ok := t.Compare(b, a)
	sym.Assert(ok && sign(ba < 0, ba > 0) == -sign(ab < 0, ab > 0), "not antisymmetric")
	sym.Assert(t.Less(a, b) == (ab < 0), "Less differs from Compare")
	bc, _ := t.Compare(b, c)
	if ab <= 0 && bc <= 0 {
		ac, ok := t.Compare(a, c)
		sym.Assert(ok && ac <= 0, "not transitive")
		sym.Assert((ac == 0) == (ab == 0 && bc == 0), "not transitive")
	}
	na, ok := t.Compare(nil, a)
	sym.Assert(ok && na == -1, "nil is not the lowest")
	na, ok = t.Compare(a, nil)
	sym.Assert(ok && na == 1, "nil is not the lowest")
}

// aggregate makes a container of type t with at most n elements of type et.
func aggregate(t, et thrift.TType, n int) interface{} {
	n = sym.Range("size", 0, n)
	switch t {
	case thrift.LIST:
		l := thrift.NewTList(et, n)
		for i := 0; i < n; i++ {
			l.Push(anyOf(et, 0, 1))
		}
		return l
	case thrift.SET:
		l := thrift.NewTSet(et, n)
		for i := 0; i < n; i++ {
			l.Add(anyOf(et, 0, 1))
		}
		return l
	}
	m := thrift.NewTMap(et, thrift.BYTE, n)
	for i := 0; i < n; i++ {
		m.Set(anyOf(et, 0, 1), sym.Byte("value"))
	}
	return m
}

// C18_Containers: any three lists, sets or maps of base values.
func C18_Containers() {
	t := pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP})
	ets := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I32, thrift.STRING, thrift.BINARY}
	if sym.Thorough() {
		ets = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY}
	}
	et := pick("element type", ets)
	a, b, c := aggregate(t, et, 2), aggregate(t, et, 2), aggregate(t, et, 1)
	switch sym.Choose("order", 2) {
	case 0:
		laws(t, a, b, c)
	case 1:
		laws(t, c, a, b)
	}
	sym.Reach("end")
}

// C18_Mixed: containers of different element types.
func C18_Mixed() {
	t := pick("container", []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP})
	ets := []thrift.TType{thrift.BYTE, thrift.I32, thrift.BINARY}
	a := aggregate(t, pick("element type", ets), 1)
	b := aggregate(t, pick("element type", ets), 1)
	c := aggregate(t, pick("element type", ets), 1)
	laws(t, a, b, c)
	sym.Reach("end")
}

// C18_Nested: lists and maps of lists.
func C18_Nested() {
	t := pick("container", []thrift.TType{thrift.LIST, thrift.MAP, thrift.SET})
	mk := func() interface{} {
		n := sym.Range("outer", 0, 2)
		switch t {
		case thrift.LIST:
			l := thrift.NewTList(thrift.LIST, n)
			for i := 0; i < n; i++ {
				l.Push(aggregate(thrift.LIST, thrift.BYTE, 1))
			}
			return l
		case thrift.SET:
			l := thrift.NewTSet(thrift.SET, n)
			for i := 0; i < n; i++ {
				l.Add(aggregate(thrift.SET, thrift.BYTE, 1))
			}
			return l
		}
		m := thrift.NewTMap(thrift.BYTE, thrift.LIST, n)
		for i := 0; i < n; i++ {
			m.Set(sym.Byte("key"), aggregate(thrift.LIST, thrift.BYTE, 1))
		}
		return m
	}
	laws(t, mk(), mk(), mk())
	sym.Reach("end")
}

// aRecord makes a struct of at most n fields whose ids are distinct.
func aRecord(n int) *record {
	r := &record{values: map[int]interface{}{}}
	ids := []int{}
	for i := sym.Range("fields", 0, n); i > 0; i-- {
		id := int(sym.Int16("id"))
		for _, j := range ids {
			sym.Assume(id != j)
		}
		ids = append(ids, id)
		t := pick("type", []thrift.TType{thrift.BYTE, thrift.STRING})
		r.fields = append(r.fields, thrift.NewTField(sym.String("name", 1), t, id))
		if i == 1 || sym.Choose("unset", 2) == 0 {
			r.values[id] = anyOf(t, 1, 1)
		}
	}
	r.TStruct = thrift.NewTStruct(sym.String("struct", 1), r.fields)
	return r
}

// C18_Structs: any two structs; different names, fields in different order, unset fields.
func C18_Structs() {
	a, b := aRecord(2), aRecord(2)
	ab, ok := thrift.TType(thrift.STRUCT).Compare(a, b)
	sym.Assert(ok && (ab == 0) == equals(a, b), "0 for different structs, or not for equal ones")
	ba, ok := thrift.TType(thrift.STRUCT).Compare(b, a)
	sym.Assert(ok && sign(ba < 0, ba > 0) == -sign(ab < 0, ab > 0), "not antisymmetric")
	sym.Reach("end")
}

// C18_StructOrder: any three structs of few fields.
func C18_StructOrder() {
	n := sym.Bound(1, 2)
	laws(thrift.STRUCT, aRecord(2), aRecord(2), aRecord(n))
	sym.Reach("end")
}

// generated makes a generated struct, some of whose fields are set to any values.
func generated(which string) *simple.ContainerOfEnums {
	m := simple.NewContainerOfEnums()
	for _, i := range []int{1, 6, 9} {
		if sym.Choose(which+" set", 2) == 1 {
			v := sym.Int32(which)
			sym.Assume(v != 1<<31-1) // (what an unset field counts as)
			setMember(m, i, int64(v))
		}
	}
	return m
}

// C18_Generated: generated structs compare by their fields.
func C18_Generated() {
	a, b := generated("a"), generated("b")
	ab, ok := a.CompareTo(b)
	sym.Assert(ok, "generated structs do not compare")
	sym.Assert((ab == 0) == sameMessage(a, b), "0 for different structs, or not for equal ones")
	ba, ok := b.CompareTo(a)
	sym.Assert(ok && sign(ba < 0, ba > 0) == -sign(ab < 0, ab > 0), "not antisymmetric")
	sym.Reach("end")
}

// C18_GeneratedNested: generated structs within others.
func C18_GeneratedNested() {
	var m [3]*simple.EchoArgs
	for i := range m {
		m[i] = simple.NewEchoArgs()
		if sym.Choose("message", 2) == 1 {
			m[i].Message = simple.NewContainerOfEnums()
			m[i].Message.Third = simple.HeterogeneousValues(sym.Int16("value"))
		}
	}
	same := func(i, j int) bool {
		a, b := m[i].Message, m[j].Message
		return a == nil && b == nil || sameMessage(a, b)
	}
	ab, ok := m[0].CompareTo(m[1])
	sym.Assert(ok && (ab == 0) == same(0, 1), "0 for different structs, or not for equal ones")
	ba, ok := m[1].CompareTo(m[0])
	sym.Assert(ok && sign(ba < 0, ba > 0) == -sign(ab < 0, ab > 0), "not antisymmetric")
	bc, _ := m[1].CompareTo(m[2])
	if ab <= 0 && bc <= 0 {
		ac, ok := m[0].CompareTo(m[2])
		sym.Assert(ok && ac <= 0 && (ac == 0) == (ab == 0 && bc == 0), "not transitive")
	}
	nothing, ok := m[0].CompareTo(nil)
	sym.Assert(ok && nothing == 1, "nil is not the lowest")
	sym.Reach("end")
}

// C18_GeneratedEquals: Equals of generated structs.
func C18_GeneratedEquals() {
	a, b := simple.NewContainerOfEnums(), simple.NewContainerOfEnums()
	a.First, b.First = simple.UndefinedValues(sym.Int16("a")), simple.UndefinedValues(sym.Int16("b"))
	sym.Assert(a.Equals(a), "a generated struct does not equal itself")
	sym.Assert(a.Equals(b) == (a.First == b.First), "Equals of generated structs ignores their fields")
	sym.Reach("end")
}
