package harness

import (
	"sym"
	"thrift"
)

// someFields makes fields with distinct ids and distinct names, in any order; an empty name names nothing.
func someFields(n int, names bool) []thrift.TField {
	var fs []thrift.TField
	for i := sym.Range("fields", 0, n); i > 0; i-- {
		id := int(sym.Int16("id"))
		name := ""
		if names {
			name = sym.String("name", sym.Range("len", 0, 1))
		}
		for _, f := range fs {
			sym.Assume(f.Id() != id && (f.Name() == "" || f.Name() != name))
		}
		fs = append(fs, thrift.NewTField(name, thrift.TType(sym.Byte("type")), id))
	}
	return fs
}

func anonymous(f thrift.TField) bool {
	return f != nil && f.TypeId() == thrift.STOP && f.Name() == "" && f == thrift.ANONYMOUS_FIELD
}

// exact tells whether two fields are the same.
func exact(a, b thrift.TField) bool {
	return a.Id() == b.Id() && a.TypeId() == b.TypeId() && a.Name() == b.Name()
}

// fieldLookups checks every lookup of a container of fs.
func fieldLookups(c thrift.TFieldContainer, fs []thrift.TField) {
	id := int(sym.Int32("asked id"))
	name := sym.String("asked name", sym.Range("len", 0, 2))
	var byId, byName thrift.TField
	for _, f := range fs {
		if f.Id() == id {
			byId = f
		}
		if f.Name() == name && name != "" {
			byName = f
		}
	}
	g := c.FieldFromFieldId(id)
	if byId != nil {
		sym.Assert(exact(g, byId), "the field of an id is another")
		sym.Assert(c.FieldNameFromFieldId(id) == byId.Name(), "the name of an id is another")
		if byId.Name() != "" {
			sym.Assert(c.FieldIdFromFieldName(byId.Name()) == id, "names and ids are not inverse")
		}
	} else {
		sym.Assert(anonymous(g), "there is a field for an unknown id")
		sym.Assert(c.FieldNameFromFieldId(id) == "", "there is a name for an unknown id")
	}
	sym.Assert(c.Contains(id) == (byId != nil), "Contains is wrong about an id")
	if id == int(int16(id)) {
		sym.Assert(c.Contains(int16(id)) == (byId != nil), "Contains is wrong about an id")
	}
	g = c.FieldFromFieldName(name)
	if byName != nil {
		sym.Assert(exact(g, byName), "the field of a name is another")
		sym.Assert(c.FieldIdFromFieldName(name) == byName.Id(), "the id of a name is another")
		sym.Assert(c.FieldNameFromFieldId(byName.Id()) == name, "names and ids are not inverse")
	} else {
		sym.Assert(anonymous(g), "there is a field for an unknown name")
		sym.Assert(c.FieldIdFromFieldName(name) == -1, "there is an id for an unknown name")
	}
	if name != "" {
		sym.Assert(c.Contains(name) == (byName != nil), "Contains is wrong about a name")
	}
}

// cover checks that iteration and length cover every field once.
func cover(c thrift.TFieldContainer, fs []thrift.TField) {
	sym.Assert(c.Len() == len(fs), "the length differs from the number of fields")
	seen := make([]bool, len(fs))
	n := 0
	for g := range c.Iter() {
		found := false
		for i, f := range fs {
			if !found && !seen[i] && exact(f, g) {
				found, seen[i] = true, true
			}
		}
		sym.Assert(found, "iteration delivers a field that is not there, or one twice")
		n++
	}
	sym.Assert(n == len(fs), "iteration misses a field")
	i := 0
	for g := range c.Iter() {
		sym.Assert(exact(c.At(i), g), "the fields at the positions differ from iteration")
		sym.Assert(i == 0 || c.At(i-1).Id() < g.Id(), "the fields are not in the order of their ids")
		i++
	}
	for _, f := range fs {
		sym.Assert(c.Contains(f), "Contains misses a field")
	}
}

// C24_Lookup: any fields, asked for any id and any name.
func C24_Lookup() {
	fs := someFields(sym.Bound(3, 4), true)
	var c thrift.TFieldContainer
	if sym.Choose("kind", 2) == 0 {
		c = thrift.NewTFieldContainer(fs)
	} else {
		c = thrift.NewTStruct("S", fs)
	}
	cover(c, fs)
	fieldLookups(c, fs)
	sym.Reach("end")
}

// C24_Order: three fields in any order of their ids.
func C24_Order() {
	fs := someFields(3, false)
	c := thrift.NewTFieldContainer(fs)
	cover(c, fs)
	fieldLookups(c, fs)
	sym.Reach("end")
}

// C24_Own: a container does not change with the slice it was made from.
func C24_Own() {
	fs := someFields(2, true)
	sym.Assume(len(fs) > 0)
	c := thrift.NewTFieldContainer(fs)
	was := append([]thrift.TField(nil), fs...)
	fs[sym.Choose("changed", len(fs))] = thrift.NewTField("new", thrift.I32, 40000)
	cover(c, was)
	fieldLookups(c, was)
	sym.Reach("end")
}

// C24_Equal: containers are equal exactly if they have the same fields, in whatever order they were given.
// (Fields that differ only in their name may be equal or not.)
func C24_Equal() {
	a := someFields(2, true)
	b := someFields(2, true)
	ca, cb := thrift.NewTFieldContainer(a), thrift.NewTFieldContainer(b)
	same := sameFields(a, b)
	alike := len(a) == len(b)
	for _, f := range a {
		found := false
		for _, g := range b {
			if f.Id() == g.Id() && f.TypeId() == g.TypeId() {
				found = true
			}
		}
		alike = alike && found
	}
	eq := ca.Equals(cb)
	if same {
		sym.Assert(eq, "containers of equal fields differ")
	}
	if !alike {
		sym.Assert(!eq, "containers of different fields are equal")
	}
	sym.Assert(cb.Equals(ca) == eq, "equality is not symmetric")
	cmp, ok := ca.CompareTo(cb)
	sym.Assert(ok && (cmp == 0) == same, "CompareTo is wrong about equality")
	back, ok := cb.CompareTo(ca)
	sym.Assert(ok && sign(back < 0, back > 0) == -sign(cmp < 0, cmp > 0), "CompareTo is not antisymmetric")
	sym.Assert(!ca.Equals(nil), "a container equals nil")
	sym.Reach("end")
}

// C24_Permuted: the same three fields in another order make an equal container.
func C24_Permuted() {
	fs := someFields(3, false)
	var r []thrift.TField
	for _, i := range permuted(len(fs)) {
		r = append(r, thrift.NewTField(fs[i].Name(), fs[i].TypeId(), fs[i].Id()))
	}
	a, b := thrift.NewTFieldContainer(fs), thrift.NewTFieldContainer(r)
	sym.Assert(a.Equals(b) && b.Equals(a), "containers of equal fields differ")
	c, ok := a.CompareTo(b)
	sym.Assert(ok && c == 0, "containers of equal fields differ")
	cover(b, fs)
	sym.Reach("end")
}

// C24_Field: a field is what it was made of; comparison of fields is by id first.
func C24_Field() {
	mk := func() (thrift.TField, string, thrift.TType, int) {
		n, t, i := sym.String("name", sym.Range("len", 0, 2)), thrift.TType(sym.Byte("type")), sym.Int("id")
		return thrift.NewTField(n, t, i), n, t, i
	}
	f, n, t, i := mk()
	g, n2, t2, i2 := mk()
	sym.Assert(f.Name() == n && f.TypeId() == t && f.Id() == i, "a field is not what it was made of")
	c, ok := f.CompareTo(g)
	sym.Assert(ok && (c == 0) == (n == n2 && t == t2 && i == i2), "CompareTo is wrong about equality")
	if i != i2 {
		sym.Assert(c == sign(i < i2, i > i2), "fields are not ordered by id")
	}
	d, _ := g.CompareTo(f)
	sym.Assert(d == -c, "CompareTo is not antisymmetric")
	if i != i2 || t != t2 {
		sym.Assert(!f.Equals(g), "different fields are equal")
	} else if n == n2 {
		sym.Assert(f.Equals(g), "equal fields differ")
	}
	sym.Assert(!f.Equals(nil), "a field equals nil")
	sym.Reach("end")
}

// C24_Large: a container of many fields.
func C24_Large() {
	var fs []thrift.TField
	for i := 0; i < 40; i++ {
		fs = append(fs, thrift.NewTField("f"+string(rune('A'+7*i%41)), thrift.I32, 7*i%41))
	}
	c := thrift.NewTFieldContainer(fs)
	fieldLookups(c, fs)
	cover(c, fs)
	sym.Reach("end")
}

// C24_Empty: containers without fields, and the names of structs.
func C24_Empty() {
	name := sym.String("struct", 1)
	s := thrift.NewTStructEmpty(name)
	switch sym.Choose("kind", 3) {
	case 0:
		fieldLookups(thrift.NewTFieldContainer(nil), nil)
	case 1:
		fieldLookups(s, nil)
		cover(s, nil)
	case 2:
		cover(thrift.NewTFieldContainer([]thrift.TField{}), nil)
		cover(thrift.ANONYMOUS_STRUCT, nil)
	}
	sym.Assert(s.TStructName() == name && s.ThriftName() == name, "a struct has another name")
	sym.Reach("end")
}
