package harness

import (
	"sym"
	"thrift"
)

// alike checks that two containers compare equal (or not) in every way there is.
func alike(t thrift.TType, a, b interface{}, want bool) {
	for i := 0; i < 2; i++ {
		c, ok := t.Compare(a, b)
		sym.Assert(ok && (c == 0) == want, "Compare is wrong about equality")
		sym.Assert(a.(thrift.EqualsOtherInterface).Equals(b) == want, "Equals is wrong about equality")
		c, ok = a.(interface {
			CompareTo(interface{}) (int, bool)
		}).CompareTo(b)
		sym.Assert(ok && (c == 0) == want, "CompareTo is wrong about equality")
		a, b = b, a
	}
}

// permuted returns 0..n-1 in any order.
func permuted(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := sym.Choose("swap", i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var someTypes = []thrift.TType{thrift.BOOL, thrift.I32, thrift.STRING, thrift.BINARY}

// notNaN leaves out NaN, which is no key.
func notNaN(v interface{}) interface{} {
	if d, ok := v.(float64); ok {
		sym.Assume(d == d)
	}
	return v
}

// C23_Sets: the same elements added in two orders, to sets of different capacity.
func C23_Sets() {
	t := pick("type", someTypes)
	n := sym.Range("size", 0, sym.Bound(3, 4))
	var s []interface{}
	for i := 0; i < n; i++ {
		s = append(s, anyOf(t, 1, 1))
	}
	a, b := thrift.NewTSet(t, 0), thrift.NewTSet(t, 7)
	for _, x := range s {
		a.Add(x)
	}
	for _, i := range permuted(n) {
		b.Add(s[i])
	}
	alike(thrift.SET, a, b, true)
	sym.Reach("end")
}

// C23_SetsDiffer: sets of arbitrary elements are equal exactly if each has the other's elements.
func C23_SetsDiffer() {
	t := pick("type", []thrift.TType{thrift.BYTE, thrift.STRING, thrift.DOUBLE})
	a, b := thrift.NewTSet(t, 0), thrift.NewTSet(t, 0)
	var s, r []interface{}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		x := anyOf(t, 1, 1)
		a.Add(x)
		s = append(s, x)
	}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		x := anyOf(t, 1, 1)
		b.Add(x)
		r = append(r, x)
	}
	alike(thrift.SET, a, b, within(s, r) && within(r, s))
	sym.Reach("end")
}

// C23_SetsRemoved: elements removed again leave no trace.
func C23_SetsRemoved() {
	t := pick("type", someTypes)
	a, b := thrift.NewTSet(t, 0), thrift.NewTSet(t, 0)
	x, y, z := anyOf(t, 1, 1), anyOf(t, 1, 1), anyOf(t, 1, 1)
	sym.Assume(!equals(x, z) && !equals(y, z))
	a.Add(x)
	a.Add(y)
	b.Add(y)
	b.Add(z)
	b.Add(x)
	alike(thrift.SET, a, b, false)
	b.Remove(z)
	alike(thrift.SET, a, b, true)
	sym.Reach("end")
}

// C23_Maps: the same associations set in two orders, in whatever order the runtime iterates them.
func C23_Maps() {
	kt := pick("key type", []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.STRING, thrift.BINARY})
	n := sym.Range("size", 0, sym.Bound(2, 3))
	var k, v []interface{}
	for i := 0; i < n; i++ {
		k = append(k, notNaN(anyOf(kt, 1, 1)))
		v = append(v, sym.Byte("value"))
		for j := 0; j < i; j++ {
			sym.Assume(!equals(k[j], k[i]))
		}
	}
	a, b := thrift.NewTMap(kt, thrift.BYTE, 0), thrift.NewTMap(kt, thrift.BYTE, 7)
	for i := range k {
		a.Set(k[i], v[i])
	}
	for _, i := range permuted(n) {
		if sym.Choose("overwritten", 2) == 1 {
			b.Set(k[i], byte(0))
		}
		b.Set(k[i], v[i])
	}
	sym.MapOrder(true)
	c, ok := thrift.TType(thrift.MAP).Compare(a, b)
	sym.Assert(ok && c == 0, "maps of the same associations differ")
	sym.Assert(a.Equals(b), "maps of the same associations differ")
	sym.Reach("end")
}

// C23_MapsDiffer: maps of arbitrary associations are equal exactly if they have the same ones.
func C23_MapsDiffer() {
	kt := pick("key type", []thrift.TType{thrift.BYTE, thrift.DOUBLE, thrift.STRING, thrift.BINARY})
	build := func() thrift.TMap {
		m := thrift.NewTMap(kt, thrift.STRING, 0)
		for i := sym.Range("size", 0, 2); i > 0; i-- {
			m.Set(notNaN(anyOf(kt, 1, 1)), sym.String("value", 1))
		}
		return m
	}
	a, b := build(), build()
	want := equals(a, b)
	sym.MapOrder(true)
	c, ok := thrift.TType(thrift.MAP).Compare(a, b)
	sym.Assert(ok && (c == 0) == want, "Compare is wrong about equality")
	sym.Assert(b.Equals(a) == want, "Equals is wrong about equality")
	sym.Reach("end")
}

// C23_MapKeys: three integer keys and the runtime's six orders, twice.
func C23_MapKeys() {
	kt := pick("key type", []thrift.TType{thrift.I16, thrift.STRING})
	a, b := thrift.NewTMap(kt, thrift.BYTE, 0), thrift.NewTMap(kt, thrift.BYTE, 0)
	differ := sym.Choose("differ", 2) == 1
	for i := 0; i < 3; i++ {
		k := anyOf(kt, 1, 1)
		sym.Assume(!a.Contains(k))
		v := sym.Byte("value")
		a.Set(k, v)
		if differ && i == 1 {
			v++
		}
		b.Set(k, v)
	}
	sym.MapOrder(true)
	c, ok := thrift.TType(thrift.MAP).Compare(a, b)
	sym.Assert(ok && (c == 0) == !differ, "Compare is wrong about equality")
	sym.Reach("end")
}

// C23_Nested: sets of sets, sets of maps, maps of sets and maps with sets for keys, built in two orders.
func C23_Nested() {
	set := func(x, y byte, swap bool) thrift.TSet {
		s := thrift.NewTSet(thrift.BYTE, 2)
		if swap {
			x, y = y, x
		}
		s.Add(x)
		s.Add(y)
		return s
	}
	mp := func(x, y byte, swap bool) thrift.TMap {
		m := thrift.NewTMap(thrift.BYTE, thrift.BYTE, 2)
		sym.Assume(x != y)
		if swap {
			m.Set(y, byte(2))
		}
		m.Set(x, byte(1))
		if !swap {
			m.Set(y, byte(2))
		}
		return m
	}
	x, y, z := sym.Byte("x"), sym.Byte("y"), sym.Byte("z")
	t := thrift.TType(thrift.SET)
	var a, b, c interface{}
	switch sym.Choose("kind", 5) {
	case 0:
		s, r, q := thrift.NewTSet(thrift.SET, 0), thrift.NewTSet(thrift.SET, 0), thrift.NewTSet(thrift.SET, 0)
		s.Add(set(x, y, false))
		s.Add(set(z, 1, false))
		r.Add(set(z, 1, true))
		r.Add(set(x, y, true))
		q.Add(set(x, y, false))
		a, b, c = s, r, q
		sym.Assume(!equals(set(x, y, false), set(z, 1, false)))
	case 1:
		s, r, q := thrift.NewTSet(thrift.MAP, 0), thrift.NewTSet(thrift.MAP, 0), thrift.NewTSet(thrift.MAP, 0)
		s.Add(mp(x, y, false))
		s.Add(mp(z, 1, false))
		r.Add(mp(z, 1, true))
		r.Add(mp(x, y, true))
		q.Add(mp(x, y, false))
		a, b, c = s, r, q
		sym.Assume(x != z || y != 1)
	case 2:
		t = thrift.MAP
		s, r, q := thrift.NewTMap(thrift.BYTE, thrift.SET, 0), thrift.NewTMap(thrift.BYTE, thrift.SET, 0), thrift.NewTMap(thrift.BYTE, thrift.SET, 0)
		s.Set(byte(1), set(x, y, false))
		s.Set(byte(2), set(z, 1, false))
		r.Set(byte(2), set(z, 1, true))
		r.Set(byte(1), set(x, y, true))
		q.Set(byte(2), set(z, 1, false))
		q.Set(byte(1), set(x, y+1, false))
		a, b, c = s, r, q
		sym.Assume(x != y && x != y+1)
	case 3:
		t = thrift.MAP
		s, r, q := thrift.NewTMap(thrift.SET, thrift.BYTE, 0), thrift.NewTMap(thrift.SET, thrift.BYTE, 0), thrift.NewTMap(thrift.SET, thrift.BYTE, 0)
		sym.Assume(!equals(set(x, y, false), set(z, 1, false)))
		s.Set(set(x, y, false), byte(1))
		s.Set(set(z, 1, false), byte(2))
		r.Set(set(z, 1, true), byte(2))
		r.Set(set(x, y, true), byte(1))
		q.Set(set(x, y, false), byte(2))
		q.Set(set(z, 1, false), byte(1))
		a, b, c = s, r, q
	case 4:
		t = thrift.LIST
		s, r, q := thrift.NewTList(thrift.SET, 0), thrift.NewTList(thrift.SET, 0), thrift.NewTList(thrift.SET, 0)
		sym.Assume(!equals(set(x, y, false), set(z, 1, false)))
		s.Push(set(x, y, false))
		s.Push(set(z, 1, false))
		r.Push(set(x, y, true))
		r.Push(set(z, 1, true))
		q.Push(set(z, 1, false))
		q.Push(set(x, y, false))
		a, b, c = s, r, q
	}
	alike(t, a, b, true)
	alike(t, a, c, false)
	sym.Reach("end")
}

// C23_Lists: lists are equal element by element.
func C23_Lists() {
	t := pick("type", allTypes)
	a, b := thrift.NewTList(t, 0), thrift.NewTList(t, 5)
	var s, r []interface{}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		x := element(t)
		a.Push(x)
		s = append(s, x)
	}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		x := element(t)
		b.Push(x)
		r = append(r, x)
	}
	want := len(s) == len(r)
	for i := 0; want && i < len(s); i++ {
		want = equals(s[i], r[i])
	}
	alike(thrift.LIST, a, b, want)
	sym.Reach("end")
}

// C23_Kinds: containers of different kinds or types of elements are not equal.
func C23_Kinds() {
	l, s, m := thrift.NewTList(thrift.BYTE, 0), thrift.NewTSet(thrift.BYTE, 0), thrift.NewTMap(thrift.BYTE, thrift.BYTE, 0)
	x := sym.Byte("x")
	l.Push(x)
	s.Add(x)
	m.Set(x, x)
	sym.Assert(!l.Equals(s) && !s.Equals(l) && !m.Equals(l) && !l.Equals(m) && !s.Equals(m) && !m.Equals(s), "containers of different kinds are equal")
	sym.Assert(!l.Equals(nil) && !s.Equals(nil) && !m.Equals(nil), "a container equals nil")
	l2, s2 := thrift.NewTList(thrift.I16, 0), thrift.NewTSet(thrift.I16, 0)
	m2, m3 := thrift.NewTMap(thrift.I16, thrift.BYTE, 0), thrift.NewTMap(thrift.BYTE, thrift.I16, 0)
	l2.Push(x)
	s2.Add(x)
	m2.Set(x, x)
	m3.Set(x, x)
	alike(thrift.LIST, l, l2, false)
	alike(thrift.SET, s, s2, false)
	alike(thrift.MAP, m, m2, false)
	alike(thrift.MAP, m, m3, false)
	sym.Reach("end")
}
