package harness

import (
	"sym"
	"thrift"
)

// associations checks a map against the associations it must have.
type associations struct {
	m      thrift.TMap
	kt, vt thrift.TType
	k, v   []interface{}
}

func (q *associations) find(k interface{}) int {
	for i, y := range q.k {
		if equals(k, y) {
			return i
		}
	}
	return -1
}

// key makes any key but NaN, and a value it may be given as.
func (q *associations) key() (v, want interface{}) {
	v, want = given(q.kt)
	if d, ok := want.(float64); ok {
		sym.Assume(d == d)
	}
	return v, want
}

func (q *associations) set() {
	k, wantk := q.key()
	v, wantv := given(q.vt)
	q.m.Set(k, v)
	if i := q.find(wantk); i >= 0 {
		q.v[i] = wantv
	} else {
		q.k, q.v = append(q.k, wantk), append(q.v, wantv)
	}
}

func (q *associations) ask() {
	k, want := q.key()
	v, ok := q.m.Get(k)
	i := q.find(want)
	sym.Assert(ok == (i >= 0), "Get is wrong about the presence of a key")
	if i >= 0 {
		sym.Assert(equals(v, q.v[i]), "Get returns another value than was set")
	} else {
		sym.Assert(v == nil, "Get returns a value for an absent key")
	}
	sym.Assert(q.m.Contains(k) == (i >= 0), "Contains is wrong about the presence of a key")
}

func (q *associations) check() {
	sym.Assert(q.m.KeyType() == q.kt && q.m.ValueType() == q.vt, "the types change")
	sym.Assert(q.m.Len() == len(q.k), "the length differs from the number of keys")
	keys, values := q.m.Keys(), q.m.Values()
	sym.Assert(len(keys) == len(q.k) && len(values) == len(q.k), "the number of keys or values differs")
	for i, k := range keys {
		sym.Assert(represents(q.kt, k), "a key is not coerced to the key type")
		j := q.find(k)
		sym.Assert(j >= 0, "there is a key that was not set")
		for _, y := range keys[:i] {
			sym.Assert(!equals(k, y), "a key is there twice")
		}
		v, ok := q.m.Get(k)
		sym.Assert(ok && equals(v, q.v[j]), "a key has another value than was set")
		sym.Assert(q.m.Contains(k), "a key is denied")
	}
	used := make([]bool, len(values))
	for _, v := range q.v {
		found := false
		for i, x := range values {
			if !found && !used[i] && equals(v, x) {
				found, used[i] = true, true
			}
		}
		sym.Assert(found, "a value is missing")
	}
	seen := map[int]bool{}
	for e := range q.m.Iter() {
		j := q.find(e.Key())
		sym.Assert(j >= 0 && !seen[j], "iteration delivers a key that was not set, or one twice")
		sym.Assert(represents(q.vt, e.Value()), "a value is not coerced to the value type")
		sym.Assert(equals(e.Value(), q.v[j]), "iteration delivers another value than was set")
		seen[j] = true
	}
	sym.Assert(len(seen) == len(q.k), "iteration misses a key")
	n := 0
	for k := range q.m.KeyIter() {
		sym.Assert(q.find(k) >= 0, "iteration delivers a key that was not set")
		n++
	}
	for range q.m.ValueIter() {
		n++
	}
	sym.Assert(n == 2*len(q.k), "iteration over keys or values differs in length")
}

func newMap(kt, vt thrift.TType) *associations {
	return &associations{m: thrift.NewTMap(kt, vt, sym.Choose("hint", 2)), kt: kt, vt: vt}
}

// C22_Ops: any operations on a map with base keys.
func C22_Ops() {
	q := newMap(pick("key type", baseTypes), thrift.I16)
	q.check()
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		q.set()
		if i == n-1 {
			q.check()
		}
	}
	q.ask()
	sym.Reach("end")
}

// C22_Keys: keys of any type, two associations.
func C22_Keys() {
	q := newMap(pick("key type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...)), thrift.BYTE)
	for i := 0; i < 2; i++ {
		k, want := q.key()
		v := sym.Byte("value")
		q.m.Set(k, v)
		if i := q.find(want); i >= 0 {
			q.v[i] = v
		} else {
			q.k, q.v = append(q.k, want), append(q.v, v)
		}
	}
	if sym.Choose("then", 2) == 0 {
		q.check()
	} else {
		q.ask()
	}
	sym.Reach("end")
}

// C22_History: longer histories of a map whose keys are not held in a Go map.
func C22_History() {
	q := newMap(pick("key type", []thrift.TType{thrift.BINARY, thrift.LIST}), thrift.I32)
	for i := sym.Bound(4, 5); i > 0; i-- {
		b := sym.Byte("key")
		var k interface{} = []byte{b}
		switch q.kt {
		case thrift.LIST:
			l := thrift.NewTList(thrift.BYTE, 1)
			l.Push(b)
			k = l
		}
		q.m.Set(k, int32(i))
		if j := q.find(k); j >= 0 {
			q.v[j] = int32(i)
		} else {
			q.k, q.v = append(q.k, k), append(q.v, int32(i))
		}
	}
	sym.Assert(q.m.Len() == len(q.k), "the length differs from the number of keys")
	for i, k := range q.k {
		v, ok := q.m.Get(k)
		sym.Assert(ok && equals(v, q.v[i]), "a key has another value than was set")
	}
	sym.Reach("end")
}

// C22_Values: values of any type.
func C22_Values() {
	q := newMap(pick("key type", []thrift.TType{thrift.I32, thrift.LIST}), pick("value type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...)))
	q.set()
	q.check()
	q.ask()
	sym.Reach("end")
}

// C22_Empty: a map to which nothing was added, or nothing that it can hold.
func C22_Empty() {
	types := append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...)
	q := newMap(pick("key type", types), thrift.BYTE)
	switch sym.Choose("refused", 3) {
	case 1:
		q.m.Set(other{}, byte(1))
	case 2:
		k, _ := q.key()
		q.m.Set(k, other{})
	}
	q.check()
	q.ask()
	sym.Assert(!q.m.Contains(other{}), "a map contains what it cannot hold")
	v, ok := q.m.Get(other{})
	sym.Assert(v == nil && !ok, "a map returns a value for what it cannot hold")
	sym.Reach("end")
}

// C22_Untyped: a map without types takes those of its first association.
func C22_Untyped() {
	m := thrift.NewTMapDefault()
	q := &associations{m: m, kt: pick("key type", allTypes), vt: pick("value type", []thrift.TType{thrift.BYTE, thrift.STRING, thrift.LIST})}
	sym.Assert(m.Len() == 0 && len(m.Keys()) == 0 && len(m.Values()) == 0, "a new map is not empty")
	k := element(q.kt)
	if d, ok := k.(float64); ok {
		sym.Assume(d == d)
	}
	_, ok := m.Get(k)
	sym.Assert(!ok && !m.Contains(k), "a new map contains something")
	v := element(q.vt)
	m.Set(k, v)
	q.k, q.v = []interface{}{k}, []interface{}{v}
	q.check()
	q.ask()
	sym.Reach("end")
}

// C22_Nil: nil is not a key of a map that has none.
func C22_Nil() {
	q := newMap(pick("key type", baseTypes), thrift.BYTE)
	q.set()
	v, ok := q.m.Get(nil)
	sym.Assert(v == nil && !ok && !q.m.Contains(nil), "a map has a key nil that was not set")
	q.check()
	sym.Reach("end")
}

// C22_Large: a map of many associations of which one is arbitrary.
func C22_Large() {
	kt := pick("key type", []thrift.TType{thrift.I32, thrift.BINARY})
	q := newMap(kt, thrift.I32)
	key := func(i int) interface{} {
		if kt == thrift.I32 {
			return int32(i)
		}
		return []byte{byte(i)}
	}
	for i := 0; i < 40; i++ {
		q.m.Set(key(7*i%41), i)
		q.k, q.v = append(q.k, key(7*i%41)), append(q.v, int32(i))
	}
	x := sym.Byte("x")
	q.m.Set(key(int(x)), 1000)
	if i := q.find(key(int(x))); i >= 0 {
		q.v[i] = int32(1000)
	} else {
		q.k, q.v = append(q.k, key(int(x))), append(q.v, int32(1000))
	}
	sym.Assert(q.m.Len() == len(q.k), "the length differs from the number of keys")
	for i, k := range q.k {
		v, ok := q.m.Get(k)
		sym.Assert(ok && equals(v, q.v[i]), "a key has another value than was set")
	}
	sym.Reach("end")
}

// C22_Generated: generated structs as keys.
func C22_Generated() {
	m := thrift.NewTMap(thrift.STRUCT, thrift.I32, 0)
	a, b, c := aMessage("a"), aMessage("b"), aMessage("c")
	m.Set(a, int32(1))
	m.Set(b, int32(2))
	n := 2
	if sameMessage(a, b) {
		n = 1
	}
	sym.Assert(m.Len() == n, "the length differs from the number of associations")
	v, is := m.Get(c)
	switch {
	case sameMessage(b, c):
		sym.Assert(is && v == interface{}(int32(2)), "another value than was set")
	case sameMessage(a, c):
		sym.Assert(is && v == interface{}(int32(1)), "another value than was set")
	default:
		sym.Assert(!is, "a value for a key that was not set")
	}
	sym.Assert(m.Contains(c) == is, "Contains differs from Get")
	sym.Reach("end")
}
