package harness

import (
	"sym"
	"thrift"
)

// elements checks a set against the distinct values it must have.
type elements struct {
	l thrift.TSet
	t thrift.TType
	s []interface{}
}

func (q *elements) has(x interface{}) bool {
	for _, y := range q.s {
		if equals(x, y) {
			return true
		}
	}
	return false
}

func (q *elements) check() {
	sym.Assert(q.l.ElemType() == q.t, "the element type changes")
	sym.Assert(q.l.Len() == len(q.s), "the length differs from the number of distinct values")
	v := q.l.Values()
	sym.Assert(len(v) == len(q.s), "the number of values differs")
	for i, x := range v {
		sym.Assert(represents(q.t, x), "an element is not coerced to the element type")
		sym.Assert(q.has(x), "there is a value that was not added")
		for _, y := range v[:i] {
			sym.Assert(!equals(x, y), "a value is there twice")
		}
	}
	n := 0
	for e := q.l.Front(); e != nil; e = e.Next() {
		sym.Assert(n < len(v) && equals(e.Value, v[n]), "iteration differs from the values")
		n++
	}
	sym.Assert(n == len(v), "iteration ends early")
	if n > 0 {
		sym.Assert(equals(q.l.Back().Value, v[n-1]), "the last element differs from the last value")
	} else {
		sym.Assert(q.l.Back() == nil, "an empty set has a last element")
	}
}

func (q *elements) add() {
	v, want := given(q.t)
	q.l.Add(v)
	if !q.has(want) {
		q.s = append(q.s, want)
	}
}

func (q *elements) remove() {
	v, want := given(q.t)
	q.l.Remove(v)
	var s []interface{}
	for _, y := range q.s {
		if !equals(want, y) {
			s = append(s, y)
		}
	}
	q.s = s
}

// C21_Ops: any operations on a set of base values.
func C21_Ops() {
	ts := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I32, thrift.STRING, thrift.BINARY}
	if sym.Thorough() {
		ts = baseTypes
	}
	t := pick("type", ts)
	q := &elements{l: thrift.NewTSet(t, sym.Choose("hint", 2)), t: t}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		if sym.Choose("op", 2) == 0 {
			q.add()
		} else {
			q.remove()
		}
		q.check()
	}
	v, want := given(t)
	sym.Assert(q.l.Contains(v) == q.has(want), "Contains differs")
	q.check()
	sym.Reach("end")
}

// C21_History: longer histories of additions and removals, of bytes and of lists.
func C21_History() {
	t := pick("type", []thrift.TType{thrift.BYTE, thrift.LIST})
	q := &elements{l: thrift.NewTSet(t, 0), t: t}
	for i := sym.Bound(5, 6); i > 0; i-- {
		b := sym.Byte("v")
		var v interface{} = b
		if t == thrift.LIST {
			l := thrift.NewTList(thrift.BYTE, 1)
			l.Push(b)
			v = l
		}
		if i > 2 || sym.Choose("op", 2) == 0 {
			q.l.Add(v)
			if !q.has(v) {
				q.s = append(q.s, v)
			}
			continue
		}
		q.l.Remove(v)
		var s []interface{}
		for _, y := range q.s {
			if !equals(v, y) {
				s = append(s, y)
			}
		}
		q.s = s
	}
	sym.Assert(q.l.Len() == len(q.s), "the length differs from the number of distinct values")
	for _, x := range q.s {
		sym.Assert(q.l.Contains(x), "a value is missing")
	}
	sym.Reach("end")
}

// C21_Types: sets of any type: two additions, a removal, a question.
func C21_Types() {
	t := pick("type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...))
	q := &elements{l: thrift.NewTSet(t, 2), t: t}
	n := sym.Range("size", 0, 2)
	for i := 0; i < n; i++ {
		q.add()
	}
	q.check()
	if sym.Choose("remove", 2) == 1 {
		q.remove()
		q.check()
	} else {
		v, want := given(t)
		sym.Assert(q.l.Contains(v) == q.has(want), "Contains differs")
	}
	q.l.Add(other{})
	q.l.Remove(other{})
	sym.Assert(!q.l.Contains(other{}), "a set contains what it cannot hold")
	q.check()
	sym.Reach("end")
}

// C21_Order: three and four elements added in any order.
func C21_Order() {
	q := &elements{l: thrift.NewTSet(thrift.I16, 0), t: thrift.I16}
	for i := sym.Range("size", 3, sym.Bound(4, 5)); i > 0; i-- {
		v := sym.Int16("i16")
		q.l.Add(v)
		if !q.has(v) {
			q.s = append(q.s, v)
		}
	}
	q.check()
	v := sym.Int16("i16")
	sym.Assert(q.l.Contains(v) == q.has(v), "Contains differs")
	sym.Reach("end")
}

// C21_Untyped: a set without an element type takes that of its first element.
func C21_Untyped() {
	t := pick("type", allTypes)
	l := thrift.NewTSetDefault()
	if sym.Choose("new", 2) == 1 {
		l = thrift.NewTSet([]thrift.TType{thrift.STOP, thrift.VOID}[sym.Choose("empty", 2)], 1)
	}
	q := &elements{l: l, t: t}
	sym.Assert(l.Len() == 0 && len(l.Values()) == 0, "a new set is not empty")
	v := element(t)
	sym.Assert(!l.Contains(v), "a new set contains something")
	l.Add(v)
	q.s = []interface{}{v}
	q.check()
	q.add()
	q.check()
	sym.Reach("end")
}

// C21_Large: a set of many elements added in different orders, and one arbitrary.
func C21_Large() {
	n := []int{17, 50}[sym.Choose("size", 2)]
	q := &elements{l: thrift.NewTSet(thrift.I32, 0), t: thrift.I32}
	order := sym.Choose("order", 3)
	for i := 0; i < n; i++ {
		x := []int{i, n - i, 7 * i % 101}[order]
		q.l.Add(x)
		q.s = append(q.s, int32(x))
	}
	x := sym.Int32("x")
	if sym.Choose("op", 2) == 0 {
		q.l.Add(x)
		if !q.has(x) {
			q.s = append(q.s, x)
		}
	} else {
		q.l.Remove(x)
		var s []interface{}
		for _, y := range q.s {
			if y.(int32) != x {
				s = append(s, y)
			}
		}
		q.s = s
	}
	sym.Assert(q.l.Len() == len(q.s), "the length differs from the number of distinct values")
	for _, y := range q.s {
		sym.Assert(q.l.Contains(y), "an element is lost")
	}
	sym.Reach("end")
}

// C21_Generated: sets of generated structs.
func C21_Generated() {
	s := thrift.NewTSet(thrift.STRUCT, 0)
	a, b, c := aMessage("a"), aMessage("b"), aMessage("c")
	s.Add(a)
	s.Add(b)
	n := 2
	if sameMessage(a, b) {
		n = 1
	}
	sym.Assert(s.Len() == n, "the length differs from the number of distinct values")
	has := sameMessage(a, c) || sameMessage(b, c)
	sym.Assert(s.Contains(c) == has, "Contains differs from the values")
	s.Remove(c)
	if has {
		n--
	}
	sym.Assert(s.Len() == n && !s.Contains(c), "Remove removes another value, or none")
	sym.Assert(s.Contains(a) == !sameMessage(a, c) && s.Contains(b) == !sameMessage(b, c), "Remove removes another value")
	sym.Reach("end")
}
