package harness

import (
	"simple"
	"sym"
	"thrift"
)

// sequence checks a list against the sequence of values it must be.
type sequence struct {
	l thrift.TList
	t thrift.TType
	s []interface{}
}

// check compares length, every element, iteration, order and containment.
func (q *sequence) check() {
	sym.Assert(q.l.ElemType() == q.t, "the element type changes")
	sym.Assert(q.l.Len() == len(q.s), "the length differs")
	for i, want := range q.s {
		got := q.l.At(i)
		sym.Assert(represents(q.t, got), "an element is not coerced to the element type")
		sym.Assert(equals(got, want), "an element differs")
	}
	i := 0
	for got := range q.l.Iter() {
		sym.Assert(i < len(q.s) && equals(got, q.s[i]), "iteration differs")
		i++
	}
	sym.Assert(i == len(q.s), "iteration ends early")
}

// refuses runs an access that is out of range.
func (q *sequence) refuses(f func()) {
	sym.Catch(f)
	q.check()
}

// index makes any index from one below to one above those of the list.
func (q *sequence) index(name string) int { return sym.Range(name, -1, len(q.s)+1) }

func (q *sequence) op() {
	n := len(q.s)
	switch sym.Choose("op", 6) {
	case 0:
		v, want := given(q.t)
		q.l.Push(v)
		q.s = append(q.s, want)
	case 1:
		i := q.index("at")
		v, want := given(q.t)
		if i < 0 || i > n {
			q.refuses(func() { q.l.Insert(i, v) })
			break
		}
		q.l.Insert(i, v)
		s := append([]interface{}{}, q.s[:i]...)
		s = append(s, want)
		q.s = append(s, q.s[i:]...)
	case 2:
		i := q.index("at")
		v, want := given(q.t)
		switch {
		case i < 0:
			q.refuses(func() { q.l.Set(i, v) })
		case i >= n:
			// past the end: appended or refused
			q.l.Set(i, v)
			sym.Assert(q.l.Len() == n || q.l.Len() == n+1, "the length differs")
			if q.l.Len() > n {
				q.s = append(q.s, want)
			}
		default:
			q.l.Set(i, v)
			q.s = append([]interface{}{}, q.s...)
			q.s[i] = want
		}
	case 3:
		i := q.index("at")
		if i < 0 || i >= n {
			q.refuses(func() { q.l.Delete(i) })
			break
		}
		q.l.Delete(i)
		s := append([]interface{}{}, q.s[:i]...)
		q.s = append(s, q.s[i+1:]...)
	case 4:
		i, j := q.index("at"), q.index("with")
		if i < 0 || i >= n || j < 0 || j >= n {
			q.refuses(func() { q.l.Swap(i, j) })
			break
		}
		q.l.Swap(i, j)
		q.s = append([]interface{}{}, q.s...)
		q.s[i], q.s[j] = q.s[j], q.s[i]
	case 5:
		if n == 0 {
			q.refuses(func() { q.l.Pop() })
			break
		}
		got := q.l.Pop()
		sym.Assert(equals(got, q.s[n-1]), "Pop returns another element than the last")
		q.s = q.s[:n-1]
	}
}

// C20_Ops: any operations on a list of base values.
func C20_Ops() {
	ts := []thrift.TType{thrift.BYTE, thrift.STRING, thrift.BINARY}
	if sym.Thorough() {
		ts = baseTypes
	}
	t := pick("type", ts)
	q := &sequence{l: thrift.NewTList(t, sym.Choose("hint", 2)), t: t}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		q.op()
		q.check()
	}
	sym.Reach("end")
}

// C20_History: longer histories of a list of bytes, with valid positions.
func C20_History() {
	q := &sequence{l: thrift.NewTList(thrift.BYTE, 0), t: thrift.BYTE}
	for i := 0; i < 3; i++ {
		q.l.Push(byte(i))
		q.s = append(q.s, byte(i))
	}
	for i := sym.Bound(4, 6); i > 0; i-- {
		n := len(q.s)
		switch v := sym.Byte("v"); sym.Choose("op", 4) {
		case 0:
			at := sym.Range("at", 0, n)
			q.l.Insert(at, v)
			s := append([]interface{}{}, q.s[:at]...)
			s = append(s, v)
			q.s = append(s, q.s[at:]...)
		case 1:
			if n > 0 {
				at := sym.Choose("at", n)
				q.l.Delete(at)
				s := append([]interface{}{}, q.s[:at]...)
				q.s = append(s, q.s[at+1:]...)
			}
		case 2:
			q.l.Push(v)
			q.s = append(append([]interface{}{}, q.s...), v)
		case 3:
			if n > 0 {
				sym.Assert(equals(q.l.Pop(), q.s[n-1]), "Pop returns another element than the last")
				q.s = q.s[:n-1]
			}
		}
	}
	q.check()
	sym.Reach("end")
}

// C20_Types: one operation on a list of two elements of any type.
func C20_Types() {
	t := pick("type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...))
	q := &sequence{l: thrift.NewTList(t, 0), t: t}
	for i := 0; i < 2; i++ {
		v := element(t)
		q.l.Push(v)
		q.s = append(q.s, v)
	}
	q.op()
	q.check()
	sym.Reach("end")
}

// C20_Contains: containment and order of the elements of a list of any type.
func C20_Contains() {
	t := pick("type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...))
	l := thrift.NewTList(t, 0)
	var s []interface{}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		v, want := given(t)
		l.Push(v)
		s = append(s, want)
	}
	v, x := given(t)
	found := false
	for _, y := range s {
		found = found || equals(x, y)
	}
	sym.Assert(l.Contains(v) == found, "Contains differs")
	for i := range s {
		for j := range s {
			c, _ := t.Compare(s[i], s[j])
			sym.Assert(l.Less(i, j) == (c < 0), "Less differs from the order of the elements")
		}
	}
	sym.Assert(!l.Contains(other{}) || t == thrift.STOP, "a list contains what it cannot hold")
	sym.Assert(l.Len() == len(s), "Contains changes the list")
	sym.Reach("end")
}

// C20_Refused: values that are none of the element type do not get into the list.
func C20_Refused() {
	t := pick("type", append([]thrift.TType{thrift.UTF8, thrift.UTF16}, allTypes...))
	q := &sequence{l: thrift.NewTList(t, 0), t: t}
	for i := sym.Range("size", 0, 2); i > 0; i-- {
		v := element(t)
		q.l.Push(v)
		q.s = append(q.s, v)
	}
	q.refuses(func() { q.l.Push(other{}) })
	q.refuses(func() { q.l.Insert(0, other{}) })
	q.refuses(func() { q.l.Set(sym.Choose("at", 3), other{}) })
	q.refuses(func() { q.l.At(-1) })
	sym.Assert(sym.Catch(func() { q.l.At(len(q.s)) }), "an element after the last is returned")
	q.check()
	sym.Reach("end")
}

// C20_Untyped: a list without an element type takes that of its first element.
func C20_Untyped() {
	t := pick("type", allTypes)
	l := thrift.NewTListDefault()
	if sym.Choose("new", 2) == 1 {
		l = thrift.NewTList([]thrift.TType{thrift.STOP, thrift.VOID}[sym.Choose("empty", 2)], 1)
	}
	q := &sequence{l: l, t: t}
	v := element(t)
	if sym.Choose("first", 2) == 0 {
		l.Push(v)
	} else {
		l.Insert(0, v)
	}
	q.s = []interface{}{v}
	q.check()
	q.op()
	q.check()
	sym.Reach("end")
}

// C20_Large: a list of many elements, of which some are arbitrary.
func C20_Large() {
	n := []int{17, 64, 300}[sym.Choose("size", 3)]
	q := &sequence{l: thrift.NewTList(thrift.I32, 0), t: thrift.I32}
	for i := 0; i < n; i++ {
		q.l.Push(i)
		q.s = append(q.s, int32(i))
	}
	i := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	x := sym.Int32("x")
	switch sym.Choose("op", 3) {
	case 0:
		q.l.Insert(i, x)
		s := append([]interface{}{}, q.s[:i]...)
		s = append(s, x)
		q.s = append(s, q.s[i:]...)
	case 1:
		q.l.Delete(i)
		s := append([]interface{}{}, q.s[:i]...)
		q.s = append(s, q.s[i+1:]...)
	case 2:
		q.l.Set(i, x)
		q.s[i] = x
	}
	q.check()
	sym.Reach("end")
}

// aMessage is a generated struct with any value in one field.
func aMessage(which string) *simple.ContainerOfEnums {
	m := simple.NewContainerOfEnums()
	m.Second = simple.DefinedValues(sym.Int16(which))
	return m
}

// C20_Generated: containment of generated structs.
func C20_Generated() {
	l := thrift.NewTList(thrift.STRUCT, 0)
	a, b, c := aMessage("a"), aMessage("b"), aMessage("c")
	l.Push(a)
	l.Push(b)
	sym.Assert(l.Len() == 2 && l.At(0) == interface{}(a) && l.At(1) == interface{}(b), "the elements differ")
	sym.Assert(l.Contains(c) == (sameMessage(a, c) || sameMessage(b, c)), "Contains differs from the elements")
	m := thrift.NewTList(thrift.STRUCT, 0)
	m.Push(c)
	m.Push(b)
	x, is := m.(interface{ Equals(interface{}) bool })
	sym.Assert(is && x.Equals(l) == sameMessage(a, c), "equal for different lists, or not for the same")
	sym.Reach("end")
}
