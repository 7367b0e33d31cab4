//go:build generated

package harness

import (
	"sym"
	"thrift"
	"together/including"
	"together/shared"
)

// pointShape and refusedShape are a struct and an exception of the included program.
var pointShape, refusedShape = &shape{t: thrift.STRUCT, k: i32}, &shape{t: thrift.STRUCT, k: str}

func isPoint(v *val) bool   { return len(v.names) == 2 && v.names[0] == "x" }
func isRefused(v *val) bool { return len(v.names) == 2 && v.names[0] == "why" }

func pointSlots(p *shared.Point) []slot {
	return []slot{intSlot(1, "x", &p.X), intSlot(2, "y", &p.Y)}
}

func refusedSlots(r *shared.Refused) []slot {
	return []slot{textSlot(1, "why", &r.Why), intSlot(2, "code", &r.Code)}
}

func aPoint(x, y *val) *val {
	v := &val{t: thrift.STRUCT}
	v.field(1, "x", x)
	v.field(2, "y", y)
	return v
}

func anyRefused(g *gen) *val {
	v := &val{t: thrift.STRUCT}
	v.field(1, "why", g.of(thrift.STRING, 0))
	v.field(2, "code", g.of(thrift.I32, 0))
	return v
}

// included is the Go representation of v, a struct of the included program.
func included(v *val) interface{} {
	if isPoint(v) {
		p := shared.NewPoint()
		fill(pointSlots(p), v)
		return p
	}
	r := shared.NewRefused()
	fill(refusedSlots(r), v)
	return r
}

func isIncluded(x interface{}, v *val) bool {
	if isPoint(v) {
		p, k := x.(*shared.Point)
		return k && p != nil && holds(pointSlots(p), v)
	}
	r, k := x.(*shared.Refused)
	return k && r != nil && holds(refusedSlots(r), v)
}

func pointSlot(id int16, name string, p **shared.Point) slot {
	return slot{id, name, thrift.STRUCT, false, nil, func(x interface{}) { *p = x.(*shared.Point) }, func() interface{} {
		if *p == nil {
			return nil
		}
		return *p
	}}
}

func graded(l int64) interface{} {
	if l == unset {
		return nil
	}
	return int32(l)
}

func line() (thing, []slot) {
	b := including.NewLine()
	end := pointSlot(2, "end", &b.End)
	end.opt, end.def = true, aPoint(&val{t: thrift.I32, i: 3}, &val{t: thrift.I32, i: 4})
	row := listSlot(6, "row", (*thrift.TList)(nil))
	row.put = func(x interface{}) { b.Row = shared.Row(x.(thrift.TList)) }
	row.get = func() interface{} {
		if b.Row == nil {
			return nil
		}
		return thrift.TList(b.Row)
	}
	return b, []slot{
		pointSlot(1, "start", &b.Start),
		end,
		{3, "level", thrift.I32, false, &val{t: thrift.I32, i: 6}, func(x interface{}) { b.Level = shared.Level(x.(int32)) }, func() interface{} { return graded(int64(b.Level)) }},
		{4, "count", thrift.I64, true, &val{t: thrift.I64, l: 9}, func(x interface{}) { b.Count = shared.Count(x.(int64)) }, func() interface{} { return int64(b.Count) }},
		{5, "grade", thrift.I32, false, nil, func(x interface{}) { b.Grade = shared.Grade(x.(int32)) }, func() interface{} { return graded(int64(b.Grade)) }},
		row,
		listSlot(7, "points", &b.Points),
		mapSlot(8, "byLevel", &b.ByLevel),
		setSlot(9, "levels", &b.Levels),
		pointSlot(10, "spot", &b.Spot),
		{11, "some", thrift.I32, true, nil, func(x interface{}) { b.Some = shared.Level(x.(int32)) }, func() interface{} { return graded(int64(b.Some)) }},
		{12, "refused", thrift.STRUCT, false, nil, func(x interface{}) { b.Refused = x.(*shared.Refused) }, func() interface{} {
			if b.Refused == nil {
				return nil
			}
			return b.Refused
		}},
	}
}

var lineShapes = []*shape{pointShape, pointShape, i32, i64, i32, listOf(i32), listOf(pointShape), mapOf(i32, pointShape), setOf(i32), pointShape, i32, refusedShape}

// C31_Included: a struct whose fields have the types of an included program (structs, enums, typedefs, exceptions, and
// containers of them), one of them with any value.
func C31_Included() {
	k := anyProtocol()
	i := sym.Choose("field", len(lineShapes))
	_, s := line()
	g := leaves(k)
	g.lens = []int{1}
	v := &val{t: thrift.STRUCT}
	n := 2
	if k == kJSON || k == kSimple {
		n = sym.Bound(1, 2)
	}
	c := g.shaped(lineShapes[i], n)
	v.field(s[i].id, s[i].name, c)
	a, s := line()
	sym.Assert(holds(s, &val{t: thrift.STRUCT}), "a new struct has other values than declared")
	r, u := a, s
	if sym.Choose("direction", 2) == 0 {
		fill(s, v)
		buf := thrift.NewTMemoryBuffer()
		p, q := mk(k, buf), mk(k, buf)
		ok(a.Write(p), "Write fails")
		ok(p.Flush(), "Flush fails")
		r, u = line()
		ok(r.Read(q), "Read fails")
	} else {
		fromTheWire(k, a, v)
	}
	sym.Assert(holds(u, v), "a field is read as another value, or a default is lost")
	e, same := a.CompareTo(r)
	sym.Assert(same && e == 0, "what is read differs from what was written")
	sym.Reach("end")
}

// C31_Point: a struct of the included program itself.
func C31_Point() {
	k := anyProtocol()
	g := leaves(k)
	through(k, func() (thing, []slot) {
		p := shared.NewPoint()
		return p, pointSlots(p)
	}, aPoint(g.of(thrift.I32, 0), g.of(thrift.I32, 0)))
	sym.Reach("end")
}

// C33_Included: constants and defaults of types of an included program, and enums of one.
func C33_Included() {
	level := func(n int32) *val { return &val{t: thrift.I32, i: n} }
	sym.Assert(isIncluded(including.Point_FAR, aPoint(level(100), level(200))), "a constant struct has another value")
	sym.Assert(isIncluded(shared.Point_ORIGIN, aPoint(level(0), level(1))), "a constant struct has another value")
	var top shared.Level = including.Level_TOP
	var limit int32 = shared.I32_LIMIT
	var same int32 = including.I32_SAME
	sym.Assert(top == shared.Level_HIGH && limit == 12 && same == 12, "a constant has another value")
	sym.Assert(including.BOTH.ElemType() == thrift.I32 && including.BOTH.Len() == 2, "a constant list has another type or length")
	sym.Assert(goIs(including.BOTH.At(0), level(-1)) && goIs(including.BOTH.At(1), level(5)), "a constant list has another element")
	sym.Assert(shared.Level_LOW == -1 && shared.Level_MIDDLE == 5 && shared.Level_HIGH == 6, "an enum value has another number than declared")
	n := sym.Int64("n")
	l := shared.Level(n)
	name := "<UNSET>"
	switch n {
	case -1:
		name = "Level_LOW"
	case 5:
		name = "Level_MIDDLE"
	case 6:
		name = "Level_HIGH"
	}
	sym.Assert(l.String() == name, "an enum value has another name")
	sym.Assert(name == "<UNSET>" || shared.FromLevelString(name) == l, "the name of an enum value is that of another")
	sym.Reach("end")
}

// drawer is the handler of the service Shapes, some of whose functions are those of an included program.
type drawer struct {
	name    []string
	args    []interface{}
	point   *shared.Point
	number  int32
	list    thrift.TList
	refused *shared.Refused
	lost    *including.Lost
}

func (h *drawer) did(name string, a ...interface{}) {
	h.name = append(h.name, name)
	h.args = a
}

func pointOrNil(p *shared.Point) interface{} {
	if p == nil {
		return nil
	}
	return p
}

func (h *drawer) Measure(p *shared.Point) (int32, *shared.Refused, error) {
	h.did("measure", pointOrNil(p))
	return h.number, h.refused, nil
}
func (h *drawer) Note(l shared.Level) error {
	h.did("note", graded(int64(l)))
	return nil
}
func (h *drawer) Middle(line *including.Line, to *shared.Point, level shared.Level, count shared.Count) (*shared.Point, *shared.Refused, *including.Lost, error) {
	var start interface{}
	if line != nil {
		start = pointOrNil(line.Start)
	}
	h.did("middle", start, pointOrNil(to), graded(int64(level)), int64(count))
	return h.point, h.refused, h.lost, nil
}
func (h *drawer) All(l thrift.TList) (thrift.TList, error) {
	h.did("all", listOrNil(l))
	return h.list, nil
}
func (h *drawer) Level(g shared.Grade, r shared.Row) (shared.Level, error) {
	h.did("level", graded(int64(g)), listOrNil(r))
	return shared.Level(h.number), nil
}
func (h *drawer) Corner() (*shared.Point, error) {
	h.did("corner")
	return h.point, nil
}

func (h *drawer) asked(name string, v ...*val) {
	sym.Assert(len(h.name) == 1 && h.name[0] == name && len(h.args) == len(v), "another function is called")
	for i := range v {
		sym.Assert(goIs(h.args[i], v[i]), "the handler is called with other arguments")
	}
}

// C32_Included: calls of a service that extends one of an included program, whose functions have the types of that
// program, with any arguments and outcomes.
func C32_Included() {
	k := typed[sym.Choose("protocol", 3)]
	h := &drawer{}
	d := newDirect(k, including.NewShapesProcessor(h))
	var c *including.ShapesClient
	if sym.Choose("client", 2) == 0 {
		c = including.NewShapesClientFactory(d, factory(k))
	} else {
		c = including.NewShapesClientProtocol(d, mk(k, d), mk(k, d))
	}
	g := rpcLeaves(k)
	// one number of the call has any value, the others fixed ones
	free, n := sym.Choose("free", 4), int32(0)
	number := func(t thrift.TType) *val {
		n++
		if int(n) == free+1 {
			return g.of(t, 0)
		}
		c := an(t)
		c.i += n
		return c
	}
	point := func() *val { return aPoint(number(thrift.I32), number(thrift.I32)) }
	shown := func(v *val) *shared.Point { return native(v).(*shared.Point) }
	theRefused := func() *val {
		v := &val{t: thrift.STRUCT}
		v.field(1, "why", g.of(thrift.STRING, 0))
		v.field(2, "code", number(thrift.I32))
		return v
	}
	var res, exc *val
	throws := func(n int) int {
		o := sym.Choose("outcome", n)
		switch o {
		case 1:
			exc = theRefused()
			h.refused = native(exc).(*shared.Refused)
		case 2:
			exc = point()
			h.lost = including.NewLost()
			h.lost.Where = shown(exc)
		}
		return o
	}
	var e error
	switch sym.Choose("function", 6) {
	case 0:
		p := point()
		o := throws(2)
		res = number(thrift.I32)
		h.number = res.i
		m, r, err := c.Measure(shown(p))
		h.asked("measure", p)
		sym.Assert((r != nil) == (o == 1) && (r == nil || isIncluded(r, exc)), "another exception is received")
		sym.Assert(o != 0 || m == h.number, "another result is received")
		e = err
	case 1:
		l := number(thrift.I32)
		e = c.Note(shared.Level(l.i))
		h.asked("note", l)
	case 2:
		from, to, level, count := point(), aPoint(number(thrift.I32), number(thrift.I32)), number(thrift.I32), number(thrift.I64)
		o := throws(3)
		res = aPoint(number(thrift.I32), number(thrift.I32))
		if o == 0 {
			h.point = shown(res)
		}
		line := including.NewLine()
		line.Start = shown(from)
		x, r, l, err := c.Middle(line, shown(to), shared.Level(level.i), shared.Count(count.l))
		h.asked("middle", from, to, level, count)
		sym.Assert((r != nil) == (o == 1) && (r == nil || isIncluded(r, exc)), "another exception is received")
		sym.Assert((l != nil) == (o == 2) && (l == nil || isIncluded(l.Where, exc)), "another exception is received")
		sym.Assert(o != 0 || isIncluded(x, res), "another result is received")
		e = err
	case 3:
		levels := listed(number)
		res = &val{t: thrift.LIST, et: thrift.STRUCT}
		for i := sym.Choose("size", 3); i > 0; i-- {
			res.kids = append(res.kids, point())
		}
		h.list = native(res).(thrift.TList)
		l, err := c.All(native(levels).(thrift.TList))
		h.asked("all", levels)
		sym.Assert(goIs(listOrNil(l), res), "another result is received")
		e = err
	case 4:
		grade, row := number(thrift.I32), listed(number)
		res = number(thrift.I32)
		h.number = res.i
		l, err := c.Level(shared.Grade(grade.i), shared.Row(native(row).(thrift.TList)))
		h.asked("level", grade, row)
		sym.Assert(goIs(graded(int64(l)), res), "another result is received")
		e = err
	default:
		res = point()
		h.point = shown(res)
		x, err := c.Corner()
		h.asked("corner")
		sym.Assert(isIncluded(x, res), "another result is received")
		e = err
	}
	sym.Assert(e == nil, "the call fails")
	// and one more
	a := sym.Int32("next")
	if k == kJSON {
		a = 3
	}
	h.name, h.refused, h.number = nil, nil, 77
	m, _, e := c.Measure(shown(aPoint(&val{t: thrift.I32, i: a}, an(thrift.I32))))
	sym.Assert(e == nil && m == 77, "the call after another fails")
	h.asked("measure", aPoint(&val{t: thrift.I32, i: a}, an(thrift.I32)))
	sym.Reach("end")
}

// listed is a list of up to two numbers.
func listed(number func(thrift.TType) *val) *val {
	v := &val{t: thrift.LIST, et: thrift.I32}
	for i := sym.Choose("elements", 3); i > 0; i-- {
		v.kids = append(v.kids, number(thrift.I32))
	}
	return v
}
