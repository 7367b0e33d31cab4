//go:build generated

package harness

import (
	"errors"
	"every"
	"sym"
	"thrift"
)

// raised is the exception with this id.
type raised struct {
	id int16
	x  interface{}
}

// raisedOrNil is the only exception that is not nil.
func raisedOrNil(first *every.Failure, second *every.Other, third *every.Failure) interface{} {
	var r []raised
	if first != nil {
		r = append(r, raised{3, first})
	}
	if second != nil {
		r = append(r, raised{1, second})
	}
	if third != nil {
		r = append(r, raised{7, third})
	}
	if len(r) == 0 {
		return nil
	}
	if len(r) > 1 {
		return r
	}
	return r[0]
}

// more are the functions of Everything itself. (Arguments are in the order of their ids.)
var more = []function{
	{"flip", false, []part{{1, "b", one(thrift.BYTE)}, {3, "a", one(thrift.BOOL)}}, one(thrift.BOOL), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendFlip(a[1].(bool), a[0].(byte)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvFlip()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Flip(a[1].(bool), a[0].(byte))
			return r, nil, e
		}},
	{"small", false, []part{{1, "s", one(thrift.I16)}}, one(thrift.BYTE), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendSmall(a[0].(int16)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvSmall()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Small(a[0].(int16))
			return r, nil, e
		}},
	{"short", false, []part{{1, "b", one(thrift.BYTE)}}, one(thrift.I16), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendShort(a[0].(byte)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvShort()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Short(a[0].(byte))
			return r, nil, e
		}},
	{"real", false, []part{{1, "d", one(thrift.DOUBLE)}, {20, "exact", one(thrift.BOOL)}}, one(thrift.DOUBLE), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendReal(a[0].(float64), a[1].(bool)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvReal()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Real(a[0].(float64), a[1].(bool))
			return r, nil, e
		}},
	{"unique", false, []part{{1, "s", setOf(str)}}, setOf(str), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendUnique(asSet(a[0])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvUnique()
			return setOrNil(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Unique(asSet(a[0]))
			return setOrNil(r), nil, e
		}},
	{"index", false, []part{{1, "m", mapOf(str, i32)}}, mapOf(str, i32), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendIndex(asMap(a[0])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvIndex()
			return mapOrNil(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Index(asMap(a[0]))
			return mapOrNil(r), nil, e
		}},
	{"structs", false, []part{{1, "l", listOf(base)}}, listOf(base), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendStructs(asList(a[0])) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvStructs()
			return listOrNil(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Structs(asList(a[0]))
			return listOrNil(r), nil, e
		}},
	{"count", false, []part{{1, "t", str}, {2, "s", listOf(one(thrift.I16))}}, i32, nil,
		func(c *every.EverythingClient, a []interface{}) error {
			return c.SendCount(every.Text(a[0].(string)), every.Shorts(asList(a[1])))
		},
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvCount()
			return int32(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Count(every.Text(a[0].(string)), every.Shorts(asList(a[1])))
			return int32(r), nil, e
		}},
	{"nested", false, []part{{1, "i", mapOf(str, listOf(one(thrift.I16)))}}, mapOf(str, listOf(one(thrift.I16))), nil,
		func(c *every.EverythingClient, a []interface{}) error { return c.SendNested(every.Index(asMap(a[0]))) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvNested()
			return mapOrNil(thrift.TMap(r)), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Nested(every.Index(asMap(a[0])))
			return mapOrNil(thrift.TMap(r)), nil, e
		}},
	{"preset", false, []part{{1, "a", i32}, {2, "b", str}}, i32, nil,
		func(c *every.EverythingClient, a []interface{}) error {
			return c.SendPreset(a[0].(int32), a[1].(string))
		},
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvPreset()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Preset(a[0].(int32), a[1].(string))
			return r, nil, e
		}},
	{"thrower", false, []part{{1, "n", i32}}, base, []part{{1, "second", otherShape}, {3, "first", failureShape}, {7, "third", failureShape}},
		func(c *every.EverythingClient, a []interface{}) error { return c.SendThrower(a[0].(int32)) },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, x, y, z, e := c.RecvThrower()
			return structOrNil(r), raisedOrNil(x, y, z), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, x, y, z, e := c.Thrower(a[0].(int32))
			return structOrNil(r), raisedOrNil(x, y, z), e
		}},
	{"unnumbered", false, []part{{-2, "b", i32}, {-1, "a", i32}}, i32, nil,
		func(c *every.EverythingClient, a []interface{}) error {
			return c.SendUnnumbered(a[1].(int32), a[0].(int32))
		},
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvUnnumbered()
			return r, nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.Unnumbered(a[1].(int32), a[0].(int32))
			return r, nil, e
		}},
	{"snake_case", false, []part{{1, "camelCase", i32}}, str, nil,
		func(c *every.EverythingClient, a []interface{}) error {
			return c.SendSnakeCase(every.Paint(a[0].(int32)))
		},
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			r, e := c.RecvSnakeCase()
			return string(r), nil, e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			r, e := c.SnakeCase(every.Paint(a[0].(int32)))
			return string(r), nil, e
		}},
	{"quiet", false, nil, nil, []part{{1, "failed", failureShape}, {2, "other", otherShape}},
		func(c *every.EverythingClient, a []interface{}) error { return c.SendQuiet() },
		func(c *every.EverythingClient) (interface{}, interface{}, error) {
			f, o, e := c.RecvQuiet()
			return nil, failureOrOther(f, o), e
		},
		func(c *every.EverythingClient, a []interface{}) (interface{}, interface{}, error) {
			f, o, e := c.Quiet()
			return nil, failureOrOther(f, o), e
		}},
}

func (w *worker) thrown(id int16) *every.Failure {
	if w.id != id {
		return nil
	}
	return w.failed()
}

func (w *worker) other() *every.Other {
	o, _ := w.exc.(*every.Other)
	return o
}

func (w *worker) text() string {
	s, _ := w.ret.(string)
	return s
}

func (w *worker) Flip(a bool, b byte) (bool, error) {
	e := w.did("flip", b, a)
	r, _ := w.ret.(bool)
	return r, e
}
func (w *worker) Small(s int16) (byte, error) {
	e := w.did("small", s)
	r, _ := w.ret.(byte)
	return r, e
}
func (w *worker) Short(b byte) (int16, error) {
	e := w.did("short", b)
	r, _ := w.ret.(int16)
	return r, e
}
func (w *worker) Real(d float64, exact bool) (float64, error) {
	e := w.did("real", d, exact)
	r, _ := w.ret.(float64)
	return r, e
}
func (w *worker) Unique(s thrift.TSet) (thrift.TSet, error) {
	e := w.did("unique", setOrNil(s))
	return asSet(w.ret), e
}
func (w *worker) Index(m thrift.TMap) (thrift.TMap, error) {
	e := w.did("index", mapOrNil(m))
	return asMap(w.ret), e
}
func (w *worker) Structs(l thrift.TList) (thrift.TList, error) {
	e := w.did("structs", listOrNil(l))
	return asList(w.ret), e
}
func (w *worker) Count(t every.Text, s every.Shorts) (every.Number, error) {
	e := w.did("count", string(t), listOrNil(thrift.TList(s)))
	return every.Number(w.number()), e
}
func (w *worker) Nested(i every.Index) (every.Index, error) {
	e := w.did("nested", mapOrNil(thrift.TMap(i)))
	return every.Index(asMap(w.ret)), e
}
func (w *worker) Preset(a int32, b string) (int32, error) {
	e := w.did("preset", a, b)
	return w.number(), e
}
func (w *worker) Thrower(n int32) (*every.Base, *every.Failure, *every.Other, *every.Failure, error) {
	e := w.did("thrower", n)
	return asStruct(w.ret), w.thrown(3), w.other(), w.thrown(7), e
}
func (w *worker) Unnumbered(a, b int32) (int32, error) {
	e := w.did("unnumbered", b, a)
	return w.number(), e
}
func (w *worker) SnakeCase(c every.Paint) (every.Text, error) {
	e := w.did("snake_case", paint(c))
	return every.Text(w.text()), e
}
func (w *worker) Quiet() (*every.Failure, *every.Other, error) {
	e := w.did("quiet")
	return w.failed(), w.other(), e
}

// C32_Missing: arguments that are not sent have their declared defaults, or none.
func C32_Missing() {
	k := typed[sym.Choose("protocol", 3)]
	f := &functions[sym.Choose("function", len(functions))]
	sym.Assume(len(f.args) > 0)
	wire := thrift.NewTMemoryBuffer()
	p, q := mk(k, wire), mk(k, wire)
	v := &val{t: thrift.STRUCT}
	want := make([]*val, len(f.args))
	g := rpcLeaves(k)
	sent := sym.Choose("sent", len(f.args)+1)
	for i, a := range f.args {
		if i == sent {
			want[i] = g.shaped(a.s, 1)
			v.field(a.id, a.name, want[i])
			continue
		}
		switch a.s.t {
		case thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP, thrift.BINARY:
		default:
			want[i] = zero(a.s.t)
		}
		switch f.name + "." + a.name {
		case "preset.a":
			want[i].i = 5
		case "preset.b":
			want[i].s = "x"
		case "paint.c", "snake_case.camelCase":
			want[i] = nil
		}
	}
	typ := thrift.TMessageType(thrift.CALL)
	if f.oneway {
		typ = thrift.ONEWAY
	}
	ok(p.WriteMessageBegin(f.name, typ, 1), "WriteMessageBegin fails")
	write(p, v)
	ok(p.WriteMessageEnd(), "WriteMessageEnd fails")
	w := &worker{err: errors.New("no")}
	every.NewEverythingProcessor(w).Process(q, mk(k, thrift.NewTMemoryBuffer()))
	sym.Assert(len(w.name) == 1 && w.name[0] == f.name && len(w.args[0]) == len(want), "another function is called")
	for i, c := range want {
		if c == nil {
			sym.Assert(w.args[0][i] == nil, "an argument that is not sent has a value")
		} else {
			sym.Assert(goIs(w.args[0][i], c), "the handler is called with other arguments")
		}
	}
	sym.Reach("end")
}
