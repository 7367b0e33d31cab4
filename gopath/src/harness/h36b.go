//go:build generated

package harness

import (
	"commands"
	asCommands "remote/commands"
	"sym"
	"terminal"
	"thrift"
	"together/shared"
)

// commander is the handler of the service Commands.
type commander struct {
	name []string
	args []interface{}
}

func (h *commander) did(name string, a ...interface{}) {
	h.name = append(h.name, name)
	h.args = a
}

// spot is a Spot as the struct of the same fields that goIs knows.
func spot(s *commands.Spot) interface{} {
	if s == nil {
		return nil
	}
	p := shared.NewPoint()
	p.X, p.Y = s.X, s.Y
	return p
}

func (h *commander) Lists(a, b thrift.TList, c int32) (int32, error) {
	h.did("lists", listOrNil(a), listOrNil(b), c)
	return 1, nil
}
func (h *commander) Unnumbered(a thrift.TList, b thrift.TSet) (int32, error) {
	h.did("unnumbered", listOrNil(a), setOrNil(b))
	return 2, nil
}
func (h *commander) Named(a commands.Big, b commands.Flag, c commands.Real, d commands.Tiny, e commands.Short) (int32, error) {
	h.did("named", int64(a), bool(b), float64(c), byte(d), int16(e))
	return 3, nil
}
func (h *commander) Kinds(a commands.Blob, b commands.Table, c commands.Grade, d *commands.Spot) (int32, error) {
	h.did("kinds", []byte(a), mapOrNil(thrift.TMap(b)), int32(c), spot(d))
	return 4, nil
}
func (h *commander) Thrown(b *commands.Broken, s *commands.Spot) (int32, error) {
	h.did("thrown", b.Why, spot(s))
	return 5, nil
}
func (h *commander) Tell(a commands.Level, l thrift.TList, c string, d int32) error {
	spots := thrift.NewTListDefault()
	for i := 0; l != nil && i < l.Len(); i++ {
		s, _ := l.At(i).(*commands.Spot)
		spots.Push(spot(s))
	}
	h.did("tell", int32(a), thrift.TList(spots), c, d)
	return nil
}
func (h *commander) FlagNames(a, b int32, s *commands.Spot, l thrift.TList) (int32, error) {
	h.did("flag_names", a, b, spot(s), listOrNil(l))
	return 7, nil
}
func (h *commander) Usage(a, b string) (string, error) {
	h.did("Usage", a, b)
	return "eight", nil
}

var brokenShape = one(thrift.STRUCT)

// commandsHas are the functions of the service Commands with their arguments, in the order of the declaration, and results.
var commandsHas = []struct {
	name string
	args []*shape
	ret  interface{}
}{
	{"lists", []*shape{listOf(i32), listOf(i32), i32}, int32(1)},
	{"unnumbered", []*shape{listOf(i32), setOf(str)}, int32(2)},
	{"named", []*shape{i64, one(thrift.BOOL), one(thrift.DOUBLE), one(thrift.BYTE), one(thrift.I16)}, int32(3)},
	{"kinds", []*shape{bin, mapOf(str, i32), i32, pointShape}, int32(4)},
	{"thrown", []*shape{brokenShape, pointShape}, int32(5)},
	{"tell", []*shape{i32, listOf(pointShape), str, i32}, nil},
	{"flag_names", []*shape{i32, i32, pointShape, listOf(i32)}, int32(7)},
	{"Usage", []*shape{str, str}, "eight"},
}

// typical is a value of the shape s.
func typical(s *shape, n int) *val {
	switch {
	case s == pointShape:
		return aPoint(&val{t: thrift.I32, i: int32(n + 3)}, &val{t: thrift.I32, i: -4})
	case s == brokenShape:
		v := &val{t: thrift.STRUCT}
		v.field(1, "why", &val{t: thrift.STRING, s: "a \"reason\""})
		return v
	case s.t == thrift.LIST:
		return &val{t: s.t, et: s.e.t, kids: []*val{typical(s.e, n), typical(s.e, n+1)}}
	}
	v := fixedShape(s)
	v.i += int32(n)
	return v
}

// C36_Commands: a service whose functions have arguments of every kind, of named types and under awkward names and
// ids: one argument is any text, the others are texts of fixed values.
func C36_Commands() {
	h := &commander{}
	d := newDirect(kBin, commands.NewCommandsProcessor(h))
	f := commandsHas[sym.Choose("function", len(commandsHas))]
	free := sym.Choose("free", len(f.args))
	args := []string{f.name}
	var vs []*val
	none := false
	for i, s := range f.args {
		v := typical(s, i)
		w := word(v)
		if i == free {
			if s.t < thrift.STRUCT || s.t == thrift.BINARY {
				w, v = anyWord(s)
			} else {
				switch sym.Choose("json", 3) {
				case 1:
					w, v = w[:len(w)-1], nil
				case 2:
					w, v = []string{"", "x", "3", "\"\""}[sym.Choose("word", 4)], nil
				}
			}
			none = v == nil
		}
		if s == brokenShape && v != nil {
			v = v.kids[0]
		}
		args, vs = append(args, w), append(vs, v)
	}
	terminal.Start(args...)
	terminal.Give = func(bool) thrift.TTransport { return d }
	terminal.Run(asCommands.Main)
	if none {
		sym.Assert(len(h.name) == 0, "a function is called with an argument that was not given")
		sym.Assert(terminal.Wrong > 0, "a wrong argument is not reported")
		sym.Reach("end")
		return
	}
	sym.Assert(len(h.name) == 1 && h.name[0] == f.name && len(h.args) == len(vs), "the function is not called once")
	for i, v := range vs {
		sym.Assert(goIs(h.args[i], v), "the function is called with other arguments")
	}
	sym.Assert(len(terminal.Printed) == 1, "the outcome of the call is not printed once")
	if f.ret != nil {
		sym.Assert(terminal.Printed[0][0] == f.ret, "another result is printed")
	}
	sym.Reach("end")
}
