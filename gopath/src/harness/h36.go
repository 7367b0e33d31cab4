//go:build generated

package harness

import (
	"errors"
	"every"
	"remote/derived"
	"remote/everything"
	onlySecond "remote/second"
	"remote/shapes"
	"remote/simple"
	"strconv"
	"sym"
	"terminal"
	"thrift"
	"together/including"
	"together/shared"
)

// limits are the numbers at and beyond the limits of the types.
var limits = map[thrift.TType][2][]string{
	thrift.BYTE: {{"0", "127", "255", "-1", "-128"}, {"256", "-129", "999", "65537", "4294967297"}},
	thrift.I16:  {{"32767", "-32768", "-1", "256"}, {"32768", "-32769", "65537", "4294967297"}},
	thrift.I32:  {{"2147483647", "-2147483648", "-1", "65536"}, {"2147483648", "-2147483649", "4294967297", "99999999999999999999"}},
	thrift.I64:  {{"9223372036854775807", "-9223372036854775808", "-1", "4294967297"}, {"9223372036854775808", "-9223372036854775809", "99999999999999999999"}},
}

func whole36(t thrift.TType, n int64) *val {
	v := &val{t: t}
	switch t {
	case thrift.BYTE:
		v.y = byte(n)
	case thrift.I16:
		v.h = int16(n)
	case thrift.I32:
		v.i = int32(n)
	default:
		v.l = n
	}
	return v
}

// anyWord is any text given for a value of the shape s, and the value; nil: it is none.
func anyWord(s *shape) (string, *val) {
	switch s.t {
	case thrift.BOOL:
		j := sym.Choose("word", 6)
		return []string{"true", "false", "", "yes", "tru", "2"}[j], []*val{{t: s.t, b: true}, {t: s.t}, nil, nil, nil, nil}[j]
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		switch sym.Choose("number", 3) {
		case 1:
			good := limits[s.t][0]
			t := good[sym.Choose("limit", len(good))]
			n, _ := strconv.ParseInt(t, 10, 64)
			return t, whole36(s.t, n)
		case 2:
			bad := limits[s.t][1]
			return bad[sym.Choose("limit", len(bad))], nil
		}
		b := sym.Bytes("word", sym.Range("len", 0, sym.Bound(2, 3)))
		d := b
		if len(d) > 0 && (d[0] == '-' || d[0] == '+') {
			d = d[1:]
		}
		var n int64
		bad := len(d) == 0
		for _, c := range d {
			if c < '0' || c > '9' {
				bad = true
				break
			}
			n = n*10 + int64(c-'0')
		}
		if bad {
			return string(b), nil
		}
		if b[0] == '-' {
			n = -n
		}
		if s.t == thrift.BYTE && (n < -128 || n > 255) {
			return string(b), nil
		}
		return string(b), whole36(s.t, n)
	case thrift.DOUBLE:
		j := sym.Choose("word", 7)
		return []string{"1.5", "-2", "1e3", "", "x", "1.5x", "1,5"}[j], []*val{{t: s.t, d: 1.5}, {t: s.t, d: -2}, {t: s.t, d: 1000}, nil, nil, nil, nil}[j]
	case thrift.STRING, thrift.BINARY:
		b := sym.Bytes("word", sym.Range("len", 0, 2))
		if s.t == thrift.BINARY {
			return string(b), &val{t: s.t, x: b}
		}
		return string(b), &val{t: s.t, s: string(b)}
	}
	v := fixedShape(s)
	switch sym.Choose("json", 4) {
	case 1:
		if s.t != thrift.STRUCT {
			v.kids = nil
		}
	case 2:
		t := jsonWord(v)
		return t[:len(t)-1], nil
	case 3:
		return []string{"", "x", "1", "\"a\"", "tru"}[sym.Choose("word", 5)], nil
	}
	return jsonWord(v), v
}

// jsonWord is v in the simple JSON protocol.
func jsonWord(v *val) string {
	buf := thrift.NewTMemoryBuffer()
	p := mk(kSimple, buf)
	write(p, v)
	ok(p.Flush(), "Flush fails")
	return string(append([]byte(nil), buf.Bytes()...))
}

// word is the text of a fixed value.
func word(v *val) string {
	switch v.t {
	case thrift.BOOL:
		return strconv.FormatBool(v.b)
	case thrift.BYTE:
		return strconv.Itoa(int(v.y))
	case thrift.I16:
		return strconv.Itoa(int(v.h))
	case thrift.I32:
		return strconv.Itoa(int(v.i))
	case thrift.I64:
		return strconv.FormatInt(v.l, 10)
	case thrift.DOUBLE:
		return strconv.FormatFloat(v.d, 'g', -1, 64)
	case thrift.STRING:
		return v.s
	case thrift.BINARY:
		return string(v.x)
	}
	return jsonWord(v)
}

// wordsFor are texts for the arguments of f, in the order of the command line, and the arguments, in the order of
// their ids; nil: one of the texts is no value.
func wordsFor(f *function) ([]string, *val) {
	v := &val{t: thrift.STRUCT}
	free := 0
	if len(f.args) > 1 {
		free = sym.Choose("argument", len(f.args))
	}
	var ws []string
	none := false
	for i, a := range f.args {
		c := fixedShape(a.s)
		var w string
		if i == free {
			w, c = anyWord(a.s)
			none = c == nil
		} else {
			c.i += int32(i)
			w = word(c)
		}
		ws = append(ws, w)
		v.field(a.id, a.name, c)
	}
	if f.name == "flip" || f.name == "unnumbered" { // declared the other way round
		ws[0], ws[1] = ws[1], ws[0]
	}
	if none {
		return ws, nil
	}
	return ws, v
}

// commandFor is the command-line client of the service that has the function.
func commandFor(i int) func() {
	switch {
	case i < 11:
		return simple.Main
	case i == 11:
		return derived.Main
	}
	return everything.Main
}

// shown is what is printed of a result.
func shown(x interface{}) interface{} {
	switch y := x.(type) {
	case every.Color:
		return int32(y)
	case every.Number:
		return int32(y)
	case every.Text:
		return string(y)
	case every.Index:
		return thrift.TMap(y)
	}
	return x
}

// printed checks that what is printed is the outcome of the call.
func printed(f *function, o *answered) {
	sym.Assert(len(terminal.Printed) == 1, "the outcome of the call is not printed once")
	p := terminal.Printed[0]
	sym.Assert(len(p) >= 1, "nothing is printed")
	e, _ := p[len(p)-1].(error)
	sym.Assert((e != nil) == (o.err != nil && !f.oneway), "another outcome than that of the call is printed")
	if o.ret != nil && o.err == nil {
		sym.Assert(goIs(shown(p[0]), o.ret), "another result is printed")
	}
}

// C36_Calls: a command line with the name of any function and any texts for its arguments, with any protocol: the
// function is called once with the values the texts stand for, and what it returns is printed; if there is no such
// value, nothing is called.
func C36_Calls() {
	i := sym.Choose("function", len(functions))
	f := &functions[i]
	k := kBin
	w := &worker{}
	d := newDirect(k, every.NewEverythingProcessor(w))
	ws, v := wordsFor(f)
	o := &answered{}
	if f.ret != nil {
		o.ret = fixedShape(f.ret)
		w.ret = native(o.ret)
	}
	terminal.Start(append([]string{f.name}, ws...)...)
	terminal.Give = func(bool) thrift.TTransport { return d }
	terminal.Run(commandFor(i))
	if v == nil {
		sym.Assert(len(w.name) == 0, "a function is called with an argument that was not given")
		sym.Assert(terminal.Wrong > 0, "a wrong argument is not reported")
	} else {
		asked(w, 0, f, v)
		printed(f, o)
	}
	sym.Reach("end")
}

// C36_Outcomes: a call that ends with a result, a declared exception or an error, any of them, is printed as such.
func C36_Outcomes() {
	i := sym.Choose("function", len(functions))
	f := &functions[i]
	w := &worker{}
	d := newDirect(kBin, every.NewEverythingProcessor(w))
	o := anyOutcome(&gen{k: kBin, lens: []int{1}}, f, w)
	var ws []string
	for _, a := range f.args {
		ws = append(ws, word(fixedShape(a.s)))
	}
	if f.name == "flip" {
		ws[0], ws[1] = ws[1], ws[0]
	}
	terminal.Start(append([]string{f.name}, ws...)...)
	terminal.Give = func(bool) thrift.TTransport { return d }
	terminal.Run(commandFor(i))
	sym.Assert(len(w.name) == 1 && w.name[0] == f.name, "the function is not called once")
	printed(f, o)
	if o.exc != nil {
		there := false
		for _, x := range terminal.Printed[0] {
			switch x := x.(type) {
			case *every.Failure:
				there = there || x != nil && sameException(x, o.exc)
			case *every.Other:
				there = there || x != nil && sameException(x, o.exc)
			}
		}
		sym.Assert(there, "the exception is not printed")
	}
	sym.Reach("end")
}

// closing is a transport that counts how often it is opened and closed, and may fail to open.
type closing struct {
	thrift.TTransport
	fail           bool
	opened, closed int
}

func (c *closing) Open() error {
	if c.fail {
		return errors.New("cannot be opened")
	}
	c.opened++
	return nil
}

func (c *closing) Close() error {
	c.closed++
	return nil
}

// C36_Transports: the flags choose the transport and the protocol, and the address or the URL.
func C36_Transports() {
	w := &worker{ret: int32(9)}
	k, args := kBin, []string(nil)
	switch sym.Choose("protocol", 6) {
	case 1:
		args = append(args, "-P", "binary")
	case 2:
		k, args = kCompact, append(args, "-P", "compact")
	case 3:
		k, args = kJSON, append(args, "-P=json")
	case 5:
		k, args = kSimple, append(args, "-P", "simplejson")
	case 4:
		k, args = -1, append(args, "-P", []string{"bin", "JSON", "thrift"}[sym.Choose("wrong", 3)])
	}
	wrong := k < 0
	if wrong {
		k = kBin
	}
	d := newDirect(k, every.NewEverythingProcessor(w))
	web, framed, address := false, false, ""
	switch sym.Choose("transport", 8) {
	case 0:
		address = "tcp localhost:9090"
	case 1:
		args, address = append(args, "-h", "there", "-p", "81"), "tcp there:81"
	case 2:
		args, address = append(args, "-p", "65535"), "tcp localhost:65535"
	case 3:
		args, address, framed = append(args, "-framed"), "tcp localhost:9090", true
	case 4:
		args, address, framed = append(args, "-framed", "-h", "10.1.2.3"), "tcp 10.1.2.3:9090", true
	case 5:
		args, address, web = append(args, "-u", "http://there:8080/a/b?c=d"), "POST http://there:8080/a/b?c=d", true
	case 6:
		args, address, web = append(args, "-http", "-h", "there", "-p", "80"), "POST http://there:80", true
	case 7:
		args, address, web = append(args, "-u=http://there/"), "POST http://there/", true
	}
	if framed {
		d.in = mk(k, thrift.NewTFramedTransport(d.requests))
		d.out = mk(k, thrift.NewTFramedTransport(d.replies))
	}
	c := &closing{TTransport: d, fail: sym.Choose("open", 2) == 1}
	terminal.Start(append(args, "add", "3", "-4")...)
	isWeb := !web
	terminal.Give = func(b bool) thrift.TTransport { isWeb = b; return c }
	code := terminal.Run(simple.Main)
	if !wrong {
		sym.Assert(isWeb == web && len(terminal.Asked) == 1 && terminal.Asked[0] == address, "another transport is used than the flags say")
	}
	if wrong || c.fail {
		sym.Assert(len(w.name) == 0, "a function is called although there is no such protocol, or the transport cannot be opened")
		sym.Assert(terminal.Wrong > 0 && (wrong || code != 0), "that nothing is called is not reported")
		sym.Reach("end")
		return
	}
	v := &val{t: thrift.STRUCT}
	v.field(1, "a", &val{t: thrift.I32, i: 3})
	v.field(2, "b", &val{t: thrift.I32, i: -4})
	asked(w, 0, &functions[1], v)
	printed(&functions[1], &answered{ret: &val{t: thrift.I32, i: 9}})
	sym.Assert(c.opened == 1 && c.closed == 1, "the transport is not opened and closed once")
	sym.Reach("end")
}

// C36_Refused: a command line without a function, with one the service does not have, or with too few or too many
// arguments, calls nothing.
func C36_Refused() {
	w := &worker{}
	d := newDirect(kBin, every.NewEverythingProcessor(w))
	var args []string
	main := simple.Main
	switch sym.Choose("line", 4) {
	case 0:
	case 1:
		name := string(sym.Bytes("name", sym.Range("len", 0, 3)))
		sym.Assume(name != "add" && name != "get" && (name == "" || name[0] != '-'))
		args = append(args, name)
		for n := sym.Choose("arguments", 3); n > 0; n-- {
			args = append(args, "1")
		}
	case 2:
		i := sym.Choose("function", len(functions))
		f := &functions[i]
		main = commandFor(i)
		n := sym.Choose("arguments", len(f.args)+3)
		sym.Assume(n != len(f.args))
		args = append(args, f.name)
		for ; n > 0; n-- {
			args = append(args, "1")
		}
	case 3:
		args = append(args, []string{"-help", "--help"}[sym.Choose("help", 2)], "ping")
	}
	terminal.Start(args...)
	terminal.Give = func(bool) thrift.TTransport { return d }
	terminal.Run(main)
	sym.Assert(len(w.name) == 0, "a function is called that was not asked for")
	sym.Assert(terminal.Wrong > 0, "nothing is reported")
	sym.Reach("end")
}

type painter struct {
	name []string
	args [][]interface{}
}

func (p *painter) did(name string, a ...interface{}) {
	p.name = append(p.name, name)
	p.args = append(p.args, a)
}

// pinger is the handler of the service Second.
type pinger struct{ painter }

func (p *pinger) Ping() (int32, error) { p.did("ping"); return 7, nil }
func (p *pinger) Add(a, b string) (string, *every.Other, error) {
	p.did("add", a, b)
	return a + b, nil, nil
}

// C36_Second: a service whose functions have the names of those of another service in the program.
func C36_Second() {
	h := &pinger{}
	d := newDirect(kBin, every.NewSecondProcessor(h))
	a, b := sym.String("a", sym.Range("len", 0, 1)), sym.String("b", sym.Range("len", 0, 1))
	ping := sym.Choose("ping", 2) == 1
	if ping {
		terminal.Start("ping")
	} else {
		terminal.Start("add", a, b)
	}
	terminal.Give = func(bool) thrift.TTransport { return d }
	terminal.Run(onlySecond.Main)
	sym.Assert(len(h.name) == 1 && len(terminal.Printed) == 1, "the function is not called once")
	r := terminal.Printed[0][0]
	if ping {
		n, is := r.(int32)
		sym.Assert(h.name[0] == "ping" && is && n == 7, "another function is called or another result is printed")
	} else {
		s, is := r.(string)
		sym.Assert(h.name[0] == "add" && h.args[0][0] == a && h.args[0][1] == b && is && s == a+b, "another function is called or another result is printed")
	}
	sym.Reach("end")
}

// C36_Included: a service whose functions have the types of an included program.
func C36_Included() {
	h := &drawer{}
	d := newDirect(kBin, including.NewShapesProcessor(h))
	point := aPoint(&val{t: thrift.I32, i: 3}, &val{t: thrift.I32, i: -4})
	drawn := &val{t: thrift.LIST, et: thrift.STRUCT, kids: []*val{point}}
	h.point, _ = native(point).(*shared.Point)
	h.number, h.list = 5, native(drawn).(thrift.TList)
	var got interface{}
	run := func(args ...string) {
		terminal.Start(args...)
		terminal.Give = func(bool) thrift.TTransport { return d }
		terminal.Run(shapes.Main)
		if len(terminal.Printed) > 0 && len(terminal.Printed[0]) > 0 {
			got = terminal.Printed[0][0]
		}
	}
	calls := true
	switch sym.Choose("function", 4) {
	case 0:
		line := including.NewLine()
		line.Start = h.point
		buf := thrift.NewTMemoryBuffer()
		p := mk(kSimple, buf)
		ok(line.Write(p), "Write fails")
		ok(p.Flush(), "Flush fails")
		level, count := "6", "9"
		l, c := &val{t: thrift.I32, i: 6}, &val{t: thrift.I64, l: 9}
		if sym.Choose("free", 2) == 0 {
			level, l = anyWord(i32)
		} else {
			count, c = anyWord(i64)
		}
		calls = l != nil && c != nil
		run("middle", string(append([]byte(nil), buf.Bytes()...)), jsonWord(point), level, count)
		if calls {
			h.asked("middle", point, point, l, c)
			sym.Assert(isIncluded(got, point), "another result is printed")
		}
	case 1:
		w, v := anyWord(listOf(i32))
		calls = v != nil
		run("all", w)
		if calls {
			h.asked("all", v)
			sym.Assert(goIs(got, drawn), "another result is printed")
		}
	case 2:
		grade, g := anyWord(i32)
		row := fixedShape(listOf(i32))
		calls = g != nil
		run("level", grade, jsonWord(row))
		if calls {
			h.asked("level", g, row)
			n, is := got.(shared.Level)
			sym.Assert(is && n == 5, "another result is printed")
		}
	case 3:
		run("corner")
		h.asked("corner")
		sym.Assert(isIncluded(got, point), "another result is printed")
	}
	if !calls {
		sym.Assert(len(h.name) == 0, "a function is called with an argument that was not given")
		sym.Assert(terminal.Wrong > 0, "a wrong argument is not reported")
	}
	sym.Reach("end")
}
