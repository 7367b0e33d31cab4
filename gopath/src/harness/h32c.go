//go:build generated

package harness

import (
	"services"
	"sym"
	"thrift"
	"typedefs"
)

// servant is the handler of the services C (which extends A), and B through itsB.
type servant struct {
	did string
	n   int32
	s   string
	ret int32
}

func (h *servant) Ping() error { h.did += "ping "; return nil }
func (h *servant) More() error { h.did += "more "; return nil }
func (h *servant) Both(a int32) (int32, error) {
	h.did += "both "
	h.n = a
	return h.ret, nil
}

type itsB struct{ *servant }

func (h itsB) Both(a string) (int32, error) {
	h.did += "both "
	h.s = a
	return h.ret, nil
}

func (h itsB) Other() (int32, error) {
	h.did += "other "
	return h.ret, nil
}

// C32_Program: services of one program with functions of the same names, one of which extends another.
func C32_Program() {
	k := typed[sym.Choose("protocol", 3)]
	h := &servant{}
	g := rpcLeaves(k)
	n := g.of(thrift.I32, 0).i
	h.ret = g.of(thrift.I32, 0).i
	switch sym.Choose("service", 3) {
	case 0:
		c := services.NewAClientFactory(newDirect(k, services.NewAProcessor(h)), factory(k))
		e := c.Ping()
		sym.Assert(e == nil && h.did == "ping ", "the call does something else")
		r, e := c.Both(n)
		sym.Assert(e == nil && h.did == "ping both " && h.n == n && r == h.ret, "the call does something else")
	case 1:
		c := services.NewCClientFactory(newDirect(k, services.NewCProcessor(h)), factory(k))
		e := c.More()
		sym.Assert(e == nil && h.did == "more ", "the call does something else")
		e = c.Ping()
		sym.Assert(e == nil && h.did == "more ping ", "the call does something else")
		r, e := c.Both(n)
		sym.Assert(e == nil && h.did == "more ping both " && h.n == n && r == h.ret, "the call does something else")
		// (also through the client of the service it extends)
		e = c.AClient.Ping()
		sym.Assert(e == nil && h.did == "more ping both ping ", "the call does something else")
	default:
		c := services.NewBClientFactory(newDirect(k, services.NewBProcessor(itsB{h})), factory(k))
		s := g.of(thrift.STRING, 0).s
		r, e := c.Both(s)
		sym.Assert(e == nil && h.did == "both " && h.s == s && r == h.ret, "the call does something else")
		r, e = c.Other()
		sym.Assert(e == nil && h.did == "both other " && r == h.ret, "the call does something else")
		e = c.Ping()
		sym.Assert(e == nil && h.did == "both other ping ", "the call does something else")
	}
	sym.Reach("end")
}

// renamed is the handler of a service whose arguments and results are typedefs.
type renamed struct {
	did string
	a   *typedefs.S
	p   typedefs.Paint
	b   typedefs.Blob
	m   typedefs.M
	x   int32
	y   string
}

func (h *renamed) F(a *typedefs.S, p typedefs.Paint, b typedefs.Blob, m typedefs.M) (*typedefs.S, error) {
	h.did = "f"
	h.a, h.p, h.b, h.m = a, p, b, m
	return a, nil
}

func (h *renamed) G() (typedefs.Blob, error) {
	h.did = "g"
	return h.b, nil
}

func (h *renamed) H() (typedefs.M, error) {
	h.did = "h"
	return h.m, nil
}

func (h *renamed) I() (typedefs.Paint, error) {
	h.did = "i"
	return h.p, nil
}

func (h *renamed) Auto(x int32, y string) error {
	h.did = "auto"
	h.x, h.y = x, y
	return nil
}

// C32_Typedefs: arguments and results that are typedefs of structs, enums, binary and maps; arguments without ids.
func C32_Typedefs() {
	k := typed[sym.Choose("protocol", 3)]
	h := &renamed{}
	c := typedefs.NewSvClientFactory(newDirect(k, typedefs.NewSvProcessor(h)), factory(k))
	g := rpcLeaves(k)
	s := typedefs.NewS()
	s.A = g.of(thrift.I32, 0).i
	p := typedefs.Paint(g.of(thrift.I32, 0).i)
	b := g.of(thrift.BINARY, 0)
	m := g.shaped(mapOf(str, i32), 1)
	switch sym.Choose("function", 5) {
	case 0:
		r, e := c.F(s, p, typedefs.Blob(b.x), typedefs.M(asMap(native(m))))
		sym.Assert(e == nil && h.did == "f", "the call does something else")
		sym.Assert(h.a != nil && h.a.A == s.A && h.p == p && goIs([]byte(h.b), b) && goIs(thrift.TMap(h.m), m), "the handler is called with other arguments")
		sym.Assert(r != nil && r.A == s.A, "another result is received")
	case 1:
		h.b = typedefs.Blob(b.x)
		r, e := c.G()
		sym.Assert(e == nil && h.did == "g" && goIs([]byte(r), b), "another result is received")
	case 2:
		h.m = typedefs.M(asMap(native(m)))
		r, e := c.H()
		sym.Assert(e == nil && h.did == "h" && goIs(thrift.TMap(r), m), "another result is received")
	case 3:
		h.p = p
		r, e := c.I()
		sym.Assert(e == nil && h.did == "i" && r == p, "another result is received")
	default:
		y := g.of(thrift.STRING, 0).s
		e := c.Auto(s.A, y)
		sym.Assert(e == nil && h.did == "auto" && h.x == s.A && h.y == y, "the handler is called with other arguments")
	}
	sym.Reach("end")
}
