package harness

import (
	"simple"
	"sym"
	"thrift"
)

const where = "http://there/path"

// web answers requests.
type web struct {
	requests int
	method   string
	body     []byte // of the last request
	kind     string
	how      int // 0 OK, 1 another status, 2 fails, 3 refused before the body is read
	status   int
	answer   []byte
}

func (w *web) begin(wild bool) {
	sym.UseHTTP(func(method, url, contentType string, body []byte) (int, []byte, error) {
		w.requests++
		w.method, w.body, w.kind = method, append([]byte(nil), body...), contentType
		sym.Assert(url == where, "a request goes somewhere else")
		switch w.how {
		case 1:
			return w.status, w.answer, nil
		case 2:
			return 0, nil, errBroken
		}
		return 200, w.answer, nil
	})
	sym.HTTPDial = func(method, url string) error {
		if w.how == 3 {
			w.requests++
			return errBroken
		}
		return nil
	}
}

// outcome chooses the next answer.
func (w *web) outcome(most int) {
	w.how = sym.Choose("outcome", 4)
	w.answer = nil
	if w.how < 2 {
		w.answer = sym.Bytes("answer", sym.Size("length", 0, most))
	}
	if w.how == 1 {
		w.status = []int{204, 500, 302, 100, 0}[sym.Choose("status", sym.Bound(2, 5))]
	}
}

func bodiesClosed(but int) {
	for i, b := range sym.HTTPBodies {
		sym.Assert(b.Closed > 0 || i == but, "the body of a response is not closed")
	}
}

// C30_Post: any sequence of operations.
func C30_Post() {
	w := &web{}
	w.begin(false)
	t, e := thrift.NewTHttpPostClient(where)
	sym.Assert(e == nil, "NewTHttpPostClient fails")
	sym.Assert(t.IsOpen() && t.Peek() && t.Open() == nil && w.requests == 0, "a new client is not open, or posts")
	var pending, answer []byte
	open, readable, current := true, false, -1
	n := sym.Bound(5, 6)
	size, most := sym.Size("size", 1, 2), sym.Size("read", 1, 3)
	flushes := 0
	for i := 0; i < n; i++ {
		op := sym.Choose("op", 4)
		requests := w.requests
		switch op {
		case 0:
			b := sym.Bytes("b", size)
			m, e := t.Write(b)
			if open {
				sym.Assert(m == len(b) && e == nil, "Write fails or reports another count")
				pending = append(pending, b...)
				for j := range b { // the caller may reuse its buffer
					b[j] = 0
				}
			} else {
				sym.Assert(m == 0, "a closed client writes something")
				notOpen(e, "Write to a closed client is not a NOT_OPEN error")
			}
		case 1:
			flushes++
			sym.Assume(flushes <= 3)
			if flushes < 3 {
				w.outcome(2)
			} else {
				w.how, w.answer = 0, []byte{42}
			}
			bodies := len(sym.HTTPBodies)
			e := t.Flush()
			if !open {
				notOpen(e, "Flush of a closed client is not a NOT_OPEN error")
				sym.Assert(w.requests == requests, "a closed client posts")
				break
			}
			sym.Assert(w.requests == requests+1, "Flush does not make one request")
			if w.how != 3 {
				sym.Assert(w.method == "POST" && w.kind == "application/x-thrift", "Flush does not post, or not Thrift")
				sym.Assert(string(w.body) == string(pending), "other bytes are posted than were written since the last Flush")
			}
			sym.Assert((e == nil) == (w.how == 0), "a failed request is not reported, or a good one is")
			pending = nil
			readable, answer, current = w.how == 0, append([]byte(nil), w.answer...), -1
			if readable {
				current = bodies
			}
		case 2:
			b := make([]byte, most)
			m, e := t.Read(b)
			sym.Assert(w.requests == requests, "Read makes a request")
			if !readable {
				sym.Assert(m == 0, "something is read without a response")
				notOpen(e, "Read without a response is not a NOT_OPEN error")
				break
			}
			sym.Assert(m <= len(answer) && string(b[:m]) == string(answer[:m]), "other bytes are read than the response has")
			answer = answer[m:]
			if e != nil {
				te, is := e.(thrift.TTransportException)
				sym.Assert(is && te.TypeId() == thrift.END_OF_FILE && len(answer) == 0, "Read fails before the end of the response")
			} else {
				sym.Assert(m > 0, "Read makes no progress")
			}
		case 3:
			sym.Assert(t.Close() == nil, "Close fails")
			sym.Assert(!t.IsOpen() && !t.Peek() && w.requests == requests, "a closed client says it is open")
			open, readable, current = false, false, -1
		}
		bodiesClosed(current)
	}
	sym.Reach("end")
}

// C30_Status: any status.
func C30_Status() {
	w := &web{how: 1, answer: sym.Bytes("answer", 2)}
	w.begin(false)
	w.status = int(sym.Range("status", 100, sym.Bound(320, 599)))
	var t thrift.TTransport
	var e error
	if sym.Choose("get", 2) == 1 {
		t, e = thrift.NewTHttpClient(where)
	} else {
		t, e = thrift.NewTHttpPostClient(where)
		sym.Assert(e == nil, "NewTHttpPostClient fails")
		e = t.Flush()
	}
	sym.Assert((e == nil) == (w.status == 200), "a status other than 200 is not an error, or 200 is")
	if e == nil {
		b := make([]byte, 2)
		n, e := t.ReadAll(b)
		sym.Assert(n == 2 && e == nil && string(b) == string(w.answer), "other bytes are read than the response has")
	} else {
		bodiesClosed(-1)
	}
	sym.Reach("end")
}

// C30_Get: the client that only gets.
func C30_Get() {
	w := &web{}
	w.begin(false)
	w.outcome(sym.Bound(3, 4))
	t, e := thrift.NewTHttpClient(where)
	sym.Assert(w.requests == 1, "NewTHttpClient does not make one request")
	sym.Assert(w.how == 3 || w.method == "GET", "NewTHttpClient does not get")
	sym.Assert((e == nil) == (w.how == 0), "a failed request is not reported, or a good one is")
	if e != nil {
		bodiesClosed(-1)
		sym.Reach("end")
		return
	}
	sym.Assert(t.IsOpen() && t.Peek() && t.Open() == nil, "a new client is not open")
	answer, open := w.answer, true
	for i := 0; i < 4; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			m, e := t.Write([]byte{1})
			sym.Assert(m == 0, "something is written with GET")
			notOpen(e, "Write with GET is not a NOT_OPEN error")
		case 1:
			notOpen(t.Flush(), "Flush with GET is not a NOT_OPEN error")
		case 2:
			b := make([]byte, sym.Size("read", 1, 3))
			m, e := t.Read(b)
			if !open {
				sym.Assert(m == 0, "a closed client reads something")
				notOpen(e, "Read of a closed client is not a NOT_OPEN error")
				break
			}
			sym.Assert(m <= len(answer) && string(b[:m]) == string(answer[:m]), "other bytes are read than the response has")
			answer = answer[m:]
			sym.Assert(e == nil || len(answer) == 0, "Read fails before the end of the response")
			sym.Assert(e != nil || m > 0, "Read makes no progress")
		case 3:
			sym.Assert(t.Close() == nil, "Close fails")
			sym.Assert(!t.IsOpen() && !t.Peek(), "a closed client says it is open")
			bodiesClosed(-1)
			open = false
		}
	}
	sym.Assert(w.requests == 1, "a client that only gets makes another request")
	sym.Reach("end")
}

// C30_Factory: factories make the client of their kind, or of the kind of the one given.
func C30_Factory() {
	w := &web{answer: []byte{5}}
	w.begin(false)
	post := sym.Choose("post", 2) == 1
	var f thrift.TTransportFactory = thrift.NewTHttpClientTransportFactory(where)
	if post {
		f = thrift.NewTHttpPostClientTransportFactory(where)
	}
	var given thrift.TTransport
	switch sym.Choose("given", 4) {
	case 1:
		given = thrift.NewTMemoryBuffer()
	case 2:
		given, _ = thrift.NewTHttpClient(where)
		post = false
	case 3:
		given, _ = thrift.NewTHttpPostClient(where)
		given.Write([]byte{9})
		post = true
	}
	requests := w.requests
	t := f.GetTransport(given)
	_, is := t.(*thrift.THttpClient)
	sym.Assert(is && t != given, "the factory does not make a client of its own")
	b := []byte{sym.Byte("b")}
	n, e := t.Write(b)
	if post {
		sym.Assert(w.requests == requests && n == 1 && e == nil, "the factory does not make a client that posts")
		sym.Assert(t.Flush() == nil && string(w.body) == string(b), "other bytes are posted than were written")
	} else {
		sym.Assert(w.requests == requests+1 && w.method == "GET" && e != nil, "the factory does not make a client that gets")
	}
	n, e = t.ReadAll(b)
	sym.Assert(n == 1 && e == nil && b[0] == 5, "other bytes are read than the response has")
	sym.Reach("end")
}

// C30_Calls: whole calls; one that fails does not disturb the next.
func C30_Calls() {
	k := sym.Choose("protocol", 2)
	h := &echo{fail: make([]error, 9)}
	p := simple.NewContainerOfEnumsTestServiceProcessor(h)
	how := 0
	sym.UseHTTP(func(method, url, contentType string, body []byte) (int, []byte, error) {
		in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
		in.Write(body)
		p.Process(mk(k, in), mk(k, out))
		sym.Assert(in.Len() == 0, "more than one call is posted at once")
		switch how {
		case 1:
			return 503, out.Bytes(), nil
		case 2:
			return 0, nil, errBroken
		}
		return 200, out.Bytes(), nil
	})
	sym.HTTPDial = func(method, url string) error {
		if how == 3 {
			return errBroken
		}
		return nil
	}
	t, _ := thrift.NewTHttpPostClient(where)
	c := simple.NewContainerOfEnumsTestServiceClientFactory(t, factory(k))
	for i := 0; i < 3; i++ {
		how = sym.Choose("outcome", 4)
		m := simple.NewContainerOfEnums()
		m.Second = simple.DefinedValues(sym.Int32("value"))
		r, e := c.Echo(m)
		sym.Assert((e == nil) == (how == 0), "a failed call is not reported, or a good one is")
		if e == nil {
			sym.Assert(sameMessage(r, m), "a call is answered with something else")
		}
	}
	sym.Reach("end")
}
