// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts the functions marked "intercepted"; compiled natively they read the inputs of a
// counterexample (or of a sampled path) in creation order and report failed assertions.
package sym

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"strings"
	"time"
)

// Failure describes the end of a native run.
type Failure struct {
	Kind, Msg string
}

type stopRun struct{}
type assumeFail struct{}

var (
	values   []uint64
	names    []string
	pos      int
	thorough bool
	failure  *Failure
	logs     []string
	diverged string
)

// Start prepares a native run.
func Start(vals []uint64, nm []string, th bool) {
	values, names, pos, thorough, failure, logs, diverged = vals, nm, 0, th, nil, nil, ""
	HTTPHook = nil
}

// Run executes f natively and reports the failure (nil: none), the log and how it ended.
func Run(f func()) (fail *Failure, log []string, end string) {
	end = "ok"
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case stopRun:
				end = "assertfail"
			case assumeFail:
				end = "assume"
			default:
				end = "panic"
				failure = &Failure{"panic", fmt.Sprint(x)}
			}
		}()
		f()
	}()
	if diverged != "" {
		end = "diverged: " + diverged
	}
	return failure, logs, end
}

func next(name string) uint64 {
	if pos >= len(values) {
		if diverged == "" {
			diverged = "more inputs than recorded at " + name
		}
		return 0
	}
	if names != nil && names[pos] != name && diverged == "" {
		diverged = "input " + name + " where " + names[pos] + " was recorded"
	}
	v := values[pos]
	pos++
	return v
}

func Byte(name string) byte       { return byte(next(name)) }                         // intercepted
func Bool(name string) bool       { return next(name) != 0 }                          // intercepted
func Int(name string) int         { return int(next(name)) }                          // intercepted
func Int8(name string) int8       { return int8(next(name)) }                         // intercepted
func Int16(name string) int16     { return int16(next(name)) }                        // intercepted
func Int32(name string) int32     { return int32(next(name)) }                        // intercepted
func Int64(name string) int64     { return int64(next(name)) }                        // intercepted
func Uint64(name string) uint64   { return next(name) }                               // intercepted
func Uint32(name string) uint32   { return uint32(next(name)) }                       // intercepted
func Float64(name string) float64 { return math.Float64frombits(next(name)) }         // intercepted
func Float32(name string) float32 { return math.Float32frombits(uint32(next(name))) } // intercepted

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// ASCII returns a string of n arbitrary printable ASCII bytes.
func ASCII(name string, n int) string {
	b := Bytes(name, n)
	for i := range b {
		Assume(b[i] >= 0x20 && b[i] < 0x7f)
	}
	return string(b)
}

// Choose returns an arbitrary value in 0..n-1; every value is explored separately.
func Choose(name string, n int) int { // intercepted
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Range is an arbitrary value in lo..hi, explored separately.
func Range(name string, lo, hi int) int { return lo + Choose(name, hi-lo+1) }

// Size is an arbitrary integer in lo..hi whose values the solver enumerates.
func Size(name string, lo, hi int) int {
	v := Int(name)
	Assume(v >= lo && v <= hi)
	return Concrete(v)
}

// Assume restricts the inputs.
func Assume(c bool) { // intercepted
	if !c {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) { // intercepted
	if !c {
		if failure == nil {
			failure = &Failure{"assert", msg}
		}
		panic(stopRun{})
	}
}

// Reach marks a point that some path must reach.
func Reach(label string) {} // intercepted

// MapOrder makes map iteration order arbitrary (native runs rely on the runtime's own choice).
func MapOrder(on bool) {} // intercepted

// AllocLimit bounds symbolic allocation sizes that are enumerated.
func AllocLimit(n int) {} // intercepted

// MaxAlloc bounds allocations altogether (larger ones end the path as outside the bound).
func MaxAlloc(n int) {} // intercepted

// Native tells whether this is a native run.
func Native() bool { return true } // intercepted

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return thorough } // intercepted

// Bound picks the bound of the tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Concrete forks over the values of v (enumerated), returning a concrete one.
func Concrete(v int) int { return v } // intercepted

// Same tells whether two strings are equal, without looking inside texts whose content is not modelled.
// (natively: ==)

// Observe logs values, compared between symbolic and native runs.
func Observe(args ...any) { // intercepted
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(render(a))
	}
	logs = append(logs, sb.String())
}

func render(a any) string {
	switch x := a.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int:
		return fmt.Sprint(x)
	case int8:
		return fmt.Sprint(x)
	case int16:
		return fmt.Sprint(x)
	case int32:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case uint8:
		return fmt.Sprint(x)
	case uint16:
		return fmt.Sprint(x)
	case uint32:
		return fmt.Sprint(x)
	case uint64:
		return fmt.Sprint(x)
	case float64:
		if x != x {
			return "fNaN"
		}
		return fmt.Sprintf("f%016x", math.Float64bits(x))
	case float32:
		if x != x {
			return "fNaN"
		}
		return fmt.Sprintf("f%08x", math.Float32bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("x%x", x)
	}
	return "?"
}

// Catch runs f and tells whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		r := recover()
		if r != nil {
			switch r.(type) {
			case stopRun, assumeFail:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Gosched lets other goroutines run until they block.
func Gosched() {} // intercepted

// ---- HTTP stand-in ----

// HTTPHook answers the requests made through net/http's default client.
var HTTPHook func(method, url, contentType string, body []byte) (status int, resp []byte, err error)

// HTTPDial, if set, may refuse a request before its body is read.
var HTTPDial func(method, url string) error

// HTTPBody is the body of a response. It is not readable once closed.
type HTTPBody struct {
	b      []byte
	Closed int
	piece  int
}

var errClosedBody = errors.New("http: read on closed response body")

// HTTPBodies are the bodies handed out since UseHTTP.
var HTTPBodies []*HTTPBody

func (p *HTTPBody) Read(buf []byte) (int, error) {
	if p.Closed > 0 {
		return 0, errClosedBody
	}
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := copy(buf, p.b)
	p.b = p.b[n:]
	return n, nil
}

func (p *HTTPBody) Close() error {
	p.Closed++
	return nil
}

// NewHTTPBody is used by the transports.
func NewHTTPBody(b []byte) *HTTPBody {
	r := &HTTPBody{b: b}
	HTTPBodies = append(HTTPBodies, r)
	return r
}

type hookTransport struct{}

func (hookTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	if HTTPDial != nil {
		if e := HTTPDial(r.Method, r.URL.String()); e != nil {
			return nil, e
		}
	}
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	st, resp, err := HTTPHook(r.Method, r.URL.String(), r.Header.Get("Content-Type"), b)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: NewHTTPBody(resp), ContentLength: int64(len(resp)), Request: r}, nil
}

// UseHTTP installs the hook.
func UseHTTP(h func(method, url, contentType string, body []byte) (int, []byte, error)) {
	HTTPHook, HTTPDial, HTTPBodies = h, nil, nil
	installHTTP()
}

func installHTTP() {
	http.DefaultTransport = hookTransport{}
	http.DefaultClient.Transport = hookTransport{}
} // intercepted

// Exit is used by the native runner.
func Exit(code int) { os.Exit(code) }

// Peer is what sockets connect to. It sends the same reply on every connection, and keeps what it receives.
type Peer struct {
	Reply []byte
	Got   []*[]byte // of every connection
	l     net.Listener
	done  chan []byte
}

// ThePeer is the one that is listening.
var ThePeer *Peer

// NewPeer listens.
func NewPeer(reply []byte) *Peer {
	p := &Peer{Reply: reply}
	ThePeer = p
	if Native() {
		p.listen()
	}
	return p
}

func (p *Peer) listen() {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		panic(e)
	}
	p.l, p.done = l, make(chan []byte, 8)
	go func() {
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			c.SetDeadline(time.Now().Add(5 * time.Second))
			c.Write(p.Reply)
			c.(*net.TCPConn).CloseWrite()
			b, _ := io.ReadAll(c)
			c.Close()
			p.done <- b
		}
	}()
}

type peerAddr struct{}

func (peerAddr) Network() string { return "tcp" }
func (peerAddr) String() string  { return "peer:1" }

// Addr is where it listens.
func (p *Peer) Addr() net.Addr {
	if Native() {
		return p.l.Addr()
	}
	return peerAddr{}
}

// Received is what was received on the next connection, which must be closed.
func (p *Peer) Received() []byte {
	if Native() {
		select {
		case b := <-p.done:
			return b
		case <-time.After(5 * time.Second):
			return nil
		}
	}
	if len(p.Got) == 0 {
		return nil
	}
	b := *p.Got[0]
	p.Got = p.Got[1:]
	return b
}

// Close stops listening.
func (p *Peer) Close() {
	if Native() {
		p.l.Close()
	}
}

// Place is a free address to listen at, and those who connect to it.
type Place struct {
	addr  string
	Open  bool // someone listens
	Calls []*Call
}

// Call is a connection to a Place: what is sent over it, and what comes back.
type Call struct {
	Sent, Got []byte
	Closed    bool
	c         net.Conn
}

// ThePlace is the one that can be listened at.
var ThePlace *Place

// NewPlace finds a free address.
func NewPlace() *Place {
	p := &Place{addr: "place:1"}
	ThePlace = p
	if Native() {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			panic(e)
		}
		p.addr = l.Addr().String()
		l.Close()
	}
	return p
}

type placeAddr struct{ s string }

func (placeAddr) Network() string  { return "tcp" }
func (a placeAddr) String() string { return a.s }

// Addr is the address.
func (p *Place) Addr() net.Addr { return placeAddr{p.addr} }

// Connect connects and sends b, and no more; nil: nobody listens.
func (p *Place) Connect(b []byte) *Call {
	k := &Call{Sent: b}
	if Native() {
		c, e := net.DialTimeout("tcp", p.addr, 5*time.Second)
		if e != nil {
			return nil
		}
		c.SetDeadline(time.Now().Add(5 * time.Second))
		c.Write(b)
		c.(*net.TCPConn).CloseWrite()
		k.c = c
		return k
	}
	if !p.Open {
		return nil
	}
	p.Calls = append(p.Calls, k)
	return k
}

// Received is what came back over the connection, which must be closed by now.
func (k *Call) Received() []byte {
	if k.c != nil {
		b, _ := io.ReadAll(k.c)
		k.c.Close()
		return b
	}
	return k.Got
}
