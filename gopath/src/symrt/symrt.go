// Package symrt holds plain Go stand-ins that the symbolic executor uses for functions of the standard
// library that are written in assembly or rely on reflection. Native runs use the real functions.
package symrt

import (
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"sym"
	"time"
)

// RuntimeError is the type of run-time panics.
type RuntimeError struct{ S string }

func (e RuntimeError) Error() string { return e.S }
func (e RuntimeError) RuntimeError() {}

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func IndexBytes(a, b []byte) int { return IndexString(string(a), string(b)) }
func IndexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

// ---- errors ----

func ErrorsUnwrap(err error) error {
	u, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return u.Unwrap()
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

type fmtError struct {
	s string
	w error
}

func (e *fmtError) Error() string { return e.s }
func (e *fmtError) Unwrap() error { return e.w }

func sprintf(format string, a ...any) string // replaced by the executor

func Errorf(format string, a ...any) error {
	var w error
	if hasW(format) {
		for _, x := range a {
			if e, ok := x.(error); ok {
				w = e
			}
		}
	}
	return &fmtError{sprintf(format, a...), w}
}

func hasW(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' && s[i+1] == 'w' {
			return true
		}
	}
	return false
}

// ---- encoding/json for strings ----

const hex = "0123456789abcdef"

func decodeRune(s string) (rune, int) // unicode/utf8.DecodeRuneInString, replaced by the executor

func unsupported(msg string) // replaced by the executor

// JSONMarshal mirrors encoding/json for string values.
func JSONMarshal(v any) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		unsupported("json.Marshal of a non-string")
	}
	dst := make([]byte, 0, 2*len(s)+16)
	dst = append(dst, '"')
	for i := 0; i < len(s); {
		b := s[i]
		if b < 0x80 {
			if b >= 0x20 && b != '"' && b != '\\' && b != '<' && b != '>' && b != '&' {
				dst = append(dst, b)
				i++
				continue
			}
			switch b {
			case '\\', '"':
				dst = append(dst, '\\', b)
			case '\b':
				dst = append(dst, '\\', 'b')
			case '\f':
				dst = append(dst, '\\', 'f')
			case '\n':
				dst = append(dst, '\\', 'n')
			case '\r':
				dst = append(dst, '\\', 'r')
			case '\t':
				dst = append(dst, '\\', 't')
			default:
				dst = append(dst, '\\', 'u', '0', '0', hex[b>>4], hex[b&0xf])
			}
			i++
			continue
		}
		c, size := decodeRune(s[i:])
		if c == 0xFFFD && size == 1 {
			dst = append(dst, "\ufffd"...)
			i++
			continue
		}
		if c == 0x2028 || c == 0x2029 {
			dst = append(dst, '\\', 'u', '2', '0', '2', hex[c&0xf])
			i += size
			continue
		}
		dst = append(dst, s[i:i+size]...)
		i += size
	}
	dst = append(dst, '"')
	return dst, nil
}

var errSyntax = errors.New("invalid JSON")
var errType = errors.New("json: cannot unmarshal into string")

func isWS(b byte) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }

// JSONUnmarshal mirrors encoding/json for string targets.
func JSONUnmarshal(data []byte, v any) error {
	p, ok := v.(*string)
	if !ok {
		unsupported("json.Unmarshal into a non-string")
	}
	if p == nil {
		return errType
	}
	i, n := 0, len(data)
	for i < n && isWS(data[i]) {
		i++
	}
	for n > i && isWS(data[n-1]) {
		n--
	}
	if i >= n {
		return errSyntax
	}
	if data[i] != '"' {
		if n-i == 4 && string(data[i:n]) == "null" {
			return nil
		}
		return errSyntax
	}
	out, end, ok := unquote(data[i:n])
	if !ok || i+end != n {
		return errSyntax
	}
	*p = string(out)
	return nil
}

func hexVal(c byte) rune {
	switch {
	case c >= '0' && c <= '9':
		return rune(c - '0')
	case c >= 'a' && c <= 'f':
		return rune(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return rune(c-'A') + 10
	}
	return -1
}

func u4(s []byte) rune {
	if len(s) < 6 || s[0] != '\\' || s[1] != 'u' {
		return -1
	}
	r := rune(0)
	for _, c := range s[2:6] {
		d := hexVal(c)
		if d < 0 {
			return -1
		}
		r = r*16 + d
	}
	return r
}

func appendRune(b []byte, r rune) []byte // unicode/utf8.AppendRune, replaced by the executor

// unquote decodes the JSON string literal at the start of s and returns its length.
func unquote(s []byte) (out []byte, end int, ok bool) {
	out = make([]byte, 0, len(s))
	i := 1
	for i < len(s) {
		c := s[i]
		switch {
		case c == '"':
			return out, i + 1, true
		case c == '\\':
			if i+1 >= len(s) {
				return nil, 0, false
			}
			switch e := s[i+1]; e {
			case '"', '\\', '/':
				out = append(out, e)
				i += 2
			case 'b':
				out = append(out, '\b')
				i += 2
			case 'f':
				out = append(out, '\f')
				i += 2
			case 'n':
				out = append(out, '\n')
				i += 2
			case 'r':
				out = append(out, '\r')
				i += 2
			case 't':
				out = append(out, '\t')
				i += 2
			case 'u':
				r := u4(s[i:])
				if r < 0 {
					return nil, 0, false
				}
				i += 6
				if r >= 0xD800 && r < 0xE000 {
					r2 := u4(s[i:])
					if r < 0xDC00 && r2 >= 0xDC00 && r2 < 0xE000 {
						r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
						i += 6
					} else {
						r = 0xFFFD
					}
				}
				out = appendRune(out, r)
			default:
				return nil, 0, false
			}
		case c < 0x20:
			return nil, 0, false
		case c < 0x80:
			out = append(out, c)
			i++
		default:
			r, size := decodeRune(string(s[i:]))
			if r == 0xFFFD && size <= 1 {
				out = append(out, "\ufffd"...)
				i++
				continue
			}
			out = append(out, s[i:i+size]...)
			i += size
		}
	}
	return nil, 0, false
}

// ---- net/http through the harness hook ----

type urlError struct{ err error }

func (e *urlError) Error() string { return "http: " + e.err.Error() }

func do(method, url, ct string, r io.Reader) (*http.Response, error) {
	if sym.HTTPHook == nil {
		unsupported("HTTP request without a hook")
	}
	var b []byte
	if sym.HTTPDial != nil {
		if err := sym.HTTPDial(method, url); err != nil {
			return nil, &urlError{err}
		}
	}
	if r != nil {
		var err error
		b, err = io.ReadAll(r)
		if err != nil {
			return nil, err
		}
	}
	st, resp, err := sym.HTTPHook(method, url, ct, b)
	if err != nil {
		return nil, &urlError{err}
	}
	return &http.Response{StatusCode: st, Body: sym.NewHTTPBody(resp), ContentLength: int64(len(resp))}, nil
}

func HTTPPost(url, contentType string, r io.Reader) (*http.Response, error) {
	switch v := r.(type) { // (http.NewRequest looks into these)
	case *bytes.Buffer:
		v.Len()
	}
	return do("POST", url, contentType, r)
}

func HTTPGet(url string) (*http.Response, error) { return do("GET", url, "", nil) }

// ---- net: dials reach sym.ThePeer, or fail ----

var errNet = errors.New("connection refused")

func NetDial(network, address string) (net.Conn, error) {
	p := sym.ThePeer
	if p == nil || network != p.Addr().Network() || address != p.Addr().String() {
		return nil, errNet
	}
	b := new([]byte)
	p.Got = append(p.Got, b)
	return &peerConn{left: p.Reply, got: b, to: p.Addr()}, nil
}

func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}

// peerConn is a connection to the peer.
type peerConn struct {
	left   []byte
	got    *[]byte
	to     net.Addr
	closed bool
}

func (c *peerConn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, errClosed
	}
	if len(b) > 0 && len(c.left) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.left)
	c.left = c.left[n:]
	return n, nil
}

func (c *peerConn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, errClosed
	}
	*c.got = append(*c.got, b...)
	return len(b), nil
}

func (c *peerConn) Close() error {
	if c.closed {
		return errClosed
	}
	c.closed = true
	return nil
}

func (c *peerConn) LocalAddr() net.Addr                { return loopback{} }
func (c *peerConn) RemoteAddr() net.Addr               { return c.to }
func (c *peerConn) SetDeadline(t time.Time) error      { return nil }
func (c *peerConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *peerConn) SetWriteDeadline(t time.Time) error { return nil }

// NetListen listens on the loopback address with any port; nobody connects. Other addresses fail.
func NetListen(network, address string) (net.Listener, error) {
	if network == "tcp" && address == "127.0.0.1:0" {
		return &listener{quit: make(chan int)}, nil
	}
	if p := sym.ThePlace; p != nil && network == "tcp" && address == p.Addr().String() && !p.Open {
		p.Open, p.Calls = true, nil
		return &placeListener{p: p, quit: make(chan int)}, nil
	}
	return nil, errNet
}

type listener struct {
	quit   chan int
	closed bool
}

var errClosed = errors.New("use of closed network connection")

func (l *listener) Accept() (net.Conn, error) {
	<-l.quit
	return nil, errClosed
}

func (l *listener) Close() error {
	if l.closed {
		return errClosed
	}
	l.closed = true
	close(l.quit)
	return nil
}

func (l *listener) Addr() net.Addr { return loopback{} }

type loopback struct{}

func (loopback) Network() string { return "tcp" }
func (loopback) String() string  { return "127.0.0.1:0" }

// placeListener listens at sym.ThePlace.
type placeListener struct {
	p      *sym.Place
	quit   chan int
	closed bool
}

func (l *placeListener) Accept() (net.Conn, error) {
	if l.closed {
		return nil, errClosed
	}
	if len(l.p.Calls) == 0 {
		<-l.quit
		return nil, errClosed
	}
	k := l.p.Calls[0]
	l.p.Calls = l.p.Calls[1:]
	return &callConn{k: k, left: k.Sent}, nil
}

func (l *placeListener) Close() error {
	if l.closed {
		return errClosed
	}
	l.closed, l.p.Open = true, false
	close(l.quit)
	return nil
}

func (l *placeListener) Addr() net.Addr { return l.p.Addr() }

// callConn is the end of a connection to the place.
type callConn struct {
	k      *sym.Call
	left   []byte
	rd, wr time.Time
}

var errLate = errors.New("i/o timeout")

// late: deadlines of some nanoseconds have passed by the time of the next operation.
func late(d time.Time) bool { return !d.IsZero() && d.Before(time.Now().Add(time.Microsecond)) }

func (c *callConn) Read(b []byte) (int, error) {
	if c.k.Closed {
		return 0, errClosed
	}
	if late(c.rd) {
		return 0, errLate
	}
	if len(b) > 0 && len(c.left) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.left)
	c.left = c.left[n:]
	return n, nil
}

func (c *callConn) Write(b []byte) (int, error) {
	if c.k.Closed {
		return 0, errClosed
	}
	if late(c.wr) {
		return 0, errLate
	}
	c.k.Got = append(c.k.Got, b...)
	return len(b), nil
}

func (c *callConn) Close() error {
	if c.k.Closed {
		return errClosed
	}
	c.k.Closed = true
	return nil
}

func (c *callConn) LocalAddr() net.Addr                { return loopback{} }
func (c *callConn) RemoteAddr() net.Addr               { return loopback{} }
func (c *callConn) SetDeadline(t time.Time) error      { c.rd, c.wr = t, t; return nil }
func (c *callConn) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *callConn) SetWriteDeadline(t time.Time) error { c.wr = t; return nil }
