// Package terminal stands for the world of a command-line client: its arguments and flags, what it prints, how it
// ends, and the transports it asks for. The engine makes the generated command-line clients use it instead of flag,
// os, fmt and net.
package terminal

import (
	"errors"
	"io"
	"net"
	"strconv"
	"thrift"
)

var (
	Args    []string                          // the command line
	Usage   func()                            // flag.Usage
	Printed [][]interface{}                   // what was printed, without line ends
	Wrong   int                               // how many times something was printed elsewhere, as on standard error
	Asked   []string                          // the addresses and URLs of the transports asked for
	Give    func(http bool) thrift.TTransport // the transport given; nil: it cannot be had
	rest    []string
	flags   map[string]interface{}
)

// Stdout and Stderr are the places to print to.
var Stdout, Stderr = place{"out"}, place{"error"}

type place struct{ name string }

func (p place) Write(b []byte) (int, error) {
	if p == Stdout {
		return Print(string(b))
	}
	return Fprint(p, string(b))
}

func (p place) WriteString(s string) (int, error) { return p.Write([]byte(s)) }

// Exited is what Exit panics with.
type Exited struct{ Code int }

var errNone = errors.New("there is no such thing")

// Start begins with a command line; what follows the name of the program.
func Start(args ...string) {
	Args = append([]string{"remote"}, args...)
	Usage, Printed, Wrong, Asked, Give = nil, nil, 0, nil, nil
	rest, flags = nil, map[string]interface{}{}
}

// Run runs a program until it returns or exits.
func Run(main func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			x, is := r.(Exited)
			if !is {
				panic(r)
			}
			code = x.Code
		}
	}()
	main()
	return 0
}

func Exit(code int) { panic(Exited{code}) }

func StringVar(p *string, name, value, usage string)         { *p = value; flags[name] = p }
func IntVar(p *int, name string, value int, usage string)    { *p = value; flags[name] = p }
func BoolVar(p *bool, name string, value bool, usage string) { *p = value; flags[name] = p }

// Parse parses flags as package flag does, of the forms -name value, for a bool -name, and -name=value.
func Parse() {
	rest = Args[1:]
	for len(rest) > 0 && len(rest[0]) > 1 && rest[0][0] == '-' {
		name := rest[0][1:]
		rest = rest[1:]
		if name[0] == '-' {
			name = name[1:]
			if name == "" {
				return
			}
		}
		value, given := "", false
		for i := 0; i < len(name); i++ {
			if name[i] == '=' {
				name, value, given = name[:i], name[i+1:], true
				break
			}
		}
		p := flags[name]
		if b, is := p.(*bool); is {
			*b = !given || value == "true"
			continue
		}
		if !given {
			if len(rest) == 0 {
				p = nil
			} else {
				value, rest = rest[0], rest[1:]
			}
		}
		switch p := p.(type) {
		case *string:
			*p = value
		case *int:
			n, e := strconv.Atoi(value)
			if e != nil {
				Usage()
				Exit(2)
			}
			*p = n
		default:
			Usage()
			Exit(2)
		}
	}
}

func NArg() int { return len(rest) }

func Arg(i int) string {
	if i < 0 || i >= len(rest) {
		return ""
	}
	return rest[i]
}

func PrintDefaults() {}

func Print(a ...interface{}) (int, error) {
	if len(a) == 1 {
		if s, is := a[0].(string); is && s == "\n" {
			return 1, nil
		}
	}
	Printed = append(Printed, a)
	return 0, nil
}

func Println(a ...interface{}) (int, error) {
	Printed = append(Printed, a)
	return 0, nil
}

func Printf(f string, a ...interface{}) (int, error) {
	if len(a) > 0 {
		Printed = append(Printed, a)
	}
	return 0, nil
}

func Fprint(w io.Writer, a ...interface{}) (int, error) {
	if w == io.Writer(Stdout) {
		return Print(a...)
	}
	Wrong++
	return 0, nil
}

func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	if w == io.Writer(Stdout) {
		return Println(a...)
	}
	Wrong++
	return 0, nil
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	if w == io.Writer(Stdout) {
		return Printf(f, a...)
	}
	Wrong++
	return 0, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	Asked = append(Asked, network+" "+address)
	return &net.TCPAddr{Port: 1}, nil
}

func have(http bool) (thrift.TTransport, error) {
	if Give != nil {
		if t := Give(http); t != nil {
			return t, nil
		}
	}
	return nil, errNone
}

func NewTNonblockingSocketAddr(addr net.Addr) (thrift.TTransport, error) {
	if addr == nil {
		return nil, errNone
	}
	return have(false)
}

func NewTHttpClient(url string) (thrift.TTransport, error) {
	Asked = append(Asked, url)
	return have(true)
}

func NewTHttpPostClient(url string) (thrift.TTransport, error) {
	Asked = append(Asked, "POST "+url)
	return have(true)
}
