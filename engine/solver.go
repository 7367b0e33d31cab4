package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	epoch   uint32 // process generation; terms with defEp == epoch have a name
	nDefs   int
	decl    map[string]bool
	timeout int // ms

	Queries, SatN, UnsatN, UnknownN, Errors, Hits int64
	Time                                          time.Duration
	MaxTime                                       time.Duration
}

var solverEpoch uint32
var solverEpochMu sync.Mutex

func newSolver(timeoutMs int) *Solver {
	s := &Solver{timeout: timeoutMs}
	s.start()
	return s
}

var z3Path = func() string {
	for _, p := range []string{"z3-new", "z3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}()

func (s *Solver) start() {
	solverEpochMu.Lock()
	solverEpoch++
	s.epoch = solverEpoch
	solverEpochMu.Unlock()
	s.decl = map[string]bool{}
	s.nDefs = 0
	cmd := exec.Command(z3Path, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3:", err)
		os.Exit(3)
	}
	s.cmd, s.inPipe = cmd, in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) stop() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

func (s *Solver) name(e *Expr) string {
	switch e.op {
	case OConst:
		return constText(e.w, e.val)
	case OVar:
		n := varName(e)
		if !s.decl[n] {
			s.decl[n] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortOf(e.w))
		}
		return n
	}
	if e.defEp != s.epoch {
		t := smtNode(e, s.name)
		fmt.Fprintf(s.in, "(define-fun e%d () %s %s)\n", e.id, sortOf(e.w), t)
		e.defEp = s.epoch
		s.nDefs++
	}
	return "e" + strconv.Itoa(int(e.id))
}

// Check decides the conjunction of cs and returns values for vars when satisfiable.
func (s *Solver) Check(cs []*Expr, vars []*Expr) (SatResult, map[int32]uint64) {
	if s.nDefs > 150000 {
		s.restart()
	}
	t0 := time.Now()
	names := make([]string, len(cs))
	for i, e := range cs {
		names[i] = s.name(e)
	}
	vn := make([]string, len(vars))
	for i, v := range vars {
		vn[i] = s.name(v)
	}
	s.in.WriteString("(push)\n")
	for _, n := range names {
		s.in.WriteString("(assert ")
		s.in.WriteString(n)
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	s.Queries++
	line = strings.TrimSpace(line)
	res := Unknown
	var m map[int32]uint64
	if err != nil {
		s.Errors++
		s.restart()
		return Unknown, nil
	}
	switch line {
	case "sat":
		res = Sat
		s.SatN++
		m = map[int32]uint64{}
		if len(vn) > 0 {
			s.in.WriteString("(get-value (" + strings.Join(vn, " ") + "))\n")
			s.in.Flush()
			txt, ok := s.readSexp()
			if !ok {
				s.Errors++
				s.restart()
				return Unknown, nil
			}
			vals := parseValues(txt)
			for i, v := range vars {
				m[v.vi] = vals[vn[i]]
			}
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	case "unknown", "timeout":
		s.UnknownN++
	default:
		s.Errors++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver said:", line)
		}
		s.restart()
		return Unknown, nil
	}
	s.in.WriteString("(pop)\n")
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, m
}

func (s *Solver) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String(), true
		}
		if !started && b == '\n' && sb.Len() > 1 {
			return "", false
		}
	}
}

func parseValues(t string) map[string]uint64 {
	r := map[string]uint64{}
	t = strings.NewReplacer("(", " ", ")", " ").Replace(t)
	f := strings.Fields(t)
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		}
		r[f[i]] = x
	}
	return r
}

// ---- query cache shared by all workers ----

type cacheVal struct {
	res   SatResult
	model map[int32]uint64
}
type qkey struct{ a, b uint64 }
type QCache struct {
	mu sync.Mutex
	m  map[qkey]cacheVal
}

func cacheKey(cs []*Expr) qkey {
	hs := make([]uint64, len(cs))
	for i, e := range cs {
		hs[i] = e.h
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	a, b := uint64(1), uint64(2)
	for _, h := range hs {
		a = mix(a, h)
		b = mix(b*31+7, h^0xabcdef)
	}
	return qkey{a, b}
}
