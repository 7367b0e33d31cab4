package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	user         map[*ssa.Package]bool
	rtErrType    types.Type
	merge        bool
	cache        *QCache
	queryTimeout int
	fuel         int
	workers      int
	thorough     bool
	maxTraces    int
	wmu          sync.Mutex
	pool         []*Worker
	fns          map[string]*ssa.Function
	fnsMu        sync.Mutex
	loadTime     time.Duration
	symPkg       *ssa.Package
	rtPkg        *ssa.Package
}

func (e *Engine) tier() string {
	if e.thorough {
		return "thorough"
	}
	return "quick"
}

var theEngine *Engine

func load(patterns ...string) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Env: append(os.Environ(), "CGO_ENABLED=0"), Dir: "/"}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, user: map[*ssa.Package]bool{}, fns: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		e.pkgs[path] = p
		switch path {
		case "thrift", "simple", "harness", "symrt", "sym", "every":
			e.user[p] = true
			p.Build()
		}
	}
	e.symPkg = e.pkgs["sym"]
	e.rtPkg = e.pkgs["symrt"]
	if e.symPkg == nil || e.rtPkg == nil {
		return nil, fmt.Errorf("sym packages missing")
	}
	e.rtErrType = e.rtPkg.Type("RuntimeError").Type()
	e.merge = os.Getenv("GOSYM_NOMERGE") == ""
	e.cache = &QCache{m: map[qkey]cacheVal{}}
	e.queryTimeout = 10000
	e.fuel = 4000000
	e.workers = 8
	e.maxTraces = 60
	e.loadTime = time.Since(t0)
	theEngine = e
	return e, nil
}

// fn finds a package-level function.
func (e *Engine) fn(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	e.fnsMu.Lock()
	defer e.fnsMu.Unlock()
	if f := e.fns[k]; f != nil {
		return f
	}
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " is not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + k})
	}
	e.fns[k] = f
	return f
}

// packages whose initialisers are not interpreted and whose globals are not readable
var denyPkgs = []string{"os", "net", "net/http", "runtime", "syscall", "crypto", "internal/poll", "internal/syscall", "reflect", "internal/cpu",
	"log", "mime", "encoding/json", "internal/testlog", "vendor", "context", "internal/godebug", "time", "os/signal", "testing", "golang.org"}

func (e *Engine) denied(path string) bool {
	if path == "net/url" {
		return false
	}
	for _, d := range denyPkgs {
		if path == d || strings.HasPrefix(path, d+"/") {
			return true
		}
	}
	return false
}

// globals of denied packages that may be used (zero valued or set up by initGlobal)
func (e *Engine) allowGlobal(g *ssa.Global) bool {
	switch g.String() {
	case "os.Stderr", "os.Stdout", "os.Stdin", "time.UTC", "time.Local", "time.utcLoc", "time.localLoc", "net/http.DefaultClient", "net/http.DefaultTransport":
		return true
	}
	return strings.HasPrefix(g.Name(), "init$")
}

// modelFor replaces a standard library function by a plain Go function of package symrt.
func modelFor(name string) (*ssa.Function, bool) {
	e := theEngine
	m, ok := models[name]
	if !ok {
		return nil, false
	}
	f := e.rtPkg.Func(m)
	if f == nil {
		panic("symrt." + m + " is missing")
	}
	return f, true
}

// models maps standard library functions to plain Go equivalents in package symrt.
var models = map[string]string{
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Index":               "IndexBytes",
	"internal/bytealg.IndexString":         "IndexString",
	"bytes.Index":                          "IndexBytes",
	"strings.Index":                        "IndexString",
	"internal/stringslite.Index":           "IndexString",
	"encoding/json.Marshal":                "JSONMarshal",
	"encoding/json.Unmarshal":              "JSONUnmarshal",
	"errors.Is":                            "ErrorsIs",
	"errors.Unwrap":                        "ErrorsUnwrap",
	"fmt.Errorf":                           "Errorf",
	"net/http.Post":                        "HTTPPost",
	"net/http.Get":                         "HTTPGet",
	"net.Dial":                             "NetDial",
	"net.DialTimeout":                      "NetDialTimeout",
	"net.Listen":                           "NetListen",
}
