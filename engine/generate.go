package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

// usesGenerator: the properties of the compiler's Go generator, whose harnesses (build tag generated) use what it
// generates from the IDL in thriftc/idl.
func usesGenerator(id string) bool { return id >= "C31" && id <= "C34" || id == "C36" }

// generatedPackages are those the harnesses use.
var generatedPackages = []string{"commands", "constants", "every", "services", "together/including", "together/shared", "typedefs",
	"remote/commands", "remote/derived", "remote/everything", "remote/second", "remote/simple", "remote/shapes"}

// generate compiles the generator of /repo's tree with the stand-in for the rest of the Thrift compiler (thriftc) and
// runs it on each IDL file; the packages go to the scratch GOPATH. broken is the text of a violation: the generator
// refuses a program, or what it generates does not compile. err: the generator itself does not compile.
func generate(repo, verif string) (broken []string, err error) {
	bin := filepath.Join(scratch, "thriftc")
	src := filepath.Join(verif, "thriftc")
	cxx := "g++"
	if _, e := exec.LookPath(cxx); e != nil {
		cxx = "clang++"
	}
	cmd := exec.Command(cxx, "-O0", "-w", "-I", src, "-o", bin, filepath.Join(src, "main.cc"), filepath.Join(repo, "compiler/cpp/src/generate/t_go_generator.cc"))
	if out, e := cmd.CombinedOutput(); e != nil {
		return nil, fmt.Errorf("the generator does not compile: %s", clip(string(out), 2000))
	}
	idl, _ := filepath.Glob(filepath.Join(src, "idl", "*.thrift"))
	more, _ := filepath.Glob(filepath.Join(repo, "tests/*/*.thrift"))
	idl = append(idl, more...)
	sort.Strings(idl)
	if len(idl) == 0 {
		return nil, fmt.Errorf("no IDL")
	}
	out := filepath.Join(scratch, "generated")
	for i, f := range idl {
		dir := filepath.Join(out, fmt.Sprint(i))
		os.MkdirAll(dir, 0o755)
		cmd := exec.Command(bin, f, dir)
		cmd.Dir = dir
		text, e := cmd.CombinedOutput()
		if e != nil {
			broken = append(broken, fmt.Sprintf("the generator fails on %s: %s", filepath.Base(f), clip(string(text), 500)))
			continue
		}
		// (programs of the same name: the repository's own come last and only need to compile)
		pkgs, _ := filepath.Glob(filepath.Join(dir, "gen-go", "*"))
		if len(pkgs) == 0 {
			broken = append(broken, fmt.Sprintf("the generator generates nothing for %s", filepath.Base(f)))
		}
		gp := filepath.Join(dir, "gopath", "src")
		os.MkdirAll(gp, 0o755)
		for _, p := range pkgs {
			os.Rename(p, filepath.Join(gp, filepath.Base(p)))
			if strings.HasPrefix(f, src) {
				os.Symlink(filepath.Join(gp, filepath.Base(p)), filepath.Join(scratch, "gopath", "src", filepath.Base(p)))
			}
		}
		build := exec.Command("go", "build", "./...")
		build.Dir = gp
		build.Env = append(os.Environ(), "GOPATH="+filepath.Join(dir, "gopath")+":"+filepath.Join(repo, "lib/go"))
		if text, e := build.CombinedOutput(); e != nil {
			broken = append(broken, fmt.Sprintf("what is generated for %s does not compile: %s", filepath.Base(f), clip(string(text), 1500)))
		}
		if strings.HasPrefix(f, src) {
			clients, _ := filepath.Glob(filepath.Join(gp, "*", "*", "*-remote.go"))
			deeper, _ := filepath.Glob(filepath.Join(gp, "*", "*", "*", "*-remote.go"))
			for _, c := range append(clients, deeper...) {
				commandLine(c)
			}
		}
	}
	return broken, nil
}

// elsewhere are the functions that the command-line clients use to reach the world, which package terminal stands for.
var elsewhere = map[string]bool{
	"flag.StringVar": true, "flag.IntVar": true, "flag.BoolVar": true, "flag.Parse": true, "flag.Arg": true, "flag.Args": true, "flag.NArg": true, "flag.Usage": true, "flag.PrintDefaults": true,
	"os.Exit": true, "os.Args": true, "os.Stdout": true, "os.Stderr": true, "fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true,
	"net.ResolveTCPAddr": true, "thrift.NewTNonblockingSocketAddr": true, "thrift.NewTHttpClient": true, "thrift.NewTHttpPostClient": true,
}

// commandLine makes a package of a command-line client that harnesses can call: package main becomes remote/<service>,
// main becomes Main, and what it asks of the world goes to package terminal. If the result does not compile (but the
// client does), there is a package whose Main has no paths.
func commandLine(file string) {
	name := strings.ToLower(strings.TrimSuffix(filepath.Base(file), "-remote.go"))
	if !slices.Contains(generatedPackages, "remote/"+name) {
		return
	}
	dir := filepath.Join(scratch, "gopath", "src", "remote", name)
	os.MkdirAll(dir, 0o755)
	to := filepath.Join(dir, name+".go")
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err == nil {
		f.Name.Name = name
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "main" {
					n.Name.Name = "Main"
				}
			case *ast.SelectorExpr:
				if x, is := n.X.(*ast.Ident); is {
					if elsewhere[x.Name+"."+n.Sel.Name] {
						x.Name = "terminal"
					}
				}
			}
			return true
		})
		used := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, is := n.(*ast.SelectorExpr); is {
				if x, is := s.X.(*ast.Ident); is {
					used[x.Name] = true
				}
			}
			return true
		})
		for _, d := range f.Decls {
			if g, is := d.(*ast.GenDecl); is && g.Tok == token.IMPORT {
				var keep []ast.Spec
				for _, s := range g.Specs {
					i := s.(*ast.ImportSpec)
					path := strings.Trim(i.Path.Value, "\"")
					if i.Name != nil || used[filepath.Base(path)] || strings.ContainsAny(path, "_-") {
						keep = append(keep, s)
					}
				}
				g.Specs = keep
			}
		}
		var b strings.Builder
		if err = format.Node(&b, fset, f); err == nil {
			text := strings.Replace(b.String(), "package "+name+"\n", "package "+name+"\n\nimport \"terminal\"\n", 1) + "\nvar _ = terminal.Exit\n"
			os.WriteFile(to, []byte(text), 0o644)
			build := exec.Command("go", "build", "./remote/"+name)
			build.Dir = filepath.Join(scratch, "gopath", "src")
			var out []byte
			if out, err = build.CombinedOutput(); err != nil {
				fmt.Println("a command-line client cannot be checked:", clip(string(out), 500))
			}
		}
	}
	if err != nil {
		os.WriteFile(to, []byte("package "+name+"\n\nimport \"sym\"\n\nfunc Main() { sym.Assume(false) }\n"), 0o644)
	}
}

func clip(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = s[:n]
	}
	return s
}
