package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

// harnessDoc describes a harness: what it covers, and the calls that bound its inputs (its own and those of
// the helper functions it calls in package harness).
type harnessDoc struct {
	Name, Doc string
	Bounds    []string
}

func harnessDocs(verif string) map[string]*harnessDoc {
	fset := token.NewFileSet()
	funcs := map[string]*ast.FuncDecl{}
	out := map[string]*harnessDoc{}
	files, _ := filepath.Glob(filepath.Join(verif, "gopath/src/harness/*.go"))
	for _, f := range files {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				n := fd.Name.Name
				if fd.Recv != nil {
					n = "." + n
				}
				funcs[n] = fd
			}
		}
	}
	text := func(x ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, x)
		return strings.Join(strings.Fields(b.String()), " ")
	}
	var visit func(n string, d *harnessDoc, seen map[string]bool)
	visit = func(n string, d *harnessDoc, seen map[string]bool) {
		fd := funcs[n]
		if fd == nil || seen[n] || n == ".of" || n == ".typ" || n == ".str" {
			return
		}
		seen[n] = true
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch c := x.(type) {
			case *ast.CallExpr:
				switch f := c.Fun.(type) {
				case *ast.SelectorExpr:
					if id, ok := f.X.(*ast.Ident); ok && id.Name == "sym" {
						switch f.Sel.Name {
						case "Choose", "Range", "Size", "Bound", "Bytes", "String", "ASCII", "Assume", "AllocLimit", "MaxAlloc":
							d.Bounds = append(d.Bounds, text(c)[4:])
						}
					} else if ok && id.Obj != nil {
						visit("."+f.Sel.Name, d, seen)
					}
				case *ast.Ident:
					visit(f.Name, d, seen)
				}
			case *ast.CompositeLit:
				if id, ok := c.Type.(*ast.Ident); ok && id.Name == "gen" {
					d.Bounds = append(d.Bounds, text(c))
				}
			}
			return true
		})
	}
	for n, fd := range funcs {
		if len(n) > 4 && n[0] == 'C' && n[3] == '_' {
			d := &harnessDoc{Name: n}
			if fd.Doc != nil {
				d.Doc = strings.TrimPrefix(strings.Join(strings.Fields(fd.Doc.Text()), " "), n+": ")
			}
			visit(n, d, map[string]bool{})
			u := d.Bounds[:0]
			m := map[string]bool{}
			for _, b := range d.Bounds {
				if !m[b] {
					m[b] = true
					u = append(u, b)
				}
			}
			d.Bounds = u
			out[n] = d
		}
	}
	return out
}

// printDocs lists the harnesses as Markdown.
func printDocs(verif string) {
	m := harnessDocs(verif)
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	last := ""
	for _, n := range names {
		if n[:3] != last {
			last = n[:3]
			fmt.Printf("\n### %s\n\n", last)
		}
		fmt.Printf("- `%s`: %s\n  Inputs: `%s`.\n", n, m[n].Doc, strings.Join(m[n].Bounds, "; "))
	}
}
