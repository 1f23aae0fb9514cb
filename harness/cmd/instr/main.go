// Command instr writes an overlay in which every statement of the given packages is preceded by a call of the
// package's VerifYield, the scheduling point of the statement-level exploration.
//
//	instr OUTDIR OVERLAY.json DIR...
//
// adds the instrumented files to OVERLAY.json (which may hold other replacements).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	out, over := os.Args[1], os.Args[2]
	var o struct{ Replace map[string]string }
	if b, err := os.ReadFile(over); err == nil {
		if err := json.Unmarshal(b, &o); err != nil {
			fail(err)
		}
	}
	if o.Replace == nil {
		o.Replace = map[string]string{}
	}
	n := 0
	for di, dir := range os.Args[3:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			fail(err)
		}
		pkg := ""
		for fi, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			fs := token.NewFileSet()
			a, err := parser.ParseFile(fs, f, src, 0)
			if err != nil {
				fail(err)
			}
			pkg = a.Name.Name
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) || strings.HasSuffix(f, ".pb.go") {
				continue
			}
			n += instrument(a)
			var b bytes.Buffer
			if err := printer.Fprint(&b, fs, a); err != nil {
				fail(err)
			}
			to := filepath.Join(out, fmt.Sprintf("i%d_%d.go.txt", di, fi))
			if err := os.WriteFile(to, b.Bytes(), 0600); err != nil {
				fail(err)
			}
			o.Replace[f] = to
		}
		y := filepath.Join(out, fmt.Sprintf("y%d.go.txt", di))
		src := fmt.Sprintf("package %s\n\n// VerifYield is called before every statement.\nvar VerifYield = func() {}\n", pkg)
		if err := os.WriteFile(y, []byte(src), 0600); err != nil {
			fail(err)
		}
		o.Replace[filepath.Join(dir, "zz_verif_yield.go")] = y
	}
	b, _ := json.Marshal(o)
	if err := os.WriteFile(over, b, 0600); err != nil {
		fail(err)
	}
	fmt.Println(n, "scheduling points")
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func instrument(f *ast.File) int {
	n := 0
	add := func(l []ast.Stmt) []ast.Stmt {
		var o []ast.Stmt
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				o = append(o, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("VerifYield")}})
				n++
			}
			o = append(o, s)
		}
		return o
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.BlockStmt:
			if len(s.List) > 0 {
				switch s.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause: // the body of a switch or select
					return true
				}
			}
			s.List = add(s.List)
		case *ast.CaseClause:
			s.Body = add(s.Body)
		case *ast.CommClause:
			s.Body = add(s.Body)
		}
		return true
	})
	return n
}
