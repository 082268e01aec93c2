package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// runInstrument writes copies of the sources of some packages in which every
// statement is a point where the scheduler may switch, and an overlay file
// for go build. It looks at no particular code: any sources will do.
func runInstrument(args []string) {
	f := flags("instrument")
	repo, out := f.String("repo", "/repo", ""), f.String("out", "", "")
	fatal(f.Parse(args))
	replace := map[string]string{}
	for _, pkg := range []string{".", "internal", "util"} {
		dir := filepath.Join(*repo, pkg)
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		name := ""
		for _, src := range files {
			if strings.HasSuffix(src, "_test.go") {
				continue
			}
			text, err := os.ReadFile(src)
			fatal(err)
			if bytes.Contains(text, []byte("//go:")) {
				continue
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, src, text, 0)
			if err != nil {
				continue
			}
			name = file.Name.Name
			ast.Inspect(file, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					b.List = withPoints(b.List)
				case *ast.CaseClause:
					b.Body = withPoints(b.Body)
				case *ast.CommClause:
					b.Body = withPoints(b.Body)
				}
				return true
			})
			var buf bytes.Buffer
			if format.Node(&buf, fset, file) != nil {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(pkg, ".", "root")+"_"+filepath.Base(src))
			fatal(os.WriteFile(dst, buf.Bytes(), 0o644))
			replace[src] = dst
		}
		if name != "" {
			dst := filepath.Join(*out, strings.ReplaceAll(pkg, ".", "root")+"_zz_point.go")
			fatal(os.WriteFile(dst, []byte("package "+name+pointCode), 0o644))
			replace[filepath.Join(dir, "zz_verif_point.go")] = dst
		}
	}
	b, err := json.Marshal(obj{"Replace": replace})
	fatal(err)
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

// withPoints puts a point before every statement; clauses of switch and
// select are no statements to stop at.
func withPoints(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifPoint")}}, s)
	}
	return out
}

const pointCode = `

import (
	verifrand "math/rand"
	verifruntime "runtime"
	veriftime "time"
)

func verifPoint() {
	switch r := verifrand.Uint32(); {
	case r%8 == 0:
		verifruntime.Gosched()
	case r%24 == 1:
		veriftime.Sleep(veriftime.Duration(r>>16%40) * veriftime.Microsecond)
	}
}
`
