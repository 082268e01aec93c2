// mutgen FILE: prints small changes of a Go source file, one JSON object per line:
// {"line": n, "op": what, "from": start offset, "to": end offset, "text": replacement}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(n ast.Node, op, repl string) {
		enc.Encode(map[string]any{"line": fset.Position(n.Pos()).Line, "op": op, "from": off(n.Pos()), "to": off(n.End()), "text": repl})
	}
	cond := func(e ast.Expr) {
		emit(e, "negate", "!("+text(e)+")")
		emit(e, "true", "(true || ("+text(e)+"))")
		emit(e, "false", "(false && ("+text(e)+"))")
	}
	swaps := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
		token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
		token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR},
		token.OR: {token.AND},
	}
	for _, d := range file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				cond(x.Cond)
				if x.Else == nil && x.Init == nil {
					emit(x, "delete-if", "{}")
				}
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, "left", "("+text(x.X)+")")
					emit(x, "right", "("+text(x.Y)+")")
				}
				for _, t := range swaps[x.Op] {
					if t == token.SUB {
						if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
					}
					emit(x, "op "+t.String(), text(x.X)+" "+t.String()+" "+text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x, "const+1", fmt.Sprint(v+1))
						if v > 0 {
							emit(x, "const-1", fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
					emit(x, "string", x.Value[:len(x.Value)-1]+`_"`)
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "bool", "false")
				} else if x.Name == "false" {
					emit(x, "bool", "true")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					emit(x, "break", "break")
				} else if x.Tok == token.BREAK {
					emit(x, "continue", "continue")
				}
			case *ast.BlockStmt:
				for i, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
						emit(s, "delete", "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s, "delete", "")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit(s, "delete-loop", "{}")
					}
					if i+1 < len(x.List) {
						a, b := s, x.List[i+1]
						_, r1 := a.(*ast.ReturnStmt)
						_, r2 := b.(*ast.ReturnStmt)
						_, r3 := b.(*ast.CaseClause)
						if !r1 && !r2 && !r3 {
							emit2(enc, fset, src, a, b)
						}
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := range x.List {
						s := ""
						for j, e := range x.List {
							if j != i {
								if s != "" {
									s += ", "
								}
								s += text(e)
							}
						}
						enc.Encode(map[string]any{"line": fset.Position(x.Pos()).Line, "op": "case-item", "from": off(x.List[0].Pos()),
							"to": off(x.List[len(x.List)-1].End()), "text": s})
					}
				}
				if len(x.Body) > 0 {
					enc.Encode(map[string]any{"line": fset.Position(x.Pos()).Line, "op": "empty-case", "from": off(x.Body[0].Pos()),
						"to": off(x.Body[len(x.Body)-1].End()), "text": ""})
				}
				for i, s := range x.Body {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit(s, "delete", "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s, "delete", "")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit(s, "delete-loop", "{}")
					}
					if i+1 < len(x.Body) {
						_, r2 := x.Body[i+1].(*ast.ReturnStmt)
						if !r2 {
							emit2(enc, fset, src, s, x.Body[i+1])
						}
					}
				}
			case *ast.CallExpr:
				// two neighbouring arguments exchanged
				for i := 0; i+1 < len(x.Args); i++ {
					enc.Encode(map[string]any{"line": fset.Position(x.Pos()).Line, "op": "swap-args", "from": off(x.Args[i].Pos()),
						"to": off(x.Args[i+1].End()), "text": text(x.Args[i+1]) + ", " + text(x.Args[i])})
				}
				for _, a := range x.Args {
					if _, ok := a.(*ast.BasicLit); !ok {
						emit(a, "nil-arg", "nil")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					emit(r, "return-nil", "nil")
				}
			case *ast.KeyValueExpr:
				emit(x, "drop-field", "")
			}
			return true
		})
	}
}

func emit2(enc *json.Encoder, fset *token.FileSet, src []byte, a, b ast.Stmt) {
	o := func(p token.Pos) int { return fset.Position(p).Offset }
	enc.Encode(map[string]any{"line": fset.Position(a.Pos()).Line, "op": "exchange", "from": o(a.Pos()), "to": o(b.End()),
		"text": string(src[o(b.Pos()):o(b.End())]) + "\n" + string(src[o(a.Pos()):o(a.End())])})
}
