// mut lists syntactic mutations of Go files: lines of JSON with the byte
// range to replace.  Development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File string `json:"file"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, e := os.ReadFile(fn)
		if e != nil {
			panic(e)
		}
		fs := token.NewFileSet()
		f, e := parser.ParseFile(fs, fn, src, 0)
		if e != nil {
			panic(e)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, s string) {
			x, y := off(a), off(b)
			enc.Encode(M{fn, x, y, s, fs.Position(a).Line, fmt.Sprintf("%s => %s", src[x:y], s)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				if n.Name.Name == "String" {
					return false
				}
			case *ast.BinaryExpr:
				e := n.OpPos + token.Pos(len(n.Op.String()))
				for _, r := range map[token.Token][]string{
					token.LSS: {"<=", "!="}, token.LEQ: {"<", "=="}, token.GTR: {">=", "!="}, token.GEQ: {">", "=="},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.REM: {"+"}, token.MUL: {"+"},
				}[n.Op] {
					emit(n.OpPos, e, r)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.OpPos, n.X.Pos(), "")
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 && s.Sel.Name == "Not" {
					emit(n.Pos(), n.End(), text(s.X))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, e := strconv.Atoi(n.Value); e == nil {
						emit(n.Pos(), n.End(), strconv.Itoa(v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.Itoa(v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "")
				}
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				emit(n.Pos(), n.End(), "")
				if n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "continue")
				} else if n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break")
				}
			case *ast.SendStmt, *ast.DeferStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.ReturnStmt:
				if len(n.Results) == 0 {
					emit(n.Pos(), n.End(), "")
				}
			}
			return true
		})
	}
}
