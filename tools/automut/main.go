// automut lists mechanical mutations of Go files: one JSON line each with
// file, offset, length, replacement and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, name))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, what string) {
			enc.Encode(mut{name, fs.Position(from).Line, off(from), off(to) - off(from), repl, what + ": " + strings.ReplaceAll(string(src[off(from):off(to)]), "\n", " ") + " -> " + strings.ReplaceAll(repl, "\n", " ")})
		}
		swap := map[token.Token][]string{token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"}}
		noop := func(s ast.Stmt) string {
			// keep variables used
			return ""
		}
		_ = noop
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "drop right operand")
					emit(n.Pos(), n.End(), text(n.Y), "drop left operand")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
						}
					}
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && len(\"\") > 0", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || len(\"\") == 0", "always")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && len(\"\") > 0", "no loop")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop not")
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "_ = 0", "drop call")
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "_ = 0", "drop defer")
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "_ = 0", "drop")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "_ = 0", "drop assignment")
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break", "branch")
					emit(n.Pos(), n.End(), "_ = 0", "drop branch")
				} else if n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "_ = 0", "drop branch")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := text(r); {
					case t == "err" || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "io.Err"):
						emit(r.Pos(), r.End(), "nil", "no error")
					case t == "true":
						emit(r.Pos(), r.End(), "false", "return")
					case t == "false":
						emit(r.Pos(), r.End(), "true", "return")
					}
				}
			case *ast.CaseClause:
				if len(n.List) > 0 && len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
				for i, e := range n.List {
					if len(n.List) > 1 {
						_ = i
						emit(e.Pos(), e.End(), text(n.List[(i+1)%len(n.List)]), "case value")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil && n.High != nil {
					emit(n.Low.Pos(), n.Low.End(), "0", "slice low")
				}
			}
			return true
		})
	}
}
