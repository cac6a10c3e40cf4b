// automut FILE...: prints one JSON line per small mutation of each Go file:
// {"file","line","op","start","end","new"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Line       int
	Op         string
	Start, End int
	New        string
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		emit := func(n ast.Node, op, repl string) {
			a, b := fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset
			old := string(src[a:b])
			if len(old) > 80 {
				old = old[:80]
			}
			enc.Encode(mut{file, fs.Position(n.Pos()).Line, op, a, b, repl, old})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		isLog := func(n ast.Node) bool { return strings.HasPrefix(text(n), "log.") }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if !isLog(x) {
						emit(x, "del", "")
					}
					if isLog(x) {
						return false
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						use := ""
						for _, r := range x.Rhs {
							use += "_ = " + text(r) + ";"
						}
						_ = use
						emit(x, "del", "")
					}
				case *ast.IncDecStmt:
					emit(x, "del", "")
				case *ast.DeferStmt:
					if strings.HasPrefix(text(x), "defer log.") {
						return false
					}
					emit(x, "del", "")
				case *ast.GoStmt:
					emit(x.Call, "nogo", text(x.Call))
					emit(x, "del", "")
				case *ast.IfStmt:
					emit(x.Cond, "false", "("+text(x.Cond)+") && false")
					emit(x.Cond, "true", "("+text(x.Cond)+") || true")
				case *ast.ForStmt:
				case *ast.BinaryExpr:
					sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.EQL: "!=", token.NEQ: "=="}
					if r, ok := sw[x.Op]; ok {
						if x.Op == token.ADD && strings.Contains(text(x), "\"") {
							break
						}
						emit(x, "op"+x.Op.String(), text(x.X)+" "+r+" "+text(x.Y))
					}
				case *ast.CommClause:
					if x.Comm != nil {
						emit(x, "nocase", "")
					} else {
						emit(x, "nodefault", "")
					}
				case *ast.CaseClause:
					emit(x, "nocase", "")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
						emit(x, "del", "")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x, "int", fmt.Sprint(v+1))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "bool", "false")
					} else if x.Name == "false" {
						emit(x, "bool", "true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, "not", text(x.X))
					}
				}
				return true
			})
		}
	}
}
